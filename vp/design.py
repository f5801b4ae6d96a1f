#!/usr/bin/env python3
"""Rewrites the per-property part of DESIGN.md (below the marker) from this file, the harnesses, properties.jsonl,
known_findings.json and seeded/.  Run by hand; nothing else reads it."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = {}
def d(i, how, oracle, outside=''): D[i] = (how, oracle, outside)
d('P01', 'Each Jet operator and function is executed on symbolic values and dual parts.', 'the calculus derivative written out in the harness, as an identity of rational normal forms over the same transcendental terms', 'rounding; Bessel orders above 5 and non-integer ones (libstdc++ throws for them in the derivative)')
d('P02', 'A functor with symbolic coefficients (products, quotient, sine) goes through the cost function classes; sentinels surround every output.', 'hand-derived Jacobian', 'functors with data dependent control flow')
d('P03', 'Polynomial functors with symbolic coefficients, so that the finite difference is exactly the derivative; the functor records every point it is asked for and may fail at any call; one entry is bit precise.', 'the derivative polynomial, the documented perturbation', 'accuracy on non polynomial functions')
d('P04', 'Templates are instantiated for doubles (and Jets) and executed on symbolic rotations; every Euler system is an entry.', 'the rotation matrix built from elementary rotations, Rodrigues and quaternion formulas; trigonometric axioms', 'gimbal lock neighbourhoods below 1e-6, rounding')
d('P05', 'As P04, for the functions that act on points.', 'multiplication by the rotation matrix; quaternion product')
d('P06', 'Every manifold is run at a symbolic point and tangent vector.', 'PlusJacobian / MinusJacobian against the closed form of Plus and Minus; composition laws; failures injected by a probe manifold', 'LineManifold assumes unit directions as its documentation does')
d('P07', 'Each loss is evaluated at a symbolic s and scale.', 'definition in the documentation, derivative identities, contract inequalities; bit-precise entries for finiteness and monotonicity', 'ArctanLoss overflows for s near 1e308')
d('P08', 'The corrector runs on a symbolic residual, Jacobian and loss derivatives.', 'gradient and Gauss-Newton matrix of the robust cost')
d('P09', 'Wrapped functions return free variables as residual and Jacobian, wrappers are called with symbolic Jets.', 'chain rule, call and delete counts')
d('P10', 'Symbolic samples and position, the cell is forked on.', 'cubic convolution formula, continuity across knots, reproduction of quadratics, edge extension')
d('P11', 'A history of symbolic operations (forked) on a real Problem, with a mirror of what must be in it; destructors count and poison.', 'the mirror after each operation; the engine\'s memory model for use after free', 'histories longer than 5 blocks')
d('P12', 'Real ParameterBlock / Program with symbolic values, bounds, steps.', 'projection formula, predicate definitions')
d('P13', 'Problem::Evaluate over cost functions that return free variables.', 'cost, corrected residuals, tangent Jacobian and gradient formulas; schedules explored with race detection')
d('P14', 'Every evaluator kind on the same free variables.', 'dense Jacobian computed in the harness', 'CUDA evaluator')
d('P15', 'One residual block with arbitrary bit patterns; logs of callbacks.', 'finiteness by bits; log of calls')
d('P16', 'Probe, checker and wrapper on affine functions (for which the Ridders derivative is exact).', 'relative difference formula on exact Jacobians')
d('P17', 'All block patterns (forked) with symbolic values through every operation.', 'dense matrix built entry by entry', 'CreateRandomMatrix, text files')
d('P18', 'Kernels on symbolic matrices placed in larger destinations, every unroll remainder.', 'triple loop; product with the inverse is the identity', 'the singular value path of the pseudo inverse')
d('P19', 'SchurEliminator (dynamic and specialised, one and two threads) on symbolic values.', 'F\'F - F\'E (E\'E + D)^-1 E\'F and the matching right hand side; back substitution solves the full normal equations')
d('P20', 'Implicit operator, views, power series and Schur Jacobi.', 'dense Schur complement of P19, truncated series')
d('P21', 'Gram matrices, random access matrices and block Jacobi.', 'dense J\'J and its diagonal blocks')
d('P22', 'The real TrustRegionMinimizer over a mock evaluator and strategy whose every answer is symbolic (`h/loop_common.h`).', 'an independent account of what the loop may do, checked call by call and on the summary')
d('P23', 'Real strategies with a mock linear solver, and an exact one for the full problem.', 'normal equations, path of the dogleg, radius formulas')
d('P24', 'Real line searches over a symbolic function along the line.', 'Armijo and strong Wolfe conditions re-evaluated on the returned sample; bracketing invariants')
d('P25', 'Polynomials with symbolic coefficients.', 'interpolation conditions; minimality against an arbitrary point of the interval', 'eigenvalue root finder (degree 3 and up)')
d('P26', 'Direction formulas over symbolic gradients.', 'documented formulas, dense BFGS update, descent')
d('P27', 'The real LineSearchMinimizer over mock evaluator and function.', 'as P22')
d('P28', 'TinySolver over functions with symbolic residuals.', 'as P22, with the damped normal equations of each step')
d('P29', 'All options symbolic (bit-precise doubles), IsValid executed.', 'the documented constraints written out in the harness')
d('P30', 'Solver::Solve end to end (preprocessing, evaluator, linear solver, minimizer, post processing).', 'cost recomputed from user memory; comparison of snapshots; agreement of solvers')
d('P31', 'Loops, pools and queues under symbolic scheduling.', 'counts per index, thread id exclusion, happens-before race detection, deadlock detection; optimality of partitions by comparison with arbitrary cuts')
d('P32', 'Graph and ordering algorithms over every graph and grouping of the bound.', 'independence, maximality, greedy invariants, permutation checks')
d('P33', 'Clustering and preconditioners on symbolic weights and vectors.', 'reachability closure, greedy score, dense inverse of the kept blocks', 'CLUSTER_TRIDIAGONAL with more than 3 clusters')
d('P34', 'Every linear solver on systems with symbolic right hand sides, twice in a row.', 'normal equations of the regularised problem', 'entries of A are concrete (symbolic ones make factorisations nonlinear beyond reach); rounding')
d('P35', 'Covariance over mock Jacobians of triangular structure.', 'explicit inverse of J\'J and lifting by PlusJacobian')
d('P36', 'Coordinate descent alone and inside the loop of P22 and inside Solve.', 'block optimality, snapshots, mirror of groups')
d('P37', 'Preprocessors run on a small program with every solver kind, ordering and set of held blocks; option values are symbolic and followed to where they end up (linear solver options, evaluator options, strategy, minimizer options); Solve itself runs concretely over every configuration so that an internal CHECK or a null dereference on accepted options is a counterexample; DetectStructure on symbolic block sizes.', 'documented tables of replacements, mirror of groups, the caller\'s options')
d('P38', 'The C interface over recording callbacks with symbolic coefficients and parameters; solving runs concretely.', 'C++ classes on the same input, recorded calls, allocation counts')
d('P39', 'All name tables executed on strings with symbolic bytes and on symbolic integers.', 'the list of enumerators written out in the harness')
NA = []
def entries(i):
    q = t = 0
    for l in open(f'{V}/h/{i}.cc'):
        if l.startswith('// @run'):
            if 'tier=thorough' in l: t += 1
            else: q += 1
    return q, t
def main():
    P = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
    o = ['\n## Properties\n', 'The harness is `h/<ID>.cc`; every `@run` entry is one symbolic execution. Costs are one quick run on 8 cores; the',
         'thorough tier runs the quick entries and the deeper ones.\n']
    for p in P:
        i = p['id']; how, orc, outs = (D.get(i) or ('', '', ''))
        b = ' '.join(l[len('// @bound '):].strip() for l in open(f'{V}/h/{i}.cc') if l.startswith('// @bound'))
        q, t = entries(i); c = ''
        try:
            e = json.load(open(f'{V}/evidence/{i}.json')); k = e['coverage']
            if e.get('tier') == 'quick': c = f"{e['wall_s']:.0f} s, {k['states']} paths, {k['obligations']} obligations, {k['solver_queries']} queries"
        except Exception: pass
        o.append(f"**{i} {p['title']}.** {how} *Oracle:* {orc}. *Bounds:* {b}. " + (f"*Outside:* {outs}. " if outs else '') + f"*Cost:* {q} entries" + (f" (+{t} thorough)" if t else '') + (f", {c}" if c else '') + '.\n')
    K = json.load(open(f'{V}/known_findings.json'))
    o += ['\n## Not applicable\n', 'None of the listed properties: each is decided with the solver. Outside this family\'s reach (and therefore not listed as properties) are statements about rounding error and convergence in the limit, and code that cannot be built here (CUDA, SuiteSparse, Accelerate, METIS).\n',
          '\n## Genuine defects found and repaired\n', 'Each is one `fix:` commit in /repo; the check fails on the parent of the commit.\n']
    o += ['- ' + x['what'][len('fixed: property='):] for x in K if x['status'] == 'fixed']
    o += ['\n## Known findings (not repaired)\n']
    seen = set()
    for x in K:
        if x['status'] == 'fixed' or (x['property'], x['what']) in seen: continue
        seen.add((x['property'], x['what'])); n = [y['entry'] for y in K if y.get('what') == x['what'] and y['status'] != 'fixed']
        o.append(f"- {x['property']} ({', '.join(n)}): {x['what']}.")
    o += ['\nThe repair of each changes documented or relied upon behaviour of the solver (a line search status, callback timing, a preconditioner), so they are recorded instead.\n',
          '\n## Planted bugs\n', '| seed | property | breaks | needs |', '|---|---|---|---|']
    for m in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
        x = json.load(open(m)); o.append(f"| {os.path.basename(os.path.dirname(m))} | {x['property']} | {x['what_it_breaks']} | {x['needs']} |")
    o += ['\nAll of them are caught by the check of their property.\n']
    p = f'{V}/DESIGN.md'; s = open(p).read(); mk = '<!-- generated by vp/design.py -->'; s = s.split(mk)[0].rstrip() + '\n\n' + mk + '\n'
    notes = f'{V}/vp/design_notes.md'
    open(p, 'w').write(s + '\n'.join(o) + '\n' + (open(notes).read() if os.path.exists(notes) else ''))
main()
