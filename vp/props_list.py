p('P01', 'Jet arithmetic computes exact derivatives',
  'Every operation and mathematical function on a dual number returns the value of the scalar function and, in its infinitesimal part, the chain rule applied with that function\'s derivative, wherever the function is differentiable. Comparisons and classification look only at what they are documented to look at, and mixed scalar operands behave like constants.',
  ['inputs'], 'all values and all infinitesimal parts, including signs, zeros and the branch points of piecewise functions', 'jet tests compare a handful of points with tolerances; the derivative identities must hold for every point and every dual part, and jet_test is not among the tests that build here',
  [I + 'jet.h', I + 'jet_fwd.h'], [('operators and cmath overloads on Jet', I + 'jet.h')])
p('P02', 'Automatic differentiation returns the residuals and exact Jacobians',
  'An automatically differentiated cost function returns what the user\'s functor computes, and each requested Jacobian block is the exact derivative in row-major layout, whichever blocks are requested, whatever the block and stride sizes, and nothing outside the requested storage is written. A functor that fails makes the evaluation fail.',
  ['inputs', 'configurations'], 'all coefficients and parameter values, every subset of null Jacobian blocks, sizes fixed and dynamic, strides, failing functors', 'tests try fixed functors at fixed points and do not enumerate subsets of null Jacobians together with strides',
  [I + 'autodiff_cost_function.h', I + 'internal/autodiff.h', I + 'dynamic_autodiff_cost_function.h', I + 'autodiff_first_order_function.h'], [('AutoDifferentiate / StaticParameterDims', I + 'internal/autodiff.h'), ('stride loop and start-derivative bookkeeping', I + 'dynamic_autodiff_cost_function.h')])
p('P03', 'Numeric differentiation is exact on its polynomial class and safe',
  'A numerically differentiated cost function returns the functor\'s residuals and the finite-difference Jacobian of its scheme, which is exact on affine (forward), quadratic (central) and extrapolated (Ridders) functions; each evaluation perturbs one coordinate by the documented step. The caller\'s parameters are not modified, unrequested blocks are not written, and any failure of the functor is reported.',
  ['inputs', 'fault_sequences'], 'all coefficients, parameters and step sizes, every null subset, every functor call being the one that fails', 'numeric diff tests sample points under tolerances and never fail the functor part way',
  [I + 'numeric_diff_cost_function.h', I + 'internal/numeric_diff.h', I + 'dynamic_numeric_diff_cost_function.h', I + 'numeric_diff_first_order_function.h'], [('NumericDiff::EvaluateJacobianForParameterBlock / EvaluateJacobianColumn', I + 'internal/numeric_diff.h')])
p('P04', 'Rotation conversions describe the same rotation',
  'Converting between angle-axis, quaternion (both coefficient orders), rotation matrix (either storage) and every Euler convention preserves the rotation, yields proper unit quaternions and orthonormal matrices, and converts back to the original within the canonical range. Derivatives stay finite and exact through the small-angle branches.',
  ['inputs', 'configurations'], 'all rotations, every branch of the trace-based conversion, every Euler system, jets at and near the identity', 'rotation tests sample random rotations; branch boundaries and the alternative coefficient order are hit by chance or not at all',
  [I + 'rotation.h', I + 'internal/euler_angles.h'], [('conversion templates', I + 'rotation.h'), ('EulerSystem trait encoding', I + 'internal/euler_angles.h')])
p('P06', 'Manifold Plus and Minus and their Jacobians are consistent',
  'For every manifold, adding zero returns the point, the difference of a point with itself is zero, the result stays on the manifold, and Minus inverts Plus. PlusJacobian and MinusJacobian are the derivatives at the point, are inverse to each other on the tangent space, and products of manifolds act blockwise and report failures of their parts.',
  ['inputs', 'configurations'], 'all points and tangent vectors, every constancy mask, sphere and line dimensions fixed and dynamic, every failing part of a product', 'manifold tests draw random points; poles, near-pole points, all masks and partial failures are not covered',
  [I + 'manifold.h', C + 'manifold.cc', I + 'sphere_manifold.h', I + 'line_manifold.h', I + 'product_manifold.h', I + 'autodiff_manifold.h', I + 'internal/householder_vector.h', I + 'internal/sphere_manifold_functions.h'], [('Plus/Minus/PlusJacobian/MinusJacobian overrides', C + 'manifold.cc')])
p('P05', 'Applying rotations is a linear isometry and agrees across representations',
  'Rotating a point by an angle-axis, a unit or a general quaternion gives the image under the same rotation matrix, preserves lengths and composes as quaternion products do. Cross and dot products are the usual ones, results may alias their inputs, and the derivatives are exact through the small-angle branch.',
  ['inputs'], 'all rotations and all points, near-zero angles, aliased arguments', 'rotation tests sample random rotations and points; small-angle branches and aliasing are sampled or absent',
  [I + 'rotation.h'], [('point rotation templates', I + 'rotation.h')])
p('P07', 'Loss functions obey the loss contract',
  'For every loss and every nonnegative squared residual: the loss is 0 at 0, its slope there is 1, the returned first and second derivatives are those of the returned value, it is nondecreasing and, where documented, bounded by the squared residual with slope at most 1. Composition, scaling and wrapping compute the composed function and own what they were given.',
  ['inputs', 'configurations'], 'all s >= 0, all scale parameters in range, all ownership settings', 'loss tests evaluate a few values of s with finite differences',
  [I + 'loss_function.h', C + 'loss_function.cc'], [('Evaluate overrides', C + 'loss_function.cc')])
p('P08', 'The robustifying corrector reproduces the robust gradient and curvature',
  'For every loss slope and curvature, the corrected residuals and Jacobian give the gradient of the robust cost, and the corrected Gauss-Newton matrix is the documented second-order approximation where that is positive; otherwise first-order correction is used. Correction never divides by zero or takes the root of a negative number, including at zero residual.',
  ['inputs'], 'all residuals, Jacobians, slopes and curvatures, including zero squared norm and negative curvature on both sides of the threshold', 'corrector tests use fixed slopes and random Jacobians',
  [C + 'corrector.h', C + 'corrector.cc'], [('Corrector constructor, CorrectResiduals, CorrectJacobian', C + 'corrector.cc')])
p('P09', 'Cost functions that wrap other cost functions apply the chain rule',
  'Functors made from cost functions propagate value, derivative and failure of the wrapped function; conditioned cost functions compose each residual with its conditioner and scale its Jacobian rows; a normal prior evaluates A(x-b). Only requested Jacobian blocks are written, and owned functions are deleted exactly once.',
  ['inputs', 'configurations', 'fault_sequences'], 'all residuals and Jacobians of the wrapped function, all dual inputs, all null and sharing patterns, failures of any part', 'tests compare fixed functors to automatic differentiation and never fail or share the wrapped function',
  [I + 'cost_function_to_functor.h', I + 'dynamic_cost_function_to_functor.h', I + 'conditioned_cost_function.h', C + 'conditioned_cost_function.cc', I + 'normal_prior.h', C + 'normal_prior.cc'], [('EvaluateWithJets', I + 'dynamic_cost_function_to_functor.h'), ('ConditionedCostFunction::Evaluate', C + 'conditioned_cost_function.cc')])
p('P10', 'Cubic interpolation interpolates its grid with exact derivatives',
  'Cubic and bicubic interpolation pass through the grid values, reproduce the cubic convolution spline between them, are continuously differentiable across cells, reproduce polynomials up to degree two, and return the exact derivative of the value they return. Queries outside the grid read the nearest edge value and never outside the array.',
  ['inputs', 'configurations'], 'all grid values and query points, inside and outside, each storage order and data dimension', 'tests interpolate fixed polynomials at fixed points',
  [I + 'cubic_interpolation.h'], [('CubicHermiteSpline, Grid1D/Grid2D::GetValue, BiCubicInterpolator::Evaluate', I + 'cubic_interpolation.h')])
p('P11', 'Problem bookkeeping survives any history of additions and removals',
  'After any sequence of adding, replacing and removing blocks, functions and manifolds, every query about the problem reports exactly what is in it, indices match positions, and fast removal changes nothing but speed. Owned objects are deleted exactly once and never while in use; borrowed ones never. Overlapping, duplicate, mismatched or unknown blocks are refused.',
  ['histories', 'configurations'], 'all short histories of operations, all block sizes and residual counts, all placements of blocks in memory, both ownerships and removal modes', 'problem tests replay a few fixed scripts; index and ownership errors need particular removal orders and sharing',
  [I + 'problem.h', C + 'problem.cc', C + 'problem_impl.cc', C + 'parameter_block.h', C + 'residual_block.h'], [('AddResidualBlock, RemoveParameterBlock, DeleteBlockInVector, reference counts', C + 'problem_impl.cc')])
p('P12', 'Bounds, constancy and manifolds of parameter blocks are honoured',
  'A step on a parameter block lands in its box: the manifold\'s result projected coordinate by coordinate, equal to it wherever it is inside. Feasibility, finiteness and bound predicates say exactly what the bounds and values imply; constant blocks ignore state changes; state vectors, offsets and user memory stay consistent; manifold failures are reported. The reduced program keeps, in order, exactly the free parameter blocks in use and the residual blocks that depend on one of them; the cost of the others is its fixed cost.',
  ['inputs', 'configurations', 'histories'], 'all values, steps, bounds and manifold Jacobians; every pattern of present bounds and constancy; all bit patterns for finiteness', 'tests set a few bounds with fixed values',
  [C + 'parameter_block.h', C + 'program.cc', C + 'problem_impl.cc', C + 'array_utils.cc'], [('ParameterBlock::Plus / SetState / bounds', C + 'parameter_block.h'), ('IsFeasible, IsBoundsConstrained, ParameterBlocksAreFinite', C + 'program.cc')])
p('P13', 'Problem::Evaluate reports the exact cost, residuals, gradient and Jacobian',
  'Evaluating any subset and order of residual and parameter blocks yields the sum of robustified costs, the corrected residuals, the Jacobian on the tangent spaces of the free blocks in the requested order and the gradient equal to its transpose times the residuals, with one or many threads. The problem, its parameters and its constancy are left as they were, and failures are reported.',
  ['inputs', 'configurations', 'schedules', 'fault_sequences'], 'all residuals, Jacobians, losses and manifold Jacobians, all subsets and orders, all outputs, every thread schedule within the preemption bound, every failing block', 'tests evaluate fixed quadratics',
  [C + 'problem_impl.cc', C + 'program_evaluator.h', C + 'residual_block.cc', C + 'compressed_row_jacobian_writer.cc', C + 'scratch_evaluate_preparer.cc'], [('ProblemImpl::Evaluate / EvaluateResidualBlock', C + 'problem_impl.cc'), ('ResidualBlock::Evaluate', C + 'residual_block.cc')])
p('P14', 'Evaluators agree across Jacobian formats and thread counts',
  'For every linear solver type the evaluator built for it computes the same cost, residuals, gradient and Jacobian at the given state, with no trace of earlier evaluations, whatever blocks are constant, however many are to be eliminated, and however many threads run. Block sparse Jacobians keep eliminated blocks first and cells ordered.',
  ['inputs', 'configurations', 'schedules', 'histories'], 'all residuals, Jacobians, losses and states, every format and constancy, successive evaluations, every schedule within the preemption bound', 'evaluator tests check fixed integer Jacobians one evaluation at a time',
  [C + 'evaluator.cc', C + 'program_evaluator.h', C + 'block_jacobian_writer.cc', C + 'block_evaluate_preparer.cc', C + 'dense_jacobian_writer.h', C + 'dynamic_compressed_row_jacobian_writer.cc', C + 'dynamic_compressed_row_finalizer.h', C + 'dynamic_compressed_row_sparse_matrix.cc'], [('ProgramEvaluator::Evaluate', C + 'program_evaluator.h'), ('BuildJacobianLayout', C + 'block_jacobian_writer.cc')])
p('P15', 'Invalid evaluations are rejected and callbacks precede every evaluation',
  'If a cost function leaves a requested value unset or returns anything not finite, or a manifold Jacobian is not finite, the evaluation fails, and no evaluation succeeds with a cost that is not finite; ordinary values are always accepted. An evaluation callback runs exactly once before each evaluation, with user memory at that point and the right flags.',
  ['inputs', 'histories', 'configurations'], 'all 64-bit patterns in any residual or Jacobian position, every unset entry, every combination of outputs, sequences of evaluations', 'tests inject one NaN by hand and count callbacks in fixed scenarios',
  [C + 'residual_block.cc', C + 'residual_block_utils.cc', C + 'array_utils.cc', C + 'program_evaluator.h', C + 'problem_impl.cc', I + 'evaluation_callback.h'], [('IsEvaluationValid', C + 'residual_block_utils.cc'), ('PrepareForEvaluation calls', C + 'program_evaluator.h')])
p('P17', 'Sparse matrix representations act as the matrix they stand for',
  'Block sparse, row compressed (general and symmetric), triplet, dense and dynamic matrices compute the same products with a vector from either side, column norms, column scalings and conversions as the dense matrix with the same entries. Appending, deleting and transposing rows, and doing any of it with several threads, changes nothing else.',
  ['inputs', 'configurations', 'schedules'], 'all values, all block patterns within the size bound including empty rows and columns, all storage orders and placements of entries, every schedule within the preemption bound', 'tests use a few random matrices; empty blocks, split storage and rare block orders are hit by chance',
  [C + 'block_sparse_matrix.cc', C + 'compressed_row_sparse_matrix.cc', C + 'triplet_sparse_matrix.cc', C + 'dense_sparse_matrix.cc', C + 'dynamic_compressed_row_sparse_matrix.cc', C + 'block_structure.cc'], [('products and conversions', C + 'block_sparse_matrix.cc'), ('symmetric products and transposition', C + 'compressed_row_sparse_matrix.cc')])
p('P16', 'Gradient checking tells right Jacobians from wrong ones',
  'The gradient checker accepts a cost function exactly when every Jacobian entry, on the tangent space, is within the given relative precision of the numeric derivative and the residuals agree; it reports the worst error, both Jacobians and failures. A checking problem is the same problem and stops the solver on a wrong gradient. Gradient problems delegate value, tangent gradient and failure.',
  ['inputs', 'configurations', 'fault_sequences'], 'all slopes, all errors in any Jacobian entry, all precisions, every null pattern, every failing call', 'tests use a few random functions with one large planted error',
  [C + 'gradient_checker.cc', I + 'gradient_checker.h', C + 'gradient_checking_cost_function.cc', C + 'is_close.cc', C + 'gradient_problem.cc', C + 'gradient_problem_evaluator.h'], [('GradientChecker::Probe', C + 'gradient_checker.cc'), ('CreateGradientCheckingProblemImpl', C + 'gradient_checking_cost_function.cc')])
p('P18', 'Small dense kernels compute exactly the products they name',
  'The hand-unrolled matrix-matrix, transposed and matrix-vector kernels add, subtract or assign the exact product into the named block of the destination and touch nothing else, for every combination of fixed and dynamic sizes. Inverting a positive definite block gives its inverse.',
  ['inputs', 'configurations'], 'all matrix entries, all sizes modulo the unrolling, all operations and destination offsets', 'tests compare integer matrices for a subset of sizes',
  [C + 'small_blas.h', C + 'small_blas_generic.h', C + 'invert_psd_matrix.h'], [('remainder and unrolled loops', C + 'small_blas.h'), ('MMM_mat1x4, MTM_mat1x4, MVM_mat4x1, MTV_mat4x1', C + 'small_blas_generic.h')])
p('P19', 'Schur elimination yields the exact reduced system',
  'For every bipartite least squares system, eliminating the chosen blocks gives exactly the reduced matrix and right hand side, for every instantiation of the eliminator, with or without a diagonal term, and substituting back gives the eliminated variables that solve the normal equations. Threads and the left hand side representation change nothing.',
  ['inputs', 'configurations', 'schedules'], 'all matrix entries, right hand sides and diagonals, every pattern of blocks within the size bound, fixed and dynamic block sizes, every schedule within the preemption bound', 'tests compare random problems to a dense elimination under tolerances',
  [C + 'schur_eliminator.h', C + 'schur_eliminator.cc', C + 'schur_eliminator_impl.h', C + 'schur_templates.cc'], [('Init, Eliminate, BackSubstitute', C + 'schur_eliminator_impl.h'), ('SchurEliminatorForOneFBlock', C + 'schur_eliminator.h')])
p('P20', 'The implicit Schur complement acts as the explicit one',
  'Products with the two halves of a partitioned matrix, its block diagonal Gram matrices, the implicit Schur complement operator, its right hand side and its back substitution all equal those of the explicit matrices, for every pattern and with any number of threads. The Schur preconditioners apply the inverse diagonal blocks or the truncated power series they are named for.',
  ['inputs', 'configurations', 'schedules'], 'all matrix entries, vectors and diagonals, every pattern of blocks within the size bound, every schedule within the preemption bound', 'tests compare to dense computations on two fixed problems',
  [C + 'implicit_schur_complement.cc', C + 'partitioned_matrix_view_impl.h', C + 'partitioned_matrix_view.cc', C + 'power_series_expansion_preconditioner.cc', C + 'schur_jacobi_preconditioner.cc', C + 'block_random_access_diagonal_matrix.cc'], [('ImplicitSchurComplement products', C + 'implicit_schur_complement.cc'), ('LeftMultiplyAndAccumulateF and friends', C + 'partitioned_matrix_view_impl.h')])
p('P21', 'Gram matrices and block Jacobi preconditioners are exact',
  'The sparse inner product of a block matrix has exactly the structural nonzeros of one triangle of J\'J, in order, with the right values, for any range of rows and again after the values change. Random access matrices give every present block storage of its own and report the others absent. Block Jacobi preconditioners apply the inverse of the diagonal blocks of J\'J + D^2, with any number of threads.',
  ['inputs', 'configurations', 'schedules'], 'all matrix entries and diagonals, every pattern of blocks within the size bound, every schedule within the preemption bound', 'tests compare random matrices to dense products',
  [C + 'inner_product_computer.cc', C + 'block_random_access_dense_matrix.cc', C + 'block_random_access_sparse_matrix.cc', C + 'block_random_access_diagonal_matrix.cc', C + 'block_jacobi_preconditioner.cc', C + 'preconditioner.cc'], [('InnerProductComputer::Compute and Create', C + 'inner_product_computer.cc'), ('UpdateImpl', C + 'block_jacobi_preconditioner.cc')])
p('P22', 'The trust region loop accepts, reports and returns the right iterates',
  'A step is taken only if it evaluates and its quality exceeds the threshold (against the current cost, or the reference cost of the non-monotonic algorithm); otherwise the point stays and the strategy is told. Failed evaluations of a candidate are rejections, failures of the linear solver are retried up to the limit, and failures at an accepted point end the solve. The user gets the accepted point of least cost, one record and one callback per iteration that match what happened, and a termination reason that truly holds; the solve never continues past a limit or tolerance.',
  ['inputs', 'fault schedules', 'histories'], 'all costs, residuals, gradients, Jacobians, steps, radii, tolerances and clock readings, every failing call and every callback answer within the iteration bound', 'tests run fixed functions to convergence',
  [C + 'trust_region_minimizer.cc', C + 'trust_region_minimizer.h', C + 'trust_region_step_evaluator.cc', C + 'minimizer.cc'], [('Minimize and its steps', C + 'trust_region_minimizer.cc'), ('StepQuality, StepAccepted', C + 'trust_region_step_evaluator.cc'), ('RunCallbacks', C + 'minimizer.cc')])
p('P23', 'Trust region strategies compute the promised steps and radii',
  'The Levenberg-Marquardt step is the linear solver\'s answer to the system damped with the clamped Jacobian diagonal over the radius; garbage or failed answers are reported as failures. The dogleg step is the Gauss-Newton step inside the region and otherwise lies on its boundary on the dogleg path. Accepted, rejected and invalid steps change radius and regularization by the documented rules, never beyond the maximum radius.',
  ['inputs', 'fault schedules', 'histories'], 'all residuals, solver answers, radii, qualities and failures within the history bound; the subspace dogleg model outside the region is not encoded', 'tests check single steps of fixed problems',
  [C + 'levenberg_marquardt_strategy.cc', C + 'dogleg_strategy.cc', C + 'trust_region_strategy.cc'], [('ComputeStep, StepAccepted, StepRejected', C + 'levenberg_marquardt_strategy.cc'), ('ComputeTraditionalDoglegStep, ComputeGaussNewtonStep', C + 'dogleg_strategy.cc')])
p('P24', 'Line searches return only steps that satisfy their conditions',
  'A successful line search returns one of the points it evaluated, on the ray from the position along the direction, with its true cost and gradient. Armijo stops at the first trial with sufficient decrease and contracts within the configured factors; Wolfe brackets and zooms so that the result satisfies the strong Wolfe conditions, or is the lowest acceptable trial when it hits a limit. Trials that cannot be evaluated, or have non-finite costs or gradients, are never returned and never abort; iteration, evaluation and step size limits hold.',
  ['inputs', 'fault schedules', 'histories'], 'all costs, slopes and directions of trials, every pattern of failing and non-finite evaluations, within the iteration bound', 'tests run whole solves of fixed functions',
  [C + 'line_search.cc', C + 'line_search.h', C + 'function_sample.cc'], [('ArmijoLineSearch, BracketingPhase, ZoomPhase', C + 'line_search.cc')])
p('P25', 'Line search polynomials are interpolated and minimised exactly',
  'The interpolating polynomial takes every valid sampled value and slope; the minimiser over an interval lies in it, has the value reported, and no point of the interval has a lower one. Roots of linear and quadratic polynomials, with leading zeros, double and complex roots, are the roots; constants have none.',
  ['inputs'], 'all coefficients and samples up to degree three, every point of the interval; roots of degree three and above come from a numeric eigenvalue iteration and are not encoded', 'tests use a dozen fixed polynomials',
  [C + 'polynomial.cc', C + 'polynomial.h'], [('FindQuadraticPolynomialRoots, MinimizePolynomial, FindInterpolatingPolynomial', C + 'polynomial.cc')])
p('P26', 'Search directions follow their formulas and descend',
  'Steepest descent and each conjugate gradient formula give their textbook direction and restart when it does not descend enough. L-BFGS and BFGS use exactly the update pairs with positive curvature, L-BFGS the most recent ones up to its rank; the resulting inverse Hessian satisfies the secant equation, is symmetric and positive definite, and equals the BFGS recursion. A direction is reported valid exactly when it descends.',
  ['inputs', 'histories'], 'all gradients and query vectors, every history of used and skipped updates within the bound, all ranks', 'tests compare one fixed history',
  [C + 'line_search_direction.cc', C + 'low_rank_inverse_hessian.cc'], [('NextDirection of each kind', C + 'line_search_direction.cc'), ('Update, RightMultiplyAndAccumulate', C + 'low_rank_inverse_hessian.cc')])
p('P27', 'The line search minimizer reports and returns the right iterates',
  'Each iteration searches along the direction from the current point with the documented first step, moves only to a point the line search returned, and never increases the cost. The user gets the last accepted point, one record and callback per iteration that match what happened, the cost including the fixed cost, and a termination reason that truly holds: failures of evaluator or Plus end in failure with the point untouched, tolerances, budgets and callbacks stop it exactly when they apply.',
  ['inputs', 'fault schedules', 'histories'], 'all starts, costs, tolerances and clock readings, every failing call and every callback answer within the iteration bound', 'tests run fixed functions to convergence',
  [C + 'line_search_minimizer.cc', C + 'minimizer.cc'], [('Minimize, EvaluateGradientNorms', C + 'line_search_minimizer.cc')])
p('P28', 'TinySolver takes damped steps and reports what it did',
  'Every trial of TinySolver is the Levenberg-Marquardt step for the scaled normal equations at the current point; it moves only to points of lower cost, shrinks the region after rejections and adapts it after acceptances as documented. Final point, costs, residuals, Jacobian, gradient norm, iteration count and status describe the last accepted point, and each tolerance stops it exactly when its documented condition holds. The autodiff and cost function adapters hand over exact residuals, column-major Jacobians and failures for all size kinds.',
  ['inputs', 'configurations', 'histories'], 'all starts, residuals and tolerances, every pattern of accepted and rejected trials within the bound, all static and dynamic size combinations', 'tests solve two fixed problems',
  [I + 'tiny_solver.h', I + 'tiny_solver_autodiff_function.h', I + 'tiny_solver_cost_function_adapter.h'], [('Solve, Update', I + 'tiny_solver.h'), ('operator()', I + 'tiny_solver_autodiff_function.h')])
p('P29', 'Options are accepted exactly when they meet their constraints',
  'Solver::Options::IsValid and GradientProblemSolver::Options::IsValid accept an options object exactly when every documented bound, ordering between options and compatibility of minimizer, linear solver, preconditioner, strategy and available libraries holds; NaN never passes; rejections carry a reason. Options of the other minimizer do not matter. The options reach the minimizer unchanged.',
  ['inputs', 'configurations'], 'all values of every validated field including NaN and infinities, every combination of enumerated options within a group', 'tests try a few values of some options',
  [C + 'solver.cc', C + 'gradient_problem_solver.cc', C + 'minimizer.h', C + 'types.cc', C + 'linear_solver.cc'], [('CommonOptionsAreValid, TrustRegionOptionsAreValid, LineSearchOptionsAreValid and the linear solver checks', C + 'solver.cc'), ('GradientProblemSolverOptionsToSolverOptions', C + 'gradient_problem_solver.cc'), ('Minimizer::Options::Init', C + 'minimizer.h')])
p('P30', 'Solve leaves consistent parameters, problem and summary',
  'However Solve ends, the problem is as before and can be used again. If the solution is usable, the parameters hold a point whose cost is the reported final cost, which is not above the initial cost; otherwise, and when the solve is refused, they hold the start. Constant blocks and coordinates never change and their share of the cost is counted. User memory follows the iterates exactly when asked to, and always before evaluation callbacks. Exact linear solvers take the same step.',
  ['inputs', 'fault schedules', 'configurations'], 'all values of the symbolic offsets, every failing evaluation, callback answer, constancy pattern, solver and elimination order within the bounds', 'tests inspect a few solves of fixed problems',
  [C + 'solver.cc', C + 'preprocessor.cc', C + 'trust_region_preprocessor.cc', C + 'line_search_preprocessor.cc', C + 'program.cc', C + 'callbacks.cc', C + 'gradient_problem_solver.cc', C + 'reorder_program.cc', C + 'solver_utils.h'], [('Solver::Solve, Minimize', C + 'solver.cc'), ('TrustRegionPreprocessor::Preprocess', C + 'trust_region_preprocessor.cc'), ('StateUpdatingCallback', C + 'callbacks.cc'), ('GradientProblemSolver::Solve', C + 'gradient_problem_solver.cc')])
p('P31', 'Parallel loops run every index once under every schedule',
  'ParallelFor calls its body exactly once for every index, on a thread id that is in range and used by one thread at a time, whatever the number of threads, pool workers, block size or partition, nested or repeated, and returns only when all work is done and visible, without deadlock or data race. Partitions by cost are optimal. Thread pools run every task before they go, queues are FIFO, wake and release every waiter, tokens are exclusive. Vector operations do not depend on threads.',
  ['schedules', 'inputs', 'configurations'], 'every interleaving within the preemption bound, every range, offset, cost vector and pool size within the bounds', 'tests run a handful of schedules the machine happens to produce',
  [C + 'parallel_for.h', C + 'parallel_invoke.h', C + 'parallel_invoke.cc', C + 'partition_range_for_parallel_for.h', C + 'thread_pool.cc', C + 'concurrent_queue.h', C + 'thread_token_provider.cc', C + 'scoped_thread_token.h', C + 'parallel_vector_ops.cc', C + 'eigen_vector_ops.h', C + 'parallel_utils.cc'], [('ParallelFor', C + 'parallel_for.h'), ('ParallelInvoke', C + 'parallel_invoke.h'), ('PartitionRangeForParallelFor', C + 'partition_range_for_parallel_for.h'), ('ThreadMainLoop', C + 'thread_pool.cc'), ('Push, Pop, Wait', C + 'concurrent_queue.h')])
p('P32', 'Orderings and reorderings are valid and lose nothing',
  'OrderedGroups keeps each element in one group, no empty groups, and reverses exactly. Independent set orderings are permutations whose prefix is independent and maximal, by degree, ties as documented; spanning forests are greedy, acyclic and of degree two. Reordering a program keeps every block once with matching indices and offsets, puts a valid first elimination group first and orders residual blocks by it; invalid user orderings are refused and change nothing.',
  ['inputs', 'histories', 'configurations'], 'all group ids and edge weights, every graph, problem structure and group assignment within the bound, every history of group operations', 'tests check a few graphs and one ordering each',
  [I + 'ordered_groups.h', C + 'graph.h', C + 'graph_algorithms.h', C + 'parameter_block_ordering.cc', C + 'reorder_program.cc'], [('OrderedGroups', I + 'ordered_groups.h'), ('IndependentSetOrdering, Degree2MaximumSpanningForest', C + 'graph_algorithms.h'), ('ReorderProgramForSchurTypeLinearSolver, ApplyOrdering, LexicographicallyOrderResidualBlocks', C + 'reorder_program.cc')])
p('P33', 'Visibility clustering and its preconditioners are exact',
  'Visibility sets and camera similarities are those of the observations. Single linkage puts views in one cluster exactly when they are linked by similarities above the threshold; canonical views adds greedily the view that helps most, stops exactly when nothing helps and enough are chosen, never picks views of invalid weight and assigns every view to its most similar centre. Cluster preconditioners apply the inverse of exactly the chosen blocks of the Schur complement and are positive definite.',
  ['inputs', 'configurations'], 'all similarities, weights and thresholds, every pattern of observations within the bound', 'tests use two fixed scenes',
  [C + 'single_linkage_clustering.cc', C + 'canonical_views_clustering.cc', C + 'visibility.cc', C + 'visibility_based_preconditioner.cc'], [('ComputeSingleLinkageClustering', C + 'single_linkage_clustering.cc'), ('ComputeClustering', C + 'canonical_views_clustering.cc'), ('ComputeVisibility, CreateSchurComplementGraph', C + 'visibility.cc'), ('UpdateImpl, ComputeBlockPairsInPreconditioner, ClusterCameras', C + 'visibility_based_preconditioner.cc')])
p('P34', 'Linear solvers return the regularized least squares solution',
  'Every linear solver (dense QR and Cholesky, static and dynamic sparse Cholesky, dense, sparse, explicit and implicit iterative Schur, conjugate gradients on the normal equations) with each ordering, refinement, precision and preconditioner returns the minimizer of |Ax-b|^2+|Dx|^2, on every solve in a row, and leaves A, b and D as they were. Cholesky solvers fail exactly on singular systems and recover. Iterative solvers keep their limits, claim success only when a tolerance holds, and always return fitting eliminated unknowns.',
  ['inputs', 'configurations', 'histories'], 'all right hand sides of the encoded systems, every sparsity pattern, solver, preconditioner and option within the bounds', 'tests solve a few fixed systems per solver',
  [C + f for f in ['linear_solver.cc', 'dense_qr_solver.cc', 'dense_qr.cc', 'dense_normal_cholesky_solver.cc', 'dense_cholesky.cc', 'sparse_normal_cholesky_solver.cc', 'dynamic_sparse_normal_cholesky_solver.cc', 'sparse_cholesky.cc', 'eigensparse.cc', 'iterative_refiner.cc', 'schur_complement_solver.cc', 'iterative_schur_complement_solver.cc', 'conjugate_gradients_solver.h', 'cgnr_solver.cc']], [('SolveImpl', C + 'schur_complement_solver.cc'), ('ConjugateGradientsSolver', C + 'conjugate_gradients_solver.h'), ('Refine', C + 'iterative_refiner.cc'), ('SolveImpl', C + 'cgnr_solver.cc')])
p('P35', 'Covariance blocks are those of the inverse of J\'J',
  'Covariance::Compute yields, for exactly the requested blocks and their transposes, the blocks of the inverse of J\'J over the free, used parameter blocks (of its documented pseudo inverse with DENSE_SVD), in the tangent space or lifted to the ambient one; constant and unused blocks have zero covariance. Rank deficiency, failed evaluations, failed manifolds, missing libraries and blocks not computed are reported, misuse is refused, nothing else is written, and threads, orders and earlier computations change nothing.',
  ['inputs', 'configurations', 'histories', 'schedules'], 'all Jacobian values of the encoded structures, every set of requested blocks, manifold and constancy pattern, order and truncation within the bounds', 'tests compare one fixed problem to tabulated numbers',
  [C + 'covariance.cc', C + 'covariance_impl.cc', C + 'compressed_col_sparse_matrix_utils.h', C + 'compressed_col_sparse_matrix_utils.cc'], [('ComputeCovarianceSparsity, ComputeCovarianceValuesUsingEigenSparseQR, ComputeCovarianceValuesUsingDenseSVD, GetCovarianceBlockInTangentOrAmbientSpace', C + 'covariance_impl.cc'), ('SolveRTRWithSparseRHS', C + 'compressed_col_sparse_matrix_utils.h')])
p('P36', 'Inner iterations minimize independent blocks without harm',
  'Inner iterations minimize the cost over each block of the ordering in the order of the groups, the other blocks held at their latest values, change nothing else and leave the program and the user memory as before, in parallel without races. Groups must be independent; automatic orderings are and contain every variable block. A trust region step takes the improved point and its cost, counts the improvement as predicted, accepts what improves on both points, ignores results that cannot be evaluated and stops inner iterations at the tolerance. Orderings of the caller are not modified.',
  ['inputs', 'fault schedules', 'interleavings', 'configurations'], 'all offsets, costs and residuals, all failures and groupings, every schedule within the preemption bound', 'tests run a few fixed problems and do not look at the loop',
  [C + 'coordinate_descent_minimizer.cc', C + 'trust_region_minimizer.cc', C + 'trust_region_preprocessor.cc', C + 'parameter_block_ordering.cc', C + 'program.cc', C + 'solver.cc'], [('CoordinateDescentMinimizer::Minimize', C + 'coordinate_descent_minimizer.cc'), ('TrustRegionMinimizer::DoInnerIterationsIfNeeded', C + 'trust_region_minimizer.cc'), ('SetupInnerIterationMinimizer', C + 'trust_region_preprocessor.cc'), ('ComputeRecursiveIndependentSetOrdering', C + 'parameter_block_ordering.cc')])
p('P37', 'Preprocessing sets up exactly the solver that was asked for',
  'Solve never aborts on accepted options and any set of held blocks. The linear solver, preconditioner, evaluator, trust region strategy and minimizer get what the options say: their types (documented replacements only when the first elimination group vanishes), limits, tolerances, radii, diagonal bounds, elimination groups, subset of residual blocks, callbacks and starting point; static block sizes are used only where every row has them. Orderings that do not fit the problem are refused with a message when used, ignored otherwise, and the caller\'s options are left alone.',
  ['inputs', 'configurations'], 'all option values carried through, every solver and preconditioner, ordering, set of held blocks and misfit within the bounds, all block sizes', 'tests set up a few programs with fixed options and do not build here; combinations of vanishing groups and preconditioners are not tried',
  [C + 'trust_region_preprocessor.cc', C + 'line_search_preprocessor.cc', C + 'preprocessor.cc', C + 'detect_structure.cc', C + 'linear_solver.cc', C + 'preconditioner.cc', C + 'solver.cc', C + 'reorder_program.cc', C + 'coordinate_descent_minimizer.cc', C + 'minimizer.h'], [('AlternateLinearSolverAndPreconditionerForSchurTypeLinearSolver, SetupLinearSolver, SetupMinimizerOptions', C + 'trust_region_preprocessor.cc'), ('DetectStructure', C + 'detect_structure.cc'), ('SetupCommonMinimizerOptions', C + 'preprocessor.cc'), ('AlternateLinearSolverForSchurTypeLinearSolver', C + 'linear_solver.cc')])
p('P38', 'The C interface behaves as the C++ interface it wraps',
  'A residual block added through the C interface calls its cost callback with its own user data, the parameter blocks in order and the buffers of the caller (null where no Jacobian is wanted), takes its answer as success or failure, and robustifies with its loss callback, or with none. Stock losses have the value and derivatives of the class they name. Solving moves the caller\'s memory to the minimizer, leaves it when a callback fails, and user data and arrays stay the caller\'s; freeing a problem frees exactly what it made.',
  ['inputs', 'configurations', 'fault_sequences'], 'all parameters, residual coefficients, squared norms and scales, every null pattern, layout of blocks and answer of a callback within the bounds', 'the C test runs one curve fit and does not build here',
  [C + 'c_api.cc', I + 'c_api.h'], [('CallbackCostFunction, CallbackLossFunction, ceres_problem_add_residual_block, ceres_solve, ceres_create_*_loss_function_data', C + 'c_api.cc')])
p('P39', 'Names of options and enumerators round-trip',
  'Every enumerator of the option and result types has its own name; reading that name back, in any mixture of letter cases, yields the same enumerator. Strings that are not names are refused and leave the argument as it was, and integers that are no enumerator are UNKNOWN. Schur type and availability queries agree with the enumerators and the build.',
  ['inputs'], 'every family of names and every member, all mixtures of cases, every byte at every position, one character more or less, all integers in range', 'no test covers the names beyond a few linear solver types',
  [C + 'types.cc', I + 'types.h'], [('XxxTypeToString and StringToXxxType', C + 'types.cc'), ('IsSchurType, IsSparseLinearAlgebraLibraryTypeAvailable', C + 'types.cc')])
p('P40', 'Gradient problems reach the minimizer intact and its outcome the user',
  'GradientProblemSolver::Solve runs one line search minimizer with every option exactly as given and an evaluator that is the problem: cost, gradient in the tangent space of the manifold, Plus, sizes and failures. Callbacks run in order and see the current parameters when asked to, the old ones otherwise. However the minimizer ends, its termination, records and costs are reported, the parameters hold the result exactly when it is usable, evaluations are counted, and refused options run nothing.',
  ['inputs', 'configurations', 'histories'], 'all values of every option, function value, gradient, manifold matrix and iterate, every pattern of accepted steps, failures and endings within the bound', 'tests solve one or two fixed functions with default options',
  [C + 'gradient_problem_solver.cc', C + 'gradient_problem.cc', C + 'gradient_problem_evaluator.h', C + 'callbacks.cc', I + 'gradient_problem.h', I + 'gradient_problem_solver.h'], [('Solve, GradientProblemSolverOptionsToSolverOptions', C + 'gradient_problem_solver.cc'), ('Evaluate, Plus', C + 'gradient_problem.cc'), ('GradientProblemEvaluator', C + 'gradient_problem_evaluator.h'), ('GradientProblemSolverStateUpdatingCallback', C + 'callbacks.cc')])
