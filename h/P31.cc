// Parallel loops, thread pool and queues: everything runs once, under every schedule.
#include "vp.h"
#include <atomic>
#include <functional>
#include <mutex>
#include <thread>
#include <tuple>
#include <vector>
#include "ceres/concurrent_queue.h"
#include "ceres/context_impl.h"
#include "ceres/eigen_vector_ops.h"
#include "ceres/parallel_for.h"
#include "ceres/parallel_utils.h"
#include "ceres/parallel_vector_ops.h"
#include "ceres/partition_range_for_parallel_for.h"
#include "ceres/scoped_thread_token.h"
#include "ceres/thread_pool.h"
#include "ceres/thread_token_provider.h"
// @bound loops of up to 6 indices at an arbitrary offset, or ranges of arbitrary length; up to 3 threads with pools of 0 to 3 workers; every schedule of at most 2 preemptions (3 in the thorough tier), with spurious wakeups where stated; partitions of up to 5 items with arbitrary costs up to 6; queues with up to 4 operations in up to 3 threads
using namespace ceres::internal; using ceres::Vector;
struct Seen { int start, n, threads, body[3] = {0, 0, 0}; std::vector<int> count; std::mutex m; Seen(int s, int n, int t) : start(s), n(n), threads(t), count(n, 0) {}
  void enter(int t) { if (t < 0 || t >= threads) { vp_check(0, "thread id in range"); return; } std::lock_guard<std::mutex> l(m); vp_check(body[t] == 0, "a thread id is used by one thread at a time"); body[t] = 1; } void leave(int t) { std::lock_guard<std::mutex> l(m); body[t] = 0; }
  void hit(int i) { vp_check(i >= start && i < start + n, "index in range"); for (int k = 0; k < n; ++k) if (i == start + k) { std::lock_guard<std::mutex> l(m); count[k]++; } }
  void done() { for (int k = 0; k < n; ++k) vp_check(count[k] == 1, "every index exactly once"); } };
static int offset() { return vp_int("start", -1000000, 1000000); }
static void loop(int n, int threads, int workers, int minb, int kind) { ContextImpl ctx; if (workers) ctx.EnsureMinimumThreads(workers); int s = offset(); Seen S(s, n, threads); std::vector<int> plain(n > 0 ? n : 1, 0);
  if (kind == 0) ParallelFor(&ctx, s, s + n, threads, [&](int i) { S.hit(i); for (int k = 0; k < n; ++k) if (i == s + k) plain[k] += 1; }, minb);
  if (kind == 1) ParallelFor(&ctx, s, s + n, threads, [&](int t, int i) { S.enter(t); S.hit(i); S.leave(t); }, minb);
  if (kind == 2) ParallelFor(&ctx, s, s + n, threads, [&](int t, std::tuple<int, int> r) { S.enter(t); auto [a, b] = r; vp_check(a < b, "no empty range"); vp_check(b - a >= minb || n < minb, "ranges have the minimal size"); for (int i = a; i != b; ++i) S.hit(i); S.leave(t); }, minb);
  if (kind == 3) ParallelFor(&ctx, s, s + n, threads, [&](std::tuple<int, int> r) { auto [a, b] = r; for (int i = a; i != b; ++i) S.hit(i); }, minb);
  S.done(); if (kind == 0) for (int k = 0; k < n; ++k) vp_check(plain[k] == 1, "results are visible afterwards"); }
// @run shapes jobs=8
extern "C" void shapes() { vp_opt("preempt", 0); vp_opt("race", 1); loop(vp_choose("n", 6), 1 + vp_choose("threads", 3), vp_choose("workers", 3), 1 + vp_choose("min", 3), vp_choose("kind", 4)); }
// @run two jobs=8
extern "C" void two() { vp_opt("preempt", 1); vp_opt("race", 1); loop(2 + vp_choose("n", 3), 2, 1 + vp_choose("workers", 2), 1, vp_choose("kind", 2)); }
// @run three jobs=8 time=100
extern "C" void three() { vp_opt("preempt", 1); vp_opt("race", 1); loop(3, 3, 2, 1, 1); }
// @run spurious jobs=8
extern "C" void spurious() { vp_opt("preempt", 1); vp_opt("spurious", 1); loop(2, 2, 1, 1, 1); }
// @run deep jobs=8 tier=thorough time=900 max-paths=2000000
extern "C" void deep() { vp_opt("preempt", 2); vp_opt("race", 1); loop(2, 2, 1 + vp_choose("workers", 2), 1, 1); }
// @run deep3 jobs=8 tier=thorough time=900 max-paths=2000000
extern "C" void deep3() { vp_opt("preempt", 2); vp_opt("race", 1); loop(3, 3, 2, 1, 1); }
// @run ranges jobs=8
extern "C" void ranges() { vp_opt("preempt", 0); ContextImpl ctx; int s = vp_int("start", -1000000000, 1000000000), n = vp_int("n", 0, 1000000000), minb, threads = 1 + vp_choose("threads", 3); static const int M[] = {1, 3, 1000, 1 << 16}; minb = M[vp_choose("min", 4)]; int next = s, calls = 0; ParallelFor(&ctx, s, s + n, threads, [&](std::tuple<int, int> r) { auto [a, b] = r; vp_check(a == next, "ranges are adjacent"); vp_check(b > a, "no empty range"); vp_check(n < minb || b - a >= minb, "minimal size"); next = b; ++calls; }, minb); vp_check(next == s + n, "the whole range"); vp_check(calls <= 4 * threads, "bounded number of ranges"); }
// @run partitioned jobs=8
extern "C" void partitioned() { vp_opt("preempt", vp_choose("preempt", 2)); vp_opt("race", 1); int threads = 1 + vp_choose("threads", 3); ContextImpl ctx; ctx.EnsureMinimumThreads(1); int s = vp_choose("start", 2), n = 4 + vp_choose("n", 2); std::vector<int> p = {s}; int c = vp_choose("cuts", 1 << (n - 1)); if (n == 5 && c != 5 && c != 10) vp_end(); for (int i = 1; i < n; ++i) if (c >> (i - 1) & 1) p.push_back(s + i); p.push_back(s + n); Seen S(s, n, threads); ParallelFor(&ctx, s, s + n, threads, [&](int t, std::tuple<int, int> r) { S.enter(t); auto [a, b] = r; bool fa = false, fb = false; for (int q : p) { fa |= a == q; fb |= b == q; } if (n > threads && threads > 1) vp_check(fa && fb, "ranges respect the partition"); for (int i = a; i != b; ++i) S.hit(i); S.leave(t); }, p); S.done(); }
struct Item { int c; };
static std::vector<Item> costs(int n, int maxc, int zero) { std::vector<Item> v; int sum = vp_int("before", 0, 5); v.push_back({sum}); for (int i = 0; i < n; ++i) { sum += vp_int("cost", zero ? 0 : 1, maxc); v.push_back({sum}); } return v; }
// The smallest possible largest cost over all ways to cut n items into at most k ranges.
static int best(const std::vector<Item>& v, int n, int k) { int b = v[n].c - v[0].c; for (int m = 0; m < 1 << (n - 1); ++m) { int parts = 1 + __builtin_popcount(m), w = 0, last = 0; if (parts > k) continue; for (int i = 1; i <= n; ++i) if (i == n || m >> (i - 1) & 1) { int c = v[i].c - v[last].c; w = c > w ? c : w; last = i; } b = w < b ? w : b; } return b; }
static void cut(int n, int maxc) { int k = 1 + vp_choose("partitions", 3), withOffset = vp_choose("offset", 2); auto v = costs(n, maxc, 0); const Item* d = v.data() + 1; int start = 0, end = n; if (withOffset) { d = v.data(); start = 1; end = n + 1; } else vp_assume(v[0].c == 0); auto p = PartitionRangeForParallelFor(start, end, k, d, [](const Item& i) { return i.c; }); vp_check(p.size() >= 2 && (int)p.size() <= k + 1, "at most the wanted number of ranges"); vp_check(p.front() == start && p.back() == end, "covers the range"); int w = 0; for (size_t i = 0; i + 1 < p.size(); ++i) { vp_check(p[i] < p[i + 1], "increasing"); int c = v[p[i + 1] - start].c - v[p[i] - start].c; w = c > w ? c : w; } vp_check(w == best(v, n, k), "the largest cost is as small as possible"); }
// @run cuts jobs=8
extern "C" void cuts() { cut(3, 6); }
// @run cuts4 jobs=8 tier=thorough
extern "C" void cuts4() { cut(4, 4); }
// @run costed jobs=8
extern "C" void costed() { vp_opt("preempt", 0); vp_opt("race", 1); int threads = 2, n = 3 + vp_choose("n", 2), z = vp_choose("zeros", 2); auto v = costs(n, n == 3 ? 4 : 2, z); vp_assume(v[0].c == 0); ContextImpl ctx; ctx.EnsureMinimumThreads(1); Seen S(0, n, threads); ParallelFor(&ctx, 0, n, threads, [&](int t, int i) { S.enter(t); S.hit(i); S.leave(t); }, v.data() + 1, [](const Item& i) { return i.c; }); S.done(); }
// @run nested
extern "C" void nested() { vp_opt("preempt", 0); ContextImpl ctx; ctx.EnsureMinimumThreads(vp_choose("workers", 3)); int c[3][2] = {}; std::mutex m; ParallelFor(&ctx, 0, 3, 2, [&](int i) { ParallelFor(&ctx, 0, 2, 2, [&](int j) { std::lock_guard<std::mutex> l(m); c[i][j]++; }); }); for (auto& r : c) for (int q : r) vp_check(q == 1, "nested loops run every pair once"); }
// @run again
extern "C" void again() { vp_opt("preempt", 1); ContextImpl ctx; ctx.EnsureMinimumThreads(1); for (int k = 0; k < 2; ++k) { int c[2] = {}; ParallelFor(&ctx, 0, 2, 2, [&](int i) { c[i]++; }); vp_check(c[0] == 1 && c[1] == 1, "one loop after the other"); } }
// @run pool jobs=8
extern "C" void pool() { vp_opt("preempt", 2); vp_opt("race", 1); int n = vp_choose("tasks", 3), w = 1 + vp_choose("workers", 2); int ran[2] = {}; { ThreadPool p(w); vp_check(p.Size() == w, "size"); for (int i = 0; i < n; ++i) p.AddTask([&ran, i] { ran[i]++; }); } for (int i = 0; i < n; ++i) vp_check(ran[i] == 1, "every task ran once before the pool went"); }
// @run resize
extern "C" void resize() { vp_opt("preempt", 0); ThreadPool p; vp_check(p.Size() == 0, "empty"); int a = vp_choose("a", 4), b = vp_choose("b", 7); bool early = vp_choose("early", 2); std::atomic<int> ran(0); if (early) p.AddTask([&ran] { ran++; }); p.Resize(a); vp_check(p.Size() == a, "grows"); p.Resize(b); int top = ThreadPool::MaxNumThreadsAvailable(), want = b > top ? top : b; vp_check(p.Size() == (want > a ? want : a), "never shrinks and never exceeds the hardware"); p.Resize(a); vp_check(p.Size() == (want > a ? want : a), "never shrinks"); }
// @run fifo
extern "C" void fifo() { ConcurrentQueue<int> q; std::vector<int> model; size_t head = 0; int id = 0; for (int i = 0; i < 5; ++i) { int op = vp_choose("op", 3), v = -1; if (op == 0) { q.Push(++id); model.push_back(id); } else if (op == 1) { bool ok = q.Pop(&v); vp_check(ok == (head < model.size()), "pop succeeds iff there is something"); if (ok) vp_check(v == model[head++], "in order"); else vp_check(v == -1, "value untouched"); } else { bool stop = head == model.size(); if (stop) q.StopWaiters(); bool ok = q.Wait(&v); vp_check(ok == !stop, "wait fails only when stopped and empty"); if (ok) vp_check(v == model[head++], "in order"); if (stop) q.EnableWaiters(); } } }
// @run producers jobs=8
extern "C" void producers() { vp_opt("preempt", 2); vp_opt("race", 1); vp_opt("spurious", vp_choose("spurious", 2)); ConcurrentQueue<int> q; std::vector<int> got; std::mutex m; int n = 0; std::thread c([&] { int v = 0; while (q.Wait(&v)) { std::lock_guard<std::mutex> l(m); got.push_back(v); } ++n; }); q.Push(1); q.Push(2); q.StopWaiters(); c.join(); vp_check(n == 1 && got.size() == 2 && got[0] == 1 && got[1] == 2, "everything is consumed in order"); }
// @run consumers jobs=8
extern "C" void consumers() { vp_opt("preempt", 2); vp_opt("race", 1); ConcurrentQueue<int> q; int a = 0, b = 0; bool ra = true, rb = true; std::thread c([&] { ra = q.Wait(&a); }), d([&] { rb = q.Wait(&b); }); q.Push(7); int more = vp_choose("more", 2); if (more) q.Push(8); else q.StopWaiters(); c.join(); d.join(); if (more) vp_check(ra && rb && a + b == 15 && a != b, "each element to one consumer"); else vp_check((ra && a == 7 && !rb && b == 0) || (rb && b == 7 && !ra && a == 0), "one gets the element and the other is released"); }
// @run tokens jobs=8
extern "C" void tokens() { vp_opt("preempt", 2); vp_opt("race", 1); ThreadTokenProvider p(2); int held[2] = {}; std::mutex m; auto use = [&] { ScopedThreadToken t(&p); int k = t.token(); if (k < 0 || k > 1) { vp_check(0, "token in range"); return; } { std::lock_guard<std::mutex> l(m); vp_check(held[k]++ == 0, "one holder per token"); } { std::lock_guard<std::mutex> l(m); held[k]--; } }; std::thread a(use), b(use); use(); a.join(); b.join(); }
// @run triangular
extern "C" void triangular() { int n = 1 + vp_choose("n", 6), m = n * (n + 1) / 2, k = vp_int("k", 0, m - 1), l = vp_int("l", 0, m - 1), i = -1, j = -1, a = -1, b = -1; LinearIndexToUpperTriangularIndex(k, n, &i, &j); LinearIndexToUpperTriangularIndex(l, n, &a, &b); vp_check(i >= 0 && i <= j && j < n, "in the upper triangle"); vp_check(k == l || i != a || j != b, "no pair twice"); }
// @run big jobs=8 nonative
extern "C" void big() { vp_opt("preempt", 0); vp_opt("race", 1); static double v[(1 << 17) + 3], u[(1 << 17) + 3]; const int n = (1 << 17) + 3; int at[4] = {0, 65535, 65537, n - 1}; double a[4], b[4]; for (int k = 0; k < 4; ++k) { v[at[k]] = a[k] = vp_real_in("a", -100, 100); u[at[k]] = b[k] = vp_real_in("b", -100, 100); } ContextImpl ctx; ctx.EnsureMinimumThreads(1); ParallelSetZero(&ctx, 2, v + 1, n - 2); vp_check_eq(v[0], a[0], "outside"); vp_check_eq(v[n - 1], a[3], "outside"); vp_check(v[65535] == 0 && v[65537] == 0, "zeroed"); }
// @run small
extern "C" void small() { ContextImpl ctx; int t = 1 + vp_choose("threads", 2), n = 1 + vp_choose("n", 3); Vector x(n), y(n), z(n); for (int i = 0; i < n; ++i) { x[i] = vp_real_in("x", -100, 100); y[i] = vp_real_in("y", -100, 100); z[i] = 9; } double s = 0, d = 0, a = vp_real_in("a", -10, 10), b = vp_real_in("b", -10, 10); for (int i = 0; i < n; ++i) { s += x[i] * x[i]; d += x[i] * y[i]; } double m = Norm(x, &ctx, t); vp_check_eq(m * m, s, "norm"); vp_check(m >= 0, "norm"); vp_check_eq(Dot(x, y, &ctx, t), d, "dot product"); Axpby(a, x, b, y, z, &ctx, t); for (int i = 0; i < n; ++i) vp_check_eq(z[i], a * x[i] + b * y[i], "linear combination"); Axpby(a, x, b, z, z, &ctx, t); for (int i = 0; i < n; ++i) vp_check_eq(z[i], a * x[i] + b * (a * x[i] + b * y[i]), "in place"); Copy(x, z, &ctx, t); for (int i = 0; i < n; ++i) vp_check_eq(z[i], x[i], "copy"); SetZero(z, &ctx, t); for (int i = 0; i < n; ++i) vp_check_eq(z[i], 0, "zero"); }
