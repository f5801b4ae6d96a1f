// Runtime functions the interpreted program needs: the out-of-line parts of
// libstdc++ and libc, as ordinary code that is interpreted too.
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <cctype>
#include <new>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <typeinfo>
#include <unordered_map>
#include "vp.h"

extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) { ++a; ++b; --n; } return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0; }
int memcmp(const void* a, const void* b, size_t n) { const unsigned char *p = (const unsigned char*)a, *q = (const unsigned char*)b; for (size_t i = 0; i < n; ++i) if (p[i] != q[i]) return (int)p[i] - (int)q[i]; return 0; }
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
void* vp_memchr(const void* a, int c, size_t n) asm("memchr");
void* vp_memchr(const void* a, int c, size_t n) { const unsigned char* p = (const unsigned char*)a; for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void*)(p + i); return nullptr; }
char* strcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* d = (char*)malloc(n); for (size_t i = 0; i < n; ++i) d[i] = s[i]; return d; }
int toupper(int c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) noexcept { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
char __libc_single_threaded = 0;
double ldexp(double x, int n) { while (n > 0) { x *= 2; --n; } while (n < 0) { x *= 0.5; ++n; } return x; }
long double logl(long double x) { return __builtin_log((double)x); }
static unsigned vp_seed = 12345;
int rand(void) { vp_seed = vp_seed * 1103515245u + 12345u; return (int)((vp_seed >> 8) & 0x7fffff); }
long time(long*) { return 0; }
__attribute__((weak)) double vp_clock_now(void) { return 0.0; }
int pthread_once(int* c, void (*f)(void)) { if (!*c) { *c = 1; f(); } return 0; }

// ---- dynamic_cast (Itanium ABI)
struct TI { void** vptr; const char* name; };
struct SI { TI t; const TI* base; };
struct VB { const TI* base; long flags; };
struct VMI { TI t; unsigned flags, n; VB b[1]; };
extern void* _ZTVN10__cxxabiv117__class_type_infoE[];
extern void* _ZTVN10__cxxabiv120__si_class_type_infoE[];
extern void* _ZTVN10__cxxabiv121__vmi_class_type_infoE[];
static const char* vp_find(const TI* t, const char* obj, const TI* dst) {
  if (t == dst || strcmp(t->name, dst->name) == 0) return obj;
  if (t->vptr == &_ZTVN10__cxxabiv120__si_class_type_infoE[2]) return vp_find(((const SI*)t)->base, obj, dst);
  if (t->vptr == &_ZTVN10__cxxabiv121__vmi_class_type_infoE[2]) {
    const VMI* v = (const VMI*)t;
    for (unsigned i = 0; i < v->n; ++i) {
      long off = v->b[i].flags >> 8;
      const char* o = (v->b[i].flags & 1) ? obj + *(const long*)(*(const char* const*)obj + off) : obj + off;
      if (const char* r = vp_find(v->b[i].base, o, dst)) return r;
    }
  }
  return nullptr;
}
void* __dynamic_cast(const void* src, const TI*, const TI* dst, long) {
  const long* vt = *(const long* const*)src;
  return (void*)vp_find((const TI*)vt[-1], (const char*)src + vt[-2], dst);
}
}

template class std::basic_string<char>;
// ---- std::map / std::set
namespace std {
typedef _Rb_tree_node_base N;
static N* inc(N* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { N* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static N* dec(N* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { N* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  N* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
N* _Rb_tree_increment(N* x) noexcept { return inc(x); }
const N* _Rb_tree_increment(const N* x) noexcept { return inc(const_cast<N*>(x)); }
N* _Rb_tree_decrement(N* x) noexcept { return dec(x); }
const N* _Rb_tree_decrement(const N* x) noexcept { return dec(const_cast<N*>(x)); }
static void rotl(N* x, N*& root) { N* y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotr(N* x, N*& root) { N* y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, N* x, N* p, N& h) noexcept {
  N*& root = h._M_parent; x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    N* const g = x->_M_parent->_M_parent;
    if (x->_M_parent == g->_M_left) {
      N* const u = g->_M_right;
      if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root); }
    } else {
      N* const u = g->_M_left;
      if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root); }
    }
  }
  root->_M_color = _S_black;
}
N* _Rb_tree_rebalance_for_erase(N* const z, N& h) noexcept {
  N*& root = h._M_parent; N*& leftmost = h._M_left; N*& rightmost = h._M_right; N* y = z; N* x = nullptr; N* xp = nullptr;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; _Rb_tree_color c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { N* m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
    if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { N* m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        N* w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break; }
      } else {
        N* w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break; }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const size_t p[] = {2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229};
  if (n <= 1) { _M_next_resize = 1; return n == 0 ? 1 : 1; }
  for (size_t q : p) if (q >= n) { _M_next_resize = q; return q; }
  _M_next_resize = 2 * n + 1; return 2 * n + 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins > _M_next_resize || (_M_next_resize <= 1 && elt + ins > bkt - 1 + 0)) {
    size_t want = elt + ins; if (_M_next_resize == 0 && want < 11) want = 11;
    if (want >= bkt) { size_t k = want + 1 > 2 * bkt ? want + 1 : 2 * bkt; return pair<bool, size_t>(true, _M_next_bkt(k)); }
    _M_next_resize = bkt; return pair<bool, size_t>(false, 0);
  }
  return pair<bool, size_t>(false, 0);
}
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first; _List_node_base* t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; }
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) { _List_node_base* t = x._M_next; x._M_next = y._M_next; y._M_next = t; t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
}  // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed ^ 14695981039346656037ull; const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull; return h; }

// ---- threads
thread::_State::~_State() = default;
static void* vp_trampoline(void* a) { thread::_State* s = (thread::_State*)a; s->_M_run(); delete s; return nullptr; }
void thread::_M_start_thread(_State_ptr s, void (*)()) { long id = vp_thread_create(vp_trampoline, s.release()); __builtin_memcpy(&_M_id, &id, sizeof(id)); }
void thread::join() { long id; __builtin_memcpy(&id, &_M_id, sizeof(id)); vp_thread_join(id); _M_id = thread::id(); }
unsigned thread::hardware_concurrency() noexcept { return 4; }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) { vp_cond_wait(this, l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { vp_cond_signal(this); }
void condition_variable::notify_all() noexcept { vp_cond_broadcast(this); }
// ---- floating divide of complex numbers is not modelled (see harnesses)
}  // namespace std
