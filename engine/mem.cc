#include "mem.h"
#include <sys/mman.h>
#include <cstdio>
#include <cstdlib>
void Memory::init() {
  void* p = mmap((void*)BASE, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void* q = mmap((void*)SBASE, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)BASE || q != (void*)SBASE) { fprintf(stderr, "arena\n"); exit(3); }
}
uint64_t Memory::alloc(uint64_t n, uint64_t align, uint8_t kind, uint8_t state) {
  if (align < 16) align = 16;
  uint64_t red = 32 + (n > 256 ? 64 : 0);
  uint64_t a = (heapTop + red + align - 1) / align * align;
  if (n > (1ull << 30) || a + n + 64 > STACK0) throw MemFault{"out-of-memory", n};
  heapTop = a + n;
  memset(sh(a), state, n);
  if (kind) blocks[a] = Blk{n, kind};
  return a;
}
void Memory::check(uint64_t a, uint64_t n, bool write) {
  if (!in(a, n)) throw MemFault{a < 4096 ? "null-pointer-access" : "wild-pointer-access", a};
  uint8_t* s = sh(a);
  for (uint64_t i = 0; i < n; ++i) {
    if (s[i] == SH_NONE) throw MemFault{write ? "out-of-bounds-write" : "out-of-bounds-read", a};
    if (s[i] == SH_FREED) throw MemFault{"use-after-free", a};
  }
}
bool Memory::allInit(uint64_t a, uint64_t n) {
  uint8_t* s = sh(a);
  while (n >= 8) { uint64_t v; memcpy(&v, s, 8); if (v != 0x0101010101010101ull) return false; s += 8; n -= 8; }
  while (n--) if (*s++ != SH_INIT) return false;
  return true;
}
uint64_t Memory::cellStart(uint64_t a) { while (*sh(a) == SH_CONT) --a; return a; }
void Memory::splitCell(uint64_t a) {  // BV cell -> byte cells; others -> arbitrary bytes
  auto it = cells.find(a); if (it == cells.end()) return;
  Cell c = it->second; cells.erase(it);
  for (unsigned i = 0; i < c.size; ++i) {
    if (c.e->sort == S_BV) { Expr* b = mkExtract(c.e, i * 8, 8); if (b->isConst()) { *(uint8_t*)(a + i) = b->k; *sh(a + i) = SH_INIT; } else { cells[a + i] = Cell{b, 1}; *sh(a + i) = SH_SYM; } }
    else if (c.e->sort == S_FP) { Expr* b = mkExtract(mkF2BV(c.e), i * 8, 8); cells[a + i] = Cell{b, 1}; *sh(a + i) = SH_SYM; }
    else *sh(a + i) = SH_UNINIT;
  }
}
void Memory::clearCells(uint64_t a, uint64_t n) {  // before overwriting [a, a+n)
  uint8_t* s = sh(a);
  if (n && s[0] == SH_CONT) splitCell(cellStart(a));
  if (n && *sh(a + n) == SH_CONT) { uint64_t c = cellStart(a + n); if (c < a + n) splitCell(c); }
  for (uint64_t i = 0; i < n; ++i) if (s[i] == SH_SYM) cells.erase(a + i);
}
void Memory::setSym(uint64_t a, unsigned n, Expr* e) {
  clearCells(a, n);
  cells[a] = Cell{e, (uint8_t)n};
  *sh(a) = SH_SYM; memset(sh(a) + 1, SH_CONT, n - 1);
}
void Memory::copy(uint64_t d, uint64_t s, uint64_t n) {
  if (!n || d == s) return;
  check(s, n, false); check(d, n, true);
  if (allInit(s, n)) {
    if (!allInit(d, n)) { clearCells(d, n); memset(sh(d), SH_INIT, n); }
    memmove((void*)d, (void*)s, n); return;
  }
  if (*sh(s) == SH_CONT) splitCell(cellStart(s));
  if (*sh(s + n) == SH_CONT) { uint64_t c = cellStart(s + n); if (c < s + n) splitCell(c); }
  std::vector<std::pair<uint64_t, Cell>> cs;
  std::vector<uint8_t> st(sh(s), sh(s) + n), raw((uint8_t*)s, (uint8_t*)s + n);
  for (uint64_t i = 0; i < n; ++i) if (st[i] == SH_SYM) cs.push_back({i, cells[s + i]});
  clearCells(d, n);
  memcpy((void*)d, raw.data(), n); memcpy(sh(d), st.data(), n);
  for (auto& c : cs) cells[d + c.first] = c.second;
}
void Memory::fill(uint64_t d, uint8_t v, uint64_t n) {
  if (!n) return;
  check(d, n, true); clearCells(d, n); memset((void*)d, v, n); memset(sh(d), SH_INIT, n);
}
void Memory::release(uint64_t a, uint8_t kind) {
  if (!a) return;
  auto it = blocks.find(a);
  if (it == blocks.end()) throw MemFault{in(a, 1) && *sh(a) == SH_FREED ? "double-free" : "invalid-free", a};
  uint64_t n = it->second.size;
  clearCells(a, n);
  memset(sh(a), SH_FREED, n);
  blocks.erase(it);
  if (n >= 65536) { uint64_t p = (a + 4095) & ~4095ull, q = (a + n) & ~4095ull; if (q > p) madvise((void*)p, q - p, MADV_DONTNEED); }
}
