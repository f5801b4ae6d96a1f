// Byte-addressed memory of the program under execution.  Addresses are host
// addresses inside one reserved arena; every byte has a shadow state.
#pragma once
#include "expr.h"
#include <cstring>
#include <unordered_map>
enum Shadow : uint8_t { SH_NONE = 0, SH_INIT = 1, SH_UNINIT = 2, SH_SYM = 3, SH_FREED = 4, SH_CONT = 5 };
struct Cell { Expr* e; uint8_t size; };
struct MemFault { const char* kind; uint64_t addr; };
class Memory {
 public:
  static constexpr uint64_t BASE = 0x100000000000ull, SIZE = 8ull << 30;
  static constexpr uint64_t SBASE = 0x110000000000ull;
  static constexpr uint64_t STACK0 = BASE + (6ull << 30);
  static constexpr uint64_t THREAD_STACK = 64ull << 20;
  uint64_t heapTop = BASE + 4096;
  std::unordered_map<uint64_t, Cell> cells;
  struct Blk { uint64_t size; uint8_t kind; };
  std::unordered_map<uint64_t, Blk> blocks;  // live heap blocks
  void init();
  uint8_t* sh(uint64_t a) { return (uint8_t*)(SBASE + (a - BASE)); }
  bool in(uint64_t a, uint64_t n) { return a >= BASE && a + n <= BASE + SIZE && a + n >= a; }
  // kind: 0 global 1 malloc 2 new 3 new[]
  uint64_t alloc(uint64_t n, uint64_t align, uint8_t kind, uint8_t state);
  void check(uint64_t a, uint64_t n, bool write);
  bool allInit(uint64_t a, uint64_t n);
  void clearCells(uint64_t a, uint64_t n);
  void setSym(uint64_t a, unsigned n, Expr* e);
  void splitCell(uint64_t a);
  void copy(uint64_t d, uint64_t s, uint64_t n);
  void fill(uint64_t d, uint8_t v, uint64_t n);
  void release(uint64_t a, uint8_t kind);
  uint64_t cellStart(uint64_t a);
};
