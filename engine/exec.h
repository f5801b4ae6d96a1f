#pragma once
#include "interp.h"
[[noreturn]] void fatal(const std::string& s);
extern bool g_realMode;
extern Memory g_mem;
extern std::vector<Func*> g_funcs;
extern std::unordered_map<uint64_t, Func*> g_funcByAddr;
extern std::vector<Value> g_consts;
int builtinFor(const std::string& name);
void decodeFunc(Func*);
void loadModule(const char* path);
std::string instText(const Inst&);
std::string demangled(const std::string&);
Func* findFunc(const std::string&);
std::vector<Func*> ctorList();
Expr* niceRational(double d);
