#pragma once
#include <cstdio>
#include <string>
#include "absl/strings/str_cat.h"
namespace absl {
template <class F, class... A> std::string StrFormat(const F&, const A&...) { return std::string("~"); }
template <class F, class... A> void StrAppendFormat(std::string* s, const F&, const A&...) { s->push_back('~'); }
template <class F, class... A> int FPrintF(std::FILE*, const F&, const A&...) { return 0; }
template <class F, class... A> int PrintF(const F&, const A&...) { return 0; }
}
