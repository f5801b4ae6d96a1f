#pragma once
#include <string>
namespace absl {
template <class... A> std::string StrCat(const A&...) { return std::string("~"); }
template <class... A> void StrAppend(std::string* s, const A&...) { s->push_back('~'); }
}
