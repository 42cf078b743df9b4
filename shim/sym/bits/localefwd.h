#pragma once
#include <bits/c++config.h>
#include <iosfwd>
#include <cctype>
namespace std { class locale; class ctype_base { public: typedef unsigned short mask; static const mask space = 1, digit = 2, alpha = 4, upper = 8, lower = 16, alnum = 6, punct = 32, print = 64, cntrl = 128, xdigit = 256; }; template <class C> class ctype; template <class F> const F& use_facet(const locale&); template <class F> bool has_facet(const locale&) throw();
template <class C> bool isspace(C, const locale&); template <class C> C tolower(C, const locale&); template <class C> C toupper(C, const locale&); }
