// Stand-in for the symbolic build: paths are strings, directories always exist, files live in memory (sx_streams.h).
#pragma once
#include "sx_streams.h"
namespace boost { namespace filesystem {
class path { std::string s_; public: path() {} path(const std::string& s) : s_(s) {} path(const char* s) : s_(s) {} const std::string& string() const { return s_; } const char* c_str() const { return s_.c_str(); } bool empty() const { return s_.empty(); }
  path operator/(const path& o) const { path r(*this); r /= o; return r; } path& operator/=(const path& o) { if (!o.s_.empty() && o.s_[0] == '/') { s_ = o.s_; return *this; } if (!s_.empty() && s_[s_.size() - 1] != '/') s_ += '/'; s_ += o.s_; return *this; }
  path filename() const { size_t p = s_.rfind('/'); return path(p == std::string::npos ? s_ : s_.substr(p + 1)); } path extension() const { std::string f = filename().s_; size_t p = f.rfind('.'); return path(p == std::string::npos ? std::string() : f.substr(p)); } };
inline path operator/(const std::string& a, const path& b) { return path(a) / b; }
template <class C, class T> std::basic_ostream<C, T>& operator<<(std::basic_ostream<C, T>& o, const path& p) { return o << p.string(); }
} }
