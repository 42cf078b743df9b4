// Stand-in for the symbolic build: numbers become text and come back unchanged (doubles as tokens, see sx_streams.h).
#pragma once
#include "sx_streams.h"
#include <typeinfo>
#include <type_traits>
#include <boost/config.hpp>
#include <boost/throw_exception.hpp>
namespace boost {
class bad_lexical_cast : public std::bad_cast { public: const char* what() const noexcept { return "bad lexical cast"; } };
namespace sxl {
inline std::string txt(const std::string& s) { return s; } inline std::string txt(const char* s) { return s; } inline std::string txt(char c) { return std::string(1, c); }
inline std::string txt(bool b) { return std::string(1, sx_concretize(b) ? '1' : '0'); }
template <class T> typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, char>::value && !std::is_same<T, bool>::value, std::string>::type txt(T v) { std::string s; if (sizeof(T) == 1) { s.push_back((char)v); return s; } sxs::putInt(s, (long)v, std::is_signed<T>::value, 10); return s; }
template <class T> typename std::enable_if<std::is_enum<T>::value, std::string>::type txt(T v) { return txt((int)v); }
template <class T> typename std::enable_if<std::is_floating_point<T>::value, std::string>::type txt(T v) { std::string s; sxs::putDouble(s, v); return s; }
template <class T, class E = void> struct val;
template <> struct val<std::string> { static std::string get(const std::string& s) { return s; } };
template <> struct val<bool> { static bool get(const std::string& s) { if (s == "1") return true; if (s == "0") return false; throw bad_lexical_cast(); } };
template <> struct val<char> { static char get(const std::string& s) { if (s.size() != 1) throw bad_lexical_cast(); return s[0]; } };
template <class T> struct val<T, typename std::enable_if<std::is_integral<T>::value>::type> { static T get(const std::string& s) { if (sizeof(T) == 1) { if (s.size() != 1) throw bad_lexical_cast(); return (T)s[0]; } size_t p = 0; long v; if (!sxs::getInt(s, p, v) || p != s.size()) throw bad_lexical_cast(); return (T)v; } };
template <class T> struct val<T, typename std::enable_if<std::is_floating_point<T>::value>::type> { static T get(const std::string& s) { size_t p = 0; double v; if (!sxs::getDouble(s, p, v) || p != s.size()) throw bad_lexical_cast(); return (T)v; } };
}
template <class T, class S> T lexical_cast(const S& s) { return sxl::val<T>::get(sxl::txt(s)); }
template <class T> T lexical_cast(const char* s) { return sxl::val<T>::get(std::string(s)); }
}
