// Stand-in for the ply library: the same interface, and a parser for the binary files of the host's byte order.
#pragma once
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <string>
#include <vector>
#include <iostream>
#include <istream>
#include <ostream>
#include <tr1/functional>
#include <tr1/tuple>
#include <tr1/memory>
namespace ply {
typedef int8_t int8; typedef int16_t int16; typedef int32_t int32; typedef uint8_t uint8; typedef uint16_t uint16; typedef uint32_t uint32; typedef float float32; typedef double float64;
enum format_type { ascii_format, binary_little_endian_format, binary_big_endian_format };
enum byte_order_type { little_endian_byte_order, big_endian_byte_order };
static const byte_order_type host_byte_order = little_endian_byte_order;
struct callback_types {
  template <class T> struct scalar { typedef std::tr1::function<void (T)> callback; typedef std::tr1::function<callback (const std::string&, const std::string&)> definition; };
  template <class S, class T> struct list { typedef std::tr1::tuple<std::tr1::function<void (S)>, std::tr1::function<void (T)>, std::tr1::function<void ()> > callback; typedef std::tr1::function<callback (const std::string&, const std::string&)> definition; };
  template <class T> struct scalar_slot { typename scalar<T>::definition f; };
  template <class S, class T> struct list_slot { typename list<S, T>::definition f; };
  struct scalar_property_definition_callbacks_type : scalar_slot<int8>, scalar_slot<int16>, scalar_slot<int32>, scalar_slot<uint8>, scalar_slot<uint16>, scalar_slot<uint32>, scalar_slot<float32>, scalar_slot<float64> {};
  template <class S> struct list_slots : list_slot<S, int8>, list_slot<S, int16>, list_slot<S, int32>, list_slot<S, uint8>, list_slot<S, uint16>, list_slot<S, uint32>, list_slot<S, float32>, list_slot<S, float64> {};
  struct list_property_definition_callbacks_type : list_slots<uint8>, list_slots<uint16>, list_slots<uint32> {};
};
template <class T> typename callback_types::scalar<T>::definition& at(callback_types::scalar_property_definition_callbacks_type& c) { return static_cast<callback_types::scalar_slot<T>&>(c).f; }
template <class S, class T> typename callback_types::list<S, T>::definition& at(callback_types::list_property_definition_callbacks_type& c) { return static_cast<callback_types::list_slot<S, T>&>(c).f; }
class ply_parser {
public:
  typedef int flags_type;
  typedef std::tr1::function<void (std::size_t, const std::string&)> message; typedef std::tr1::function<void (const std::string&)> text;
  ply_parser(flags_type = 0) {}
  void info_callback(const message& f) { info_ = f; } void warning_callback(const message& f) { warning_ = f; } void error_callback(const message& f) { error_ = f; }
  void magic_callback(const std::tr1::function<void ()>& f) { magic_ = f; } void format_callback(const std::tr1::function<void (format_type, const std::string&)>& f) { format_ = f; }
  void comment_callback(const text& f) { comment_ = f; } void obj_info_callback(const text& f) { obj_info_ = f; } void end_header_callback(const std::tr1::function<bool ()>& f) { end_header_ = f; }
  void scalar_property_definition_callbacks(const callback_types::scalar_property_definition_callbacks_type& c) { scalars_ = c; }
  void list_property_definition_callbacks(const callback_types::list_property_definition_callbacks_type& c) { lists_ = c; }
  bool parse(std::istream& is) {
    std::vector<element> es; std::string l; std::size_t n = 1; if (!line(is, l) || l != "ply") { error_(n, "parse error"); return false; } magic_(); bool end = false;
    while (!end && line(is, l)) { n++; std::vector<std::string> w = words(l); if (w.empty()) continue;
      if (w[0] == "format") { if (w.size() < 3 || w[1] != "binary_little_endian") { error_(n, "unsupported format"); return false; } format_(binary_little_endian_format, w[2]); }
      else if (w[0] == "comment") comment_(l); else if (w[0] == "obj_info") obj_info_(l);
      else if (w[0] == "element" && w.size() == 3) { es.push_back(element(w[1], strtoul(w[2].c_str(), 0, 10))); }
      else if (w[0] == "property" && w.size() == 3 && !es.empty()) { std::tr1::shared_ptr<property> p = scalar(w[1], es.back().name, w[2]); if (!p) { error_(n, "parse error"); return false; } es.back().props.push_back(p); }
      else if (w[0] == "property" && w.size() == 5 && w[1] == "list" && !es.empty()) { std::tr1::shared_ptr<property> p = w[2] == "uchar" || w[2] == "uint8" ? list<uint8>(w[3], es.back().name, w[4]) : w[2] == "ushort" || w[2] == "uint16" ? list<uint16>(w[3], es.back().name, w[4]) : list<uint32>(w[3], es.back().name, w[4]); if (!p) { error_(n, "parse error"); return false; } es.back().props.push_back(p); }
      else if (w[0] == "end_header") { end = true; if (!end_header_()) return false; } else { error_(n, "parse error"); return false; } }
    if (!end) { error_(n, "unexpected end of file"); return false; }
    for (std::size_t e = 0; e < es.size(); e++) for (std::size_t i = 0; i < es[e].count; i++) for (std::size_t p = 0; p < es[e].props.size(); p++) if (!es[e].props[p]->read(is)) { error_(n, "unexpected end of file"); return false; }
    return true;
  }
private:
  struct property { virtual ~property() {} virtual bool read(std::istream& is) = 0; };
  struct element { std::string name; std::size_t count; std::vector<std::tr1::shared_ptr<property> > props; element(const std::string& n, std::size_t c) : name(n), count(c) {} };
  template <class T> static bool get(std::istream& is, T& v) { char b[sizeof(T)]; is.read(b, sizeof(T)); if (is.fail()) return false; memcpy(&v, b, sizeof(T)); return true; }
  template <class T> struct scalar_property : property { typename callback_types::scalar<T>::callback f; bool read(std::istream& is) { T v; if (!get(is, v)) return false; if (f) f(v); return true; } };
  template <class S, class T> struct list_property : property { typename callback_types::list<S, T>::callback f; bool read(std::istream& is) { S n; if (!get(is, n)) return false; if (std::tr1::get<0>(f)) std::tr1::get<0>(f)(n); for (S i = 0; i < n; i++) { T v; if (!get(is, v)) return false; if (std::tr1::get<1>(f)) std::tr1::get<1>(f)(v); } if (std::tr1::get<2>(f)) std::tr1::get<2>(f)(); return true; } };
  static bool line(std::istream& is, std::string& l) { l.clear(); for (;;) { int c = is.get(); if (c < 0) return !l.empty(); if (c == '\n') return true; l += (char)c; } }
  static std::vector<std::string> words(const std::string& l) { std::vector<std::string> r; std::string w; for (std::size_t i = 0; i <= l.size(); i++) if (i == l.size() || l[i] == ' ' || l[i] == '\r') { if (!w.empty()) r.push_back(w); w.clear(); } else w += l[i]; return r; }
  template <class T> std::tr1::shared_ptr<property> make(const std::string& e, const std::string& p) { std::tr1::shared_ptr<scalar_property<T> > r(new scalar_property<T>()); if (at<T>(scalars_)) r->f = at<T>(scalars_)(e, p); return r; }
  template <class S, class T> std::tr1::shared_ptr<property> makel(const std::string& e, const std::string& p) { std::tr1::shared_ptr<list_property<S, T> > r(new list_property<S, T>()); if (at<S, T>(lists_)) r->f = at<S, T>(lists_)(e, p); return r; }
  std::tr1::shared_ptr<property> scalar(const std::string& t, const std::string& e, const std::string& p) {
    if (t == "char" || t == "int8") return make<int8>(e, p); if (t == "short" || t == "int16") return make<int16>(e, p); if (t == "int" || t == "int32") return make<int32>(e, p); if (t == "uchar" || t == "uint8") return make<uint8>(e, p); if (t == "ushort" || t == "uint16") return make<uint16>(e, p); if (t == "uint" || t == "uint32") return make<uint32>(e, p); if (t == "float" || t == "float32") return make<float32>(e, p); if (t == "double" || t == "float64") return make<float64>(e, p); return std::tr1::shared_ptr<property>(); }
  template <class S> std::tr1::shared_ptr<property> list(const std::string& t, const std::string& e, const std::string& p) {
    if (t == "char" || t == "int8") return makel<S, int8>(e, p); if (t == "short" || t == "int16") return makel<S, int16>(e, p); if (t == "int" || t == "int32") return makel<S, int32>(e, p); if (t == "uchar" || t == "uint8") return makel<S, uint8>(e, p); if (t == "ushort" || t == "uint16") return makel<S, uint16>(e, p); if (t == "uint" || t == "uint32") return makel<S, uint32>(e, p); if (t == "float" || t == "float32") return makel<S, float32>(e, p); if (t == "double" || t == "float64") return makel<S, float64>(e, p); return std::tr1::shared_ptr<property>(); }
  message info_, warning_, error_; std::tr1::function<void ()> magic_; std::tr1::function<void (format_type, const std::string&)> format_; text comment_, obj_info_; std::tr1::function<bool ()> end_header_;
  callback_types::scalar_property_definition_callbacks_type scalars_; callback_types::list_property_definition_callbacks_type lists_;
};
}
