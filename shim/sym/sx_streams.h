// Simplified iostreams for the symbolic build (contract: what is written is read back unchanged; cout/cerr/clog discard).
#pragma once
#include <stdlib.h>
#include <math.h>
#include <bits/localefwd.h>
#include <iosfwd>
#include <string>
#include <stdexcept>
#include <exception>
#include <system_error>
#include <map>
#include <vector>
extern "C" { long sx_concretize(long); double sx_concretize_d(double); }
namespace sxs {
// doubles are written as tokens into a table, so that a (possibly symbolic) value survives a text round trip
inline std::vector<double>& dtab() { static std::vector<double> t; return t; }
inline std::map<std::string, std::string>& files() { static std::map<std::string, std::string> f; return f; }
inline void putInt(std::string& s, long v, bool neg_ok, int base) { v = sx_concretize(v); unsigned long u = (unsigned long)v; bool neg = false; if (neg_ok && v < 0) { neg = true; u = 0 - u; } char b[70]; int n = 0; do { unsigned d = (unsigned)(u % base); b[n++] = (char)(d < 10 ? '0' + d : 'a' + d - 10); u /= base; } while (u); if (neg) s.push_back('-'); while (n) s.push_back(b[--n]); }
inline void putDouble(std::string& s, double d) { dtab().push_back(d); s += "~d"; putInt(s, (long)dtab().size() - 1, true, 10); s.push_back('~'); }
inline bool sp(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }
// parse at position p; returns false when there is no number
inline bool getInt(const std::string& s, size_t& p, long& v, int base = 10) { size_t q = p; bool neg = false; if (q < s.size() && (s[q] == '-' || s[q] == '+')) { neg = s[q] == '-'; q++; } size_t st = q; long x = 0; while (q < s.size()) { char c = s[q]; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; if (d >= base) break; x = x * base + d; q++; } if (q == st) return false; p = q; v = neg ? -x : x; return true; }
inline bool getDouble(const std::string& s, size_t& p, double& v) {
  if (p + 2 < s.size() && s[p] == '~' && s[p + 1] == 'd') { size_t q = p + 2; long i; if (!getInt(s, q, i) || q >= s.size() || s[q] != '~') return false; p = q + 1; v = dtab()[i]; return true; }
  size_t q = p; bool neg = false; if (q < s.size() && (s[q] == '-' || s[q] == '+')) { neg = s[q] == '-'; q++; }
  if (q + 2 < s.size() && s[q] == '~') { if (!getDouble(s, q, v)) return false; if (neg) v = -v; p = q; return true; }
  if (s.compare(q, 3, "inf") == 0) { p = q + 3; v = neg ? -__builtin_inf() : __builtin_inf(); return true; }
  if (s.compare(q, 3, "nan") == 0) { p = q + 3; v = __builtin_nan(""); return true; }
  double m = 0; int ex = 0; bool any = false; while (q < s.size() && s[q] >= '0' && s[q] <= '9') { m = m * 10 + (s[q] - '0'); any = true; q++; }
  if (q < s.size() && s[q] == '.') { q++; while (q < s.size() && s[q] >= '0' && s[q] <= '9') { m = m * 10 + (s[q] - '0'); ex--; any = true; q++; } }
  if (!any) return false;
  if (q < s.size() && (s[q] == 'e' || s[q] == 'E')) { size_t r = q + 1; long e; if (getInt(s, r, e)) { ex += (int)e; q = r; } }
  double t = 1; for (int i = 0; i < (ex < 0 ? -ex : ex); i++) t *= 10; v = ex < 0 ? m / t : m * t; if (neg) v = -v; p = q; return true; }
}
namespace std {
class locale { public: class facet { public: virtual ~facet() {} }; class id {}; locale() {} explicit locale(const char*) {} static const locale& classic() { static locale l; return l; } string name() const { return "C"; } bool operator==(const locale&) const { return true; } };
template <class C> class ctype : public locale::facet, public ctype_base { public: bool is(mask m, C c) const { return (m & space) && (c == ' ' || (c >= 9 && c <= 13)); } C widen(char c) const { return c; } char narrow(C c, char) const { return c; } };
template <class F> const F& use_facet(const locale&) { static F f; return f; } template <class F> bool has_facet(const locale&) throw() { return false; }
class ios_base {
public: long& iword(int) { static long x; return x; } void*& pword(int) { static void* x; return x; } static int xalloc() { return 0; } locale getloc() const { return locale(); } locale imbue(const locale&) { return locale(); }
  typedef unsigned fmtflags; typedef unsigned openmode; typedef unsigned iostate; typedef int seekdir; typedef int event;
  static const fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384, adjustfield = 176, basefield = 74, floatfield = 260;
  static const openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static const seekdir beg = 0, cur = 1, end = 2;
  class failure : public runtime_error { public: explicit failure(const string& s) : runtime_error(s) {} };
  struct Init { Init() {} };
  fmtflags flags() const { return fl_; } fmtflags flags(fmtflags f) { fmtflags o = fl_; fl_ = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = fl_; fl_ |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; } void unsetf(fmtflags f) { fl_ &= ~f; }
  streamsize precision() const { return prec_; } streamsize precision(streamsize p) { streamsize o = prec_; prec_ = p; return o; }
  streamsize width() const { return wid_; } streamsize width(streamsize w) { streamsize o = wid_; wid_ = w; return o; }
  static bool sync_with_stdio(bool = true) { return true; }
  virtual ~ios_base() {}
  fmtflags fl_ = dec | skipws; streamsize prec_ = 6, wid_ = 0;
};
template <class C, class T> class basic_streambuf { public: typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; basic_string<C, T> s_; size_t rp_ = 0; virtual ~basic_streambuf() {}
  int_type sgetc() { return rp_ < s_.size() ? T::to_int_type(s_[rp_]) : T::eof(); } int_type sbumpc() { return rp_ < s_.size() ? T::to_int_type(s_[rp_++]) : T::eof(); } int_type snextc() { rp_++; return sgetc(); } int_type sputc(C c) { s_.push_back(c); return T::to_int_type(c); } streamsize sputn(const C* p, streamsize n) { s_.append(p, n); return n; } streamsize sgetn(C* p, streamsize n) { streamsize k = 0; while (k < n && rp_ < s_.size()) p[k++] = s_[rp_++]; return k; } streamsize in_avail() { return s_.size() - rp_; } };
template <class C, class T> class basic_ios : public ios_base {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  basic_streambuf<C, T>* sb_ = 0; iostate st_ = goodbit, ex_ = goodbit; C fill_ = ' ';
  basic_streambuf<C, T>* rdbuf() const { return sb_; } basic_streambuf<C, T>* rdbuf(basic_streambuf<C, T>* b) { auto* o = sb_; sb_ = b; clear(); return o; }
  iostate rdstate() const { return st_; } void clear(iostate s = goodbit) { st_ = s; if (st_ & ex_) throw ios_base::failure("stream failure"); } void setstate(iostate s) { clear(st_ | s); }
  bool good() const { return st_ == 0; } bool eof() const { return st_ & eofbit; } bool fail() const { return st_ & (failbit | badbit); } bool bad() const { return st_ & badbit; }
  explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  iostate exceptions() const { return ex_; } void exceptions(iostate e) { ex_ = e; clear(st_); }
  C fill() const { return fill_; } C fill(C c) { C o = fill_; fill_ = c; return o; }
  void init(basic_streambuf<C, T>* b) { sb_ = b; st_ = goodbit; }
  template <class X> void imbue(const X&) {}
  basic_ios& copyfmt(const basic_ios& o) { fl_ = o.fl_; prec_ = o.prec_; wid_ = o.wid_; return *this; }
  basic_ostream<C, T>* tie() const { return 0; } basic_ostream<C, T>* tie(basic_ostream<C, T>*) { return 0; }
  virtual ~basic_ios() {}
};
template <class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
public:
  typedef typename basic_ios<C, T>::pos_type pos_type; typedef typename basic_ios<C, T>::off_type off_type;
  struct sentry { explicit sentry(basic_ostream&) {} explicit operator bool() const { return true; } };
  basic_ostream() {} explicit basic_ostream(basic_streambuf<C, T>* b) { this->init(b); }
  void emit(const basic_string<C, T>& x) { auto* b = this->sb_; if (!b) return; streamsize w = this->wid_; this->wid_ = 0; if ((streamsize)x.size() < w) { size_t n = w - x.size(); if (this->fl_ & ios_base::left) { b->s_ += x; b->s_.append(n, this->fill_); } else { b->s_.append(n, this->fill_); b->s_ += x; } } else b->s_ += x; }
  basic_ostream& num(long v, bool sg) { if (!this->sb_) return *this; string t; sxs::putInt(t, v, sg, this->fl_ & ios_base::hex ? 16 : this->fl_ & ios_base::oct ? 8 : 10); emit(t); return *this; }
  basic_ostream& operator<<(bool v) { if (!this->sb_) return *this; if (this->fl_ & ios_base::boolalpha) { emit(v ? "true" : "false"); return *this; } return num(v, true); } basic_ostream& operator<<(short v) { return num(v, true); } basic_ostream& operator<<(unsigned short v) { return num(v, false); } basic_ostream& operator<<(int v) { return num(v, true); } basic_ostream& operator<<(unsigned v) { return num(v, false); } basic_ostream& operator<<(long v) { return num(v, true); } basic_ostream& operator<<(unsigned long v) { return num((long)v, false); } basic_ostream& operator<<(long long v) { return num((long)v, true); } basic_ostream& operator<<(unsigned long long v) { return num((long)v, false); }
  basic_ostream& operator<<(double v) { if (!this->sb_) return *this; string t; sxs::putDouble(t, v); emit(t); return *this; } basic_ostream& operator<<(float v) { if (!this->sb_) return *this; return *this << (double)v; } basic_ostream& operator<<(long double v) { if (!this->sb_) return *this; return *this << (double)v; }
  basic_ostream& operator<<(const void* p) { if (!this->sb_) return *this; emit("0xptr"); return *this; }
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); } basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; } basic_ostream& operator<<(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; }
  basic_ostream& operator<<(basic_streambuf<C, T>* b) { if (this->sb_ && b) this->sb_->s_ += b->s_.substr(b->rp_); return *this; }
  basic_ostream& put(C c) { if (this->sb_) this->sb_->s_.push_back(c); return *this; } basic_ostream& write(const C* p, streamsize n) { if (this->sb_) this->sb_->s_.append(p, n); return *this; } basic_ostream& flush() { return *this; }
  streampos tellp() { return streampos(this->sb_ ? (streamoff)this->sb_->s_.size() : -1); } basic_ostream& seekp(streampos) { return *this; } basic_ostream& seekp(streamoff, ios_base::seekdir) { return *this; }
  virtual ~basic_ostream() {}
};
template <class C, class T> class basic_istream : virtual public basic_ios<C, T> {
public:
  typedef typename T::int_type int_type; streamsize gc_ = 0;
  struct sentry { bool ok; explicit sentry(basic_istream& i, bool = false) : ok(i.good()) {} explicit operator bool() const { return ok; } };
  basic_istream() {} explicit basic_istream(basic_streambuf<C, T>* b) { this->init(b); }
  bool ready(bool ws = true) { if (!this->good() || !this->sb_) { this->setstate(ios_base::failbit); return false; } auto* b = this->sb_; if (ws && (this->fl_ & ios_base::skipws)) while (b->rp_ < b->s_.size() && sxs::sp(b->s_[b->rp_])) b->rp_++; if (b->rp_ >= b->s_.size()) { this->setstate(ios_base::eofbit | ios_base::failbit); return false; } return true; }
  void ateof() { if (this->sb_->rp_ >= this->sb_->s_.size()) this->st_ |= ios_base::eofbit; }
  template <class I> basic_istream& ni(I& v) { if (!ready()) return *this; long x = 0; if (!sxs::getInt(this->sb_->s_, this->sb_->rp_, x, this->fl_ & ios_base::hex ? 16 : 10)) { v = 0; this->setstate(ios_base::failbit); return *this; } v = (I)x; ateof(); return *this; }
  template <class I> basic_istream& nd(I& v) { if (!ready()) return *this; double x = 0; if (!sxs::getDouble(this->sb_->s_, this->sb_->rp_, x)) { v = 0; this->setstate(ios_base::failbit); return *this; } v = (I)x; ateof(); return *this; }
  basic_istream& operator>>(bool& v) { return ni(v); } basic_istream& operator>>(short& v) { return ni(v); } basic_istream& operator>>(unsigned short& v) { return ni(v); } basic_istream& operator>>(int& v) { return ni(v); } basic_istream& operator>>(unsigned& v) { return ni(v); } basic_istream& operator>>(long& v) { return ni(v); } basic_istream& operator>>(unsigned long& v) { return ni(v); } basic_istream& operator>>(long long& v) { return ni(v); } basic_istream& operator>>(unsigned long long& v) { return ni(v); }
  basic_istream& operator>>(float& v) { return nd(v); } basic_istream& operator>>(double& v) { return nd(v); } basic_istream& operator>>(long double& v) { double d; nd(d); v = d; return *this; }
  basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); } basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  int_type get() { gc_ = 0; if (!ready(false)) return T::eof(); gc_ = 1; return T::to_int_type(this->sb_->s_[this->sb_->rp_++]); } basic_istream& get(C& c) { int_type i = get(); if (i != T::eof()) c = T::to_char_type(i); return *this; }
  int_type peek() { if (!this->good() || !this->sb_) return T::eof(); if (this->sb_->rp_ >= this->sb_->s_.size()) { this->st_ |= ios_base::eofbit; return T::eof(); } return T::to_int_type(this->sb_->s_[this->sb_->rp_]); }
  basic_istream& unget() { if (this->sb_ && this->sb_->rp_) this->sb_->rp_--; return *this; } basic_istream& putback(C) { return unget(); }
  basic_istream& read(C* p, streamsize n) { gc_ = 0; if (!this->good() || !this->sb_) { this->setstate(ios_base::failbit); return *this; } auto* b = this->sb_; while (gc_ < n) { if (b->rp_ >= b->s_.size()) { this->setstate(ios_base::eofbit | ios_base::failbit); break; } p[gc_++] = b->s_[b->rp_++]; } return *this; }
  streamsize readsome(C* p, streamsize n) { streamsize k = 0; auto* b = this->sb_; while (k < n && b && b->rp_ < b->s_.size()) p[k++] = b->s_[b->rp_++]; gc_ = k; return k; }
  basic_istream& getline(C* p, streamsize n, C d = '\n') { gc_ = 0; streamsize k = 0; if (!ready(false)) { if (n) p[0] = 0; return *this; } auto* b = this->sb_; for (;;) { if (b->rp_ >= b->s_.size()) { this->st_ |= ios_base::eofbit; break; } C c = b->s_[b->rp_]; if (c == d) { b->rp_++; gc_++; break; } if (k + 1 >= n) { this->setstate(ios_base::failbit); break; } p[k++] = c; gc_++; b->rp_++; } p[k] = 0; return *this; }
  basic_istream& ignore(streamsize n = 1, int_type d = T::eof()) { while (n-- > 0) { if (!ready(false)) break; C c = this->sb_->s_[this->sb_->rp_++]; if (d != T::eof() && T::to_int_type(c) == d) break; } return *this; }
  streamsize gcount() const { return gc_; } streampos tellg() { return streampos(this->fail() || !this->sb_ ? -1 : (streamoff)this->sb_->rp_); }
  basic_istream& seekg(streampos p) { this->st_ &= ~ios_base::eofbit; if (this->sb_) this->sb_->rp_ = (size_t)(streamoff)p; return *this; } basic_istream& seekg(streamoff o, ios_base::seekdir d) { this->st_ &= ~ios_base::eofbit; if (this->sb_) this->sb_->rp_ = (size_t)(o + (d == ios_base::beg ? 0 : d == ios_base::cur ? (streamoff)this->sb_->rp_ : (streamoff)this->sb_->s_.size())); return *this; }
  virtual ~basic_istream() {}
};
template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: basic_iostream() {} explicit basic_iostream(basic_streambuf<C, T>* b) { this->init(b); } virtual ~basic_iostream() {} };
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <class C, class T, class A> class basic_stringbuf : public basic_streambuf<C, T> { public: basic_stringbuf() {} explicit basic_stringbuf(const basic_string<C, T, A>& s) { this->s_ = s; } basic_string<C, T, A> str() const { return this->s_; } void str(const basic_string<C, T, A>& s) { this->s_ = s; this->rp_ = 0; } };
template <class C, class T, class A> class basic_istringstream : public basic_istream<C, T> { basic_stringbuf<C, T, A> b_; public: basic_istringstream() { this->init(&b_); } explicit basic_istringstream(ios_base::openmode) { this->init(&b_); } explicit basic_istringstream(const basic_string<C, T, A>& s, ios_base::openmode = ios_base::in) : b_(s) { this->init(&b_); } basic_string<C, T, A> str() const { return b_.str(); } void str(const basic_string<C, T, A>& s) { b_.str(s); } basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&b_); } };
template <class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> { basic_stringbuf<C, T, A> b_; public: basic_ostringstream() { this->init(&b_); } explicit basic_ostringstream(ios_base::openmode) { this->init(&b_); } explicit basic_ostringstream(const basic_string<C, T, A>& s, ios_base::openmode = ios_base::out) : b_(s) { this->init(&b_); } basic_string<C, T, A> str() const { return b_.str(); } void str(const basic_string<C, T, A>& s) { b_.str(s); } basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&b_); } };
template <class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> { basic_stringbuf<C, T, A> b_; public: basic_stringstream() { this->init(&b_); } explicit basic_stringstream(ios_base::openmode) { this->init(&b_); } explicit basic_stringstream(const basic_string<C, T, A>& s, ios_base::openmode = ios_base::in | ios_base::out) : b_(s) { this->init(&b_); } basic_string<C, T, A> str() const { return b_.str(); } void str(const basic_string<C, T, A>& s) { b_.str(s); } basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&b_); } };
_GLIBCXX_END_NAMESPACE_CXX11
template <class C, class T> class basic_filebuf : public basic_streambuf<C, T> { public: bool open_ = false, wr_ = false; string nm_;
  bool openf(const string& n, ios_base::openmode m) { nm_ = n; wr_ = m & ios_base::out; auto& f = sxs::files(); auto it = f.find(n); if (wr_) { this->s_.clear(); if ((m & (ios_base::app | ios_base::ate)) || ((m & ios_base::in) && !(m & ios_base::trunc))) { if (it != f.end()) this->s_ = it->second; else if (m & ios_base::in) return false; } open_ = true; return true; } if (it == f.end()) return false; this->s_ = it->second; this->rp_ = 0; open_ = true; return true; }
  bool closef() { if (!open_) return false; if (wr_) sxs::files()[nm_] = this->s_; open_ = false; return true; } bool is_open() const { return open_; } ~basic_filebuf() { closef(); } };
#define SX_FS(NAME, BASE, DEF, FORCE) template <class C, class T> class NAME : public BASE<C, T> { basic_filebuf<C, T> b_; public: NAME() { this->init(&b_); } explicit NAME(const char* n, ios_base::openmode m = DEF) { this->init(&b_); open(n, m); } explicit NAME(const string& n, ios_base::openmode m = DEF) { this->init(&b_); open(n, m); } void open(const string& n, ios_base::openmode m = DEF) { if (!b_.openf(n, m | FORCE)) this->setstate(ios_base::failbit); else this->clear(); } void open(const char* n, ios_base::openmode m = DEF) { open(string(n), m); } void close() { if (!b_.closef()) this->setstate(ios_base::failbit); } bool is_open() const { return b_.is_open(); } basic_filebuf<C, T>* rdbuf() const { return const_cast<basic_filebuf<C, T>*>(&b_); } };
SX_FS(basic_ifstream, basic_istream, ios_base::in, ios_base::in)
SX_FS(basic_ofstream, basic_ostream, ios_base::out, ios_base::out)
SX_FS(basic_fstream, basic_iostream, (ios_base::in | ios_base::out), 0)
#undef SX_FS
inline ostream& operator<<(ostream& o, const char* s) { if (o.sb_) o.emit(s); return o; } inline ostream& operator<<(ostream& o, const signed char* s) { if (o.sb_) o.emit((const char*)s); return o; } inline ostream& operator<<(ostream& o, const unsigned char* s) { if (o.sb_) o.emit((const char*)s); return o; }
inline ostream& operator<<(ostream& o, char c) { if (o.sb_) o.emit(string(1, c)); return o; } inline ostream& operator<<(ostream& o, signed char c) { return o << (char)c; } inline ostream& operator<<(ostream& o, unsigned char c) { return o << (char)c; }
inline ostream& operator<<(ostream& o, const string& s) { if (o.sb_) o.emit(s); return o; }
template <class X> inline ostream& operator<<(ostream&& o, const X& x) { static_cast<ostream&>(o) << x; return o; }
inline istream& operator>>(istream& i, char& c) { if (i.ready()) { c = i.sb_->s_[i.sb_->rp_++]; } return i; } inline istream& operator>>(istream& i, unsigned char& c) { char x = 0; if (i >> x) c = (unsigned char)x; return i; } inline istream& operator>>(istream& i, signed char& c) { char x = 0; if (i >> x) c = (signed char)x; return i; }
inline istream& operator>>(istream& i, string& s) { s.clear(); if (!i.ready()) return i; auto* b = i.sb_; while (b->rp_ < b->s_.size() && !sxs::sp(b->s_[b->rp_])) s.push_back(b->s_[b->rp_++]); i.ateof(); return i; }
inline istream& getline(istream& i, string& s, char d) { s.clear(); if (!i.ready(false)) return i; auto* b = i.sb_; for (;;) { if (b->rp_ >= b->s_.size()) { i.st_ |= ios_base::eofbit; break; } char c = b->s_[b->rp_++]; if (c == d) break; s.push_back(c); } return i; }
inline istream& getline(istream& i, string& s) { return getline(i, s, '\n'); }
template <class C, class T> basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { return o.put('\n'); } template <class C, class T> basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { return o.put(0); } template <class C, class T> basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o; }
template <class C, class T> basic_istream<C, T>& ws(basic_istream<C, T>& i) { auto* b = i.sb_; while (b && b->rp_ < b->s_.size() && sxs::sp(b->s_[b->rp_])) b->rp_++; return i; }
#define SX_M(n, f, m) inline ios_base& n(ios_base& b) { b.setf(ios_base::f, m); return b; }
SX_M(dec, dec, ios_base::basefield) SX_M(hex, hex, ios_base::basefield) SX_M(oct, oct, ios_base::basefield) SX_M(fixed, fixed, ios_base::floatfield) SX_M(scientific, scientific, ios_base::floatfield) SX_M(left, left, ios_base::adjustfield) SX_M(right, right, ios_base::adjustfield) SX_M(internal, internal, ios_base::adjustfield) SX_M(boolalpha, boolalpha, ios_base::boolalpha) SX_M(skipws, skipws, ios_base::skipws) SX_M(showpos, showpos, ios_base::showpos) SX_M(showpoint, showpoint, ios_base::showpoint) SX_M(uppercase, uppercase, ios_base::uppercase) SX_M(showbase, showbase, ios_base::showbase)
#undef SX_M
inline ios_base& noboolalpha(ios_base& b) { b.unsetf(ios_base::boolalpha); return b; } inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; }
struct sx_setw { int n; }; struct sx_setp { int n; }; struct sx_setf { char c; }; struct sx_setfl { ios_base::fmtflags f; };
inline sx_setw setw(int n) { return {n}; } inline sx_setp setprecision(int n) { return {n}; } inline sx_setf setfill(char c) { return {c}; } inline sx_setfl setiosflags(ios_base::fmtflags f) { return {f}; } inline sx_setfl resetiosflags(ios_base::fmtflags) { return {0}; }
inline ostream& operator<<(ostream& o, sx_setw w) { o.width(w.n); return o; } inline ostream& operator<<(ostream& o, sx_setp w) { o.precision(w.n); return o; } inline ostream& operator<<(ostream& o, sx_setf w) { o.fill(w.c); return o; } inline ostream& operator<<(ostream& o, sx_setfl w) { o.setf(w.f); return o; }
inline istream& operator>>(istream& o, sx_setw) { return o; } inline istream& operator>>(istream& o, sx_setp) { return o; }
template <class X> struct sx_null_stream { static X v; }; 
extern ostream cout, cerr, clog; extern istream cin;
inline streamsize sx_unused_() { return 0; }
}
