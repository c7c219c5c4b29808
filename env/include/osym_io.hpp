// A small replacement for the standard stream classes over an in-memory file system, so that
// code using streams can be executed symbolically (libstdc++'s own need the locale machinery).
// Only <iosfwd>, <ios>, <istream>, <ostream>, <iostream>, <sstream>, <fstream>, <iomanip> are
// replaced.  The classes live in an inline namespace, so the native replay can link libstdc++.
#ifndef OSYM_IO_HPP
#define OSYM_IO_HPP
#define _GLIBCXX_IOSFWD 1
#define _GLIBCXX_IOS 1
#define _GLIBCXX_OSTREAM 1
#define _GLIBCXX_ISTREAM 1
#define _GLIBCXX_IOSTREAM 1
#define _GLIBCXX_SSTREAM 1
#define _GLIBCXX_FSTREAM 1
#define _GLIBCXX_IOMANIP 1
#define _OSTREAM_INSERT_H 1
#define _STREAMBUF_ITERATOR_H 1
#include <bits/c++config.h>
namespace std {
template <class C> struct char_traits;
template <class C, class T = char_traits<C>> class istreambuf_iterator;
template <class C, class T = char_traits<C>> class ostreambuf_iterator;
inline namespace osym_io {
template <class C, class T = char_traits<C>> class basic_istream;
template <class C, class T = char_traits<C>> class basic_ostream;
template <class C, class T = char_traits<C>> class basic_streambuf;
class ios_base;
class ios;
class istream;
class ostream;
class iostream;
class stringstream;
class istringstream;
class ostringstream;
class ifstream;
class ofstream;
class fstream;
}
typedef long streamsize_osym_;
}
#include <bits/postypes.h>
#endif
#if !defined(OSYM_IO_FULL) && defined(OSYM_IO_WANT_FULL)
#define OSYM_IO_FULL
#include <string>
#include <cstring>
#include <cstdint>
#include <cmath>
extern "C" {
int osym_fmt_double(char* buf, int size, int prec, int mode, double v);
double osym_parse_double(char const* s, int* used);
}
namespace osymfs {
struct Node { std::string path; bool dir, link; std::string data; };
Node* find(char const* path);
Node* symlink(char const* target, char const* path); Node* create(char const* path, bool dir);
}
namespace std {
inline namespace osym_io {
class ios_base {
 public:
  typedef int fmtflags; typedef int iostate; typedef int openmode; typedef int seekdir;
  enum { dec = 2, hex = 8, oct = 64, basefield = 74, fixed = 4, scientific = 256, floatfield = 260, boolalpha = 1, left = 32, right = 128, internal = 16, adjustfield = 176, skipws = 4096, showpos = 2048, showbase = 512, uppercase = 16384, unitbuf = 8192, showpoint = 1024 };
  enum { goodbit = 0, badbit = 1, eofbit = 2, failbit = 4 };
  enum { app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32 };
  enum { beg = 0, cur = 1, end = 2 };
  fmtflags flags() const { return fl_; }
  fmtflags flags(fmtflags f) { fmtflags o = fl_; fl_ = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = fl_; fl_ |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; }
  void unsetf(fmtflags m) { fl_ &= ~m; }
  streamsize precision() const { return prec_; }
  streamsize precision(streamsize p) { streamsize o = prec_; prec_ = p; return o; }
  streamsize width() const { return width_; }
  streamsize width(streamsize w) { streamsize o = width_; width_ = w; return o; }
 protected:
  fmtflags fl_ = dec | skipws; streamsize prec_ = 6, width_ = 0; char fill_ = ' ';
};
struct osym_rdbuf { int pubsync() { return 0; } };
class ios : public ios_base {
 public:
  ios() {}
  explicit ios(decltype(nullptr)) {}
  bool good() const { return st_ == 0; }
  bool eof() const { return (st_ & eofbit) != 0; }
  bool fail() const { return (st_ & (failbit | badbit)) != 0; }
  bool bad() const { return (st_ & badbit) != 0; }
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
  iostate rdstate() const { return st_; }
  void clear(iostate s = 0) { st_ = s; }
  void setstate(iostate s) { st_ |= s; }
  ios& copyfmt(ios const& o) { fl_ = o.fl_; prec_ = o.prec_; width_ = o.width_; fill_ = o.fill_; return *this; }
  char fill() const { return fill_; }
  char fill(char c) { char o = fill_; fill_ = c; return o; }
  osym_rdbuf* rdbuf() { return &rb_; }
  std::string* osym_buf() { return b_; }
  virtual ~ios() {}
 protected:
  iostate st_ = 0; std::string* b_ = nullptr; size_t rp_ = 0, wp_ = 0; bool append_ = false; osym_rdbuf rb_;
};
class ostream : virtual public ios {
 public:
  typedef char char_type;
  ostream() {}
  ostream& write(char const* s, streamsize n) { put_(s, (size_t)n); return *this; }
  ostream& put(char c) { put_(&c, 1); return *this; }
  ostream& flush() { return *this; }
  streampos tellp() const { return streampos((streamoff)wp_); }
  ostream& seekp(streampos p) { wp_ = (size_t)(streamoff)p; return *this; }
  ostream& seekp(streamoff o, int dir) { wp_ = dir == beg ? (size_t)o : dir == cur ? wp_ + (size_t)o : (b_ ? b_->size() : 0) + (size_t)o; return *this; }
  ostream& operator<<(ostream& (*f)(ostream&)) { return f(*this); }
  ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  ostream& operator<<(bool x) { if (fl_ & boolalpha) return field_(x ? "true" : "false", x ? 4 : 5); return int_((uint64_t)x, false, false); }
  ostream& operator<<(short x) { return sint_(x, (unsigned short)x); }
  ostream& operator<<(unsigned short x) { return int_(x, false); }
  ostream& operator<<(int x) { return sint_(x, (unsigned)x); }
  ostream& operator<<(unsigned x) { return int_(x, false); }
  ostream& operator<<(long x) { return sint_(x, (unsigned long)x); }
  ostream& operator<<(unsigned long x) { return int_(x, false); }
  ostream& operator<<(long long x) { return sint_(x, (unsigned long long)x); }
  ostream& operator<<(unsigned long long x) { return int_(x, false); }
  ostream& operator<<(float x) { return dbl_((double)x); }
  ostream& operator<<(double x) { return dbl_(x); }
  ostream& operator<<(long double x) { return dbl_((double)x); }
  ostream& operator<<(void const* p) { if (!b_) return *this; return field_("0x1", 3); (void)p; }
  ostream& field_(char const* s, size_t n) {
    if (!b_) { width_ = 0; return *this; }
    size_t w = (size_t)width_; width_ = 0;
    if (w > n) { bool l = (fl_ & adjustfield) == left; if (l) put_(s, n); for (size_t i = n; i < w; ++i) put_(&fill_, 1); if (!l) put_(s, n); }
    else put_(s, n);
    return *this;
  }
 private:
  void put_(char const* s, size_t n) {
    if (fail()) return;
    if (!b_) { return; }
    if (append_) wp_ = b_->size();
    if (wp_ == b_->size()) { b_->append(s, n); wp_ += n; }
    else { if (wp_ + n > b_->size()) b_->resize(wp_ + n); memcpy(&(*b_)[0] + wp_, s, n); wp_ += n; }
  }
  ostream& sint_(long long x, unsigned long long u) {
    if (!b_) return *this;
    if ((fl_ & basefield) == hex || (fl_ & basefield) == oct) return int_(u, false);
    return x < 0 ? int_(0ull - (unsigned long long)x, true) : int_((unsigned long long)x, false, (fl_ & showpos) != 0);
  }
  ostream& int_(unsigned long long u, bool neg, bool plus = false) {
    if (!b_) return *this;
    char t[32]; int n = 32; unsigned base = (fl_ & basefield) == hex ? 16 : (fl_ & basefield) == oct ? 8 : 10;
    do { unsigned d = (unsigned)(u % base); u /= base; t[--n] = (char)(d < 10 ? '0' + d : ((fl_ & uppercase) ? 'A' : 'a') + (d - 10)); } while (u != 0);
    if (neg) t[--n] = '-'; else if (plus) t[--n] = '+';
    return field_(t + n, (size_t)(32 - n));
  }
  ostream& dbl_(double x) {
    if (!b_) return *this;
    char t[400]; int n = osym_fmt_double(t, 400, (int)prec_, fl_ & floatfield, x);
    return field_(t, (size_t)n);
  }
};
inline ostream& operator<<(ostream& o, char c) { return o.field_(&c, 1); }
inline ostream& operator<<(ostream& o, signed char c) { return o.field_((char const*)&c, 1); }
inline ostream& operator<<(ostream& o, unsigned char c) { return o.field_((char const*)&c, 1); }
inline ostream& operator<<(ostream& o, char const* s) { if (!s) { o.setstate(ios_base::badbit); return o; } if (!o.osym_buf()) return o; return o.field_(s, strlen(s)); }
inline ostream& operator<<(ostream& o, unsigned char const* s) { return o << (char const*)s; }
inline ostream& operator<<(ostream& o, signed char const* s) { return o << (char const*)s; }
inline ostream& operator<<(ostream& o, std::string const& s) { return o.field_(s.data(), s.size()); }
inline ostream& endl(ostream& o) { o.put('\n'); return o; }
inline ostream& ends(ostream& o) { o.put('\0'); return o; }
inline ostream& flush(ostream& o) { return o; }
inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base& defaultfloat(ios_base& b) { b.unsetf(ios_base::floatfield); return b; }
inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base& oct(ios_base& b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base& skipws(ios_base& b) { b.setf(ios_base::skipws); return b; }
inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; }
struct osym_setprec { int n; }; struct osym_setw { int n; }; struct osym_setfill { char c; };
inline osym_setprec setprecision(int n) { return osym_setprec{n}; }
inline osym_setw setw(int n) { return osym_setw{n}; }
inline osym_setfill setfill(char c) { return osym_setfill{c}; }
inline ostream& operator<<(ostream& o, osym_setprec p) { o.precision(p.n); return o; }
inline ostream& operator<<(ostream& o, osym_setw p) { o.width(p.n); return o; }
inline ostream& operator<<(ostream& o, osym_setfill p) { o.fill(p.c); return o; }
class istream : virtual public ios {
 public:
  typedef char char_type;
  istream() {}
  streamsize gcount() const { return gc_; }
  int peek() { gc_ = 0; if (!good()) { setstate(failbit); return -1; } int c = cur_(); if (c < 0) setstate(eofbit); return c; }
  int get() { gc_ = 0; if (!good()) { setstate(failbit); return -1; } int c = cur_(); if (c < 0) { setstate(eofbit | failbit); return -1; } ++rp_; gc_ = 1; return c; }
  istream& get(char& c) { int x = get(); if (x >= 0) c = (char)x; return *this; }
  istream& unget() { clear(st_ & ~eofbit); if (rp_ == 0) setstate(badbit); else --rp_; return *this; }
  istream& putback(char) { return unget(); }
  istream& ignore(streamsize n = 1, int d = -1) { for (streamsize i = 0; i < n; ++i) { int c = get(); if (c < 0) { clear(st_ & ~failbit); break; } if (c == d) break; } return *this; }
  istream& read(char* s, streamsize n) {
    gc_ = 0; if (!good()) { setstate(failbit); return *this; }
    size_t left = b_ ? b_->size() - rp_ : 0; size_t m = (size_t)n < left ? (size_t)n : left;
    if (m) memcpy(s, b_->data() + rp_, m); rp_ += m; gc_ = (streamsize)m; if (m < (size_t)n) setstate(eofbit | failbit); return *this;
  }
  streampos tellg() { if (fail()) return streampos(streamoff(-1)); return streampos((streamoff)rp_); }
  istream& seekg(streampos p) { clear(st_ & ~eofbit); if (!fail()) { if ((streamoff)p < 0 || (size_t)(streamoff)p > (b_ ? b_->size() : 0)) setstate(failbit); else rp_ = (size_t)(streamoff)p; } return *this; }
  istream& seekg(streamoff o, int dir) { clear(st_ & ~eofbit); if (!fail()) { streamoff base = dir == beg ? 0 : dir == ios_base::cur ? (streamoff)rp_ : (streamoff)(b_ ? b_->size() : 0); return seekg(streampos(base + o)); } return *this; }
  istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  istream& operator>>(bool& x) { long v = 0; long long r; if (!int_(r, 0, 1)) { x = r != 0; return *this; } (void)v; x = r != 0; return *this; }
  istream& operator>>(short& x) { long long r; int_(r, INT16_MIN, INT16_MAX); if (set_) x = (short)r; return *this; }
  istream& operator>>(unsigned short& x) { unsigned long long r; uint_(r, UINT16_MAX); if (set_) x = (unsigned short)r; return *this; }
  istream& operator>>(int& x) { long long r; int_(r, INT32_MIN, INT32_MAX); if (set_) x = (int)r; return *this; }
  istream& operator>>(unsigned& x) { unsigned long long r; uint_(r, UINT32_MAX); if (set_) x = (unsigned)r; return *this; }
  istream& operator>>(long& x) { long long r; int_(r, INT64_MIN, INT64_MAX); if (set_) x = (long)r; return *this; }
  istream& operator>>(unsigned long& x) { unsigned long long r; uint_(r, UINT64_MAX); if (set_) x = (unsigned long)r; return *this; }
  istream& operator>>(long long& x) { long long r; int_(r, INT64_MIN, INT64_MAX); if (set_) x = r; return *this; }
  istream& operator>>(unsigned long long& x) { unsigned long long r; uint_(r, UINT64_MAX); if (set_) x = r; return *this; }
  istream& operator>>(double& x) { double r; dbl_(r); if (set_) x = r; return *this; }
  istream& operator>>(float& x) { double r; dbl_(r); if (set_) x = (float)r; return *this; }
  bool sentry_(bool noskip) {
    if (!good()) { setstate(failbit); return false; }
    if (!noskip && (fl_ & skipws)) { for (;;) { int c = cur_(); if (c < 0) { setstate(eofbit | failbit); return false; } if (!sp_(c)) break; ++rp_; } }
    return true;
  }
  static bool sp_(int c) { return c == ' ' || (c >= 9 && c <= 13); }
  int cur_() { if (!b_ || rp_ >= b_->size()) return -1; return (unsigned char)(*b_)[rp_]; }
  void adv_() { ++rp_; }
 private:
  // digits of an integer; returns the magnitude (saturated) and flags
  bool digits_(bool& neg, unsigned long long& mag, bool& over) {
    neg = false; mag = 0; over = false; int nd = 0; unsigned base = (fl_ & basefield) == hex ? 16 : (fl_ & basefield) == oct ? 8 : 10;
    int c = cur_(); if (c == '+' || c == '-') { neg = c == '-'; adv_(); c = cur_(); }
    for (;; c = cur_()) {
      int d; if (c >= '0' && c <= '9') d = c - '0'; else if (base == 16 && c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (base == 16 && c >= 'A' && c <= 'F') d = c - 'A' + 10; else break;
      if ((unsigned)d >= base) break;
      if (mag > (UINT64_MAX - (unsigned)d) / base) over = true; else mag = mag * base + (unsigned)d;
      ++nd; adv_();
    }
    if (c < 0) setstate(eofbit);
    return nd > 0;
  }
  bool int_(long long& r, long long lo, long long hi) {
    set_ = false; if (!sentry_(false)) return false; set_ = true;
    bool neg, over; unsigned long long m; if (!digits_(neg, m, over)) { r = 0; setstate(failbit); return false; }
    unsigned long long lim = neg ? (unsigned long long)-(lo + 1) + 1ull : (unsigned long long)hi;
    if (over || m > lim) { r = neg ? lo : hi; setstate(failbit); return false; }
    r = neg ? (long long)(0ull - m) : (long long)m; return true;
  }
  bool uint_(unsigned long long& r, unsigned long long hi) {
    set_ = false; if (!sentry_(false)) return false; set_ = true;
    bool neg, over; unsigned long long m; if (!digits_(neg, m, over)) { r = 0; setstate(failbit); return false; }
    if (over || m > hi) { r = hi; setstate(failbit); return false; }
    r = (neg ? 0ull - m : m) & hi; return true;
  }
  bool dbl_(double& r) {
    set_ = false; if (!sentry_(false)) return false; set_ = true;
    char t[512]; int n = 0; bool dot = false, e = false, dig = false; int c = cur_();
    if (c == '+' || c == '-') { t[n++] = (char)c; adv_(); c = cur_(); }
    for (; n < 500; c = cur_()) {
      if (c >= '0' && c <= '9') { dig = true; t[n++] = (char)c; adv_(); }
      else if (c == '.' && !dot && !e) { dot = true; t[n++] = '.'; adv_(); }
      else if ((c == 'e' || c == 'E') && !e && dig) { e = true; t[n++] = 'e'; adv_(); c = cur_(); if (c == '+' || c == '-') { t[n++] = (char)c; adv_(); } }
      else break;
    }
    t[n] = 0; if (c < 0) setstate(eofbit);
    int used = 0; r = n ? osym_parse_double(t, &used) : 0.0;
    if (!n || used != n) { r = 0.0; setstate(failbit); return false; }
    if (r - r != 0.0) { r = r > 0 ? 1.7976931348623157e308 : -1.7976931348623157e308; setstate(failbit); return false; }
    return true;
  }
  streamsize gc_ = 0; bool set_ = false;
};
inline istream& operator>>(istream& i, char& c) { if (!i.sentry_(false)) return i; int x = i.cur_(); if (x < 0) { i.setstate(ios_base::eofbit | ios_base::failbit); return i; } c = (char)x; i.adv_(); return i; }
inline istream& operator>>(istream& i, signed char& c) { return i >> (char&)c; }
inline istream& operator>>(istream& i, unsigned char& c) { return i >> (char&)c; }
inline istream& operator>>(istream& i, std::string& s) {
  if (!i.sentry_(false)) return i;
  s.clear(); size_t n = 0; streamsize w = i.width(0); int c = i.cur_();
  while (c >= 0 && !istream::sp_(c) && (w <= 0 || (streamsize)n < w)) { s.push_back((char)c); ++n; i.adv_(); c = i.cur_(); }
  if (c < 0) i.setstate(ios_base::eofbit);
  if (!n) i.setstate(ios_base::failbit);
  return i;
}
inline istream& getline(istream& i, std::string& s, char delim = '\n') {
  if (!i.sentry_(true)) return i;
  s.clear(); size_t n = 0; int c = i.cur_();
  while (c >= 0 && c != (unsigned char)delim) { s.push_back((char)c); ++n; i.adv_(); c = i.cur_(); }
  if (c < 0) { i.setstate(ios_base::eofbit); if (!n) i.setstate(ios_base::failbit); } else i.adv_();
  return i;
}
inline istream& ws(istream& i) { while (i.cur_() >= 0 && istream::sp_(i.cur_())) i.adv_(); if (i.cur_() < 0) i.setstate(ios_base::eofbit); return i; }
inline istream& operator>>(istream& o, osym_setprec p) { o.precision(p.n); return o; }
inline istream& operator>>(istream& o, osym_setw p) { o.width(p.n); return o; }
inline istream& operator>>(istream& i, istream& (*f)(istream&)) { return f(i); }
class iostream : public istream, public ostream { public: typedef char char_type; iostream() {} };
class stringstream : public iostream {
 public:
  stringstream() { b_ = &s_; }
  explicit stringstream(int) { b_ = &s_; }
  explicit stringstream(std::string const& s, int m = 24) : s_(s) { b_ = &s_; if (m & (app | ate)) wp_ = s_.size(); }
  std::string str() const { return s_; }
  void str(std::string const& s) { s_ = s; rp_ = wp_ = 0; }
 private: stringstream(stringstream const&); std::string s_;
};
class ostringstream : public ostream {
 public:
  ostringstream() { b_ = &s_; }
  explicit ostringstream(int) { b_ = &s_; }
  explicit ostringstream(std::string const& s, int m = 16) : s_(s) { b_ = &s_; if (m & (app | ate)) wp_ = s_.size(); }
  std::string str() const { return s_; }
  void str(std::string const& s) { s_ = s; rp_ = wp_ = 0; }
 private: ostringstream(ostringstream const&); std::string s_;
};
class istringstream : public istream {
 public:
  istringstream() { b_ = &s_; }
  explicit istringstream(std::string const& s, int = 8) : s_(s) { b_ = &s_; }
  std::string str() const { return s_; }
  void str(std::string const& s) { s_ = s; rp_ = wp_ = 0; }
 private: istringstream(istringstream const&); std::string s_;
};
class osym_file : virtual public ios {
 public:
  bool is_open() const { return open_; }
  void close() { if (!open_) setstate(failbit); open_ = false; b_ = nullptr; }
 protected:
  void open_it(char const* p, int m) {
    if (open_) { setstate(failbit); return; }
    osymfs::Node* n = osymfs::find(p);
    bool w = (m & (out | app)) != 0, r = (m & in) != 0;
    if ((n && n->dir && w) || (!n && !(w && (!r || (m & (trunc | app)))))) { setstate(failbit); return; }
    if (!n) { n = osymfs::create(p, false); if (!n) { setstate(failbit); return; } }
    if ((m & trunc) || (w && !r && !(m & app))) n->data.clear();
    b_ = &n->data; rp_ = wp_ = 0; append_ = (m & app) != 0; if (m & ate) rp_ = wp_ = n->data.size(); open_ = true; clear();
  }
  bool open_ = false;
};
class ifstream : public istream, public osym_file {
 public:
  ifstream() {}
  explicit ifstream(char const* p, int m = 8) { open_it(p, m | in); }
  explicit ifstream(std::string const& p, int m = 8) { open_it(p.c_str(), m | in); }
  void open(char const* p, int m = 8) { open_it(p, m | in); }
  void open(std::string const& p, int m = 8) { open_it(p.c_str(), m | in); }
};
class ofstream : public ostream, public osym_file {
 public:
  ofstream() {}
  explicit ofstream(char const* p, int m = 16) { open_it(p, m | out); }
  explicit ofstream(std::string const& p, int m = 16) { open_it(p.c_str(), m | out); }
  void open(char const* p, int m = 16) { open_it(p, m | out); }
  void open(std::string const& p, int m = 16) { open_it(p.c_str(), m | out); }
};
class fstream : public iostream, public osym_file {
 public:
  fstream() {}
  explicit fstream(char const* p, int m = 24) { open_it(p, m); }
  explicit fstream(std::string const& p, int m = 24) { open_it(p.c_str(), m); }
  void open(char const* p, int m = 24) { open_it(p, m); }
  void open(std::string const& p, int m = 24) { open_it(p.c_str(), m); }
};
extern ostream cout, cerr, clog;
extern istream cin;
}
}
#endif
