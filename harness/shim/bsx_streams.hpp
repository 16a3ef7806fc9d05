// Minimal stream model used only for the symbolic build: text accumulates in std::string, files live in an in-memory map.
#pragma once
#include <iosfwd>
#include <string>
#include <map>
#include <bits/ios_base.h>
#include <streambuf>
extern "C" { double strtod(const char*, char**); }
namespace bsxfs { inline std::map<std::string, std::string>& files() { static std::map<std::string, std::string> f; return f; } }
namespace std {
template <> class basic_ios<char, char_traits<char>> {
public:
  static constexpr _Ios_Openmode in = _S_in, out = _S_out, app = _S_app, ate = _S_ate, binary = _S_bin, trunc = _S_trunc;
  typedef char_traits<char> traits_type; typedef char char_type; typedef int int_type; bool bad_ = false, eof_ = false; int width_ = 0; bool boolalpha_ = false;
  explicit operator bool() const { return !bad_; }
  bool operator!() const { return bad_; }
  bool good() const { return !bad_ && !eof_; } bool fail() const { return bad_; } bool eof() const { return eof_; } bool bad() const { return bad_; }
  void clear() { bad_ = eof_ = false; } void setstate(int) { bad_ = true; }
  int precision(int) { return 6; } int precision() const { return 6; } int width(int w) { int o = width_; width_ = w; return o; } int width() const { return width_; }
  char fill(char) { return ' '; }
  ios_base::fmtflags flags() const { return ios_base::fmtflags(); }
};
template <> class basic_ostream<char, char_traits<char>> : virtual public basic_ios<char, char_traits<char>> {
public:
  std::string o_; bool discard_ = false;
  basic_ostream() {} explicit basic_ostream(bool d) : discard_(d) {}
  virtual ~basic_ostream() {}
  basic_ostream& put_(const char* p, size_t n) { if (!discard_) o_.append(p, n); return *this; }
  basic_ostream& str_(const std::string& s) { if (!discard_) o_.append(s); return *this; }
  basic_ostream& put(char c) { return put_(&c, 1); }
  basic_ostream& write(const char* p, long n) { return put_(p, n); }
  basic_ostream& flush() { return *this; }
  basic_ostream& operator<<(bool b) { if (discard_) return *this; return boolalpha_ ? str_(b ? "true" : "false") : str_(b ? "1" : "0"); }
  basic_ostream& operator<<(short v) { if (discard_) return *this; return str_(std::to_string(v)); }
  basic_ostream& operator<<(unsigned short v) { if (discard_) return *this; return str_(std::to_string(v)); }
  basic_ostream& operator<<(int v) { if (discard_) return *this; return str_(std::to_string(v)); }
  basic_ostream& operator<<(unsigned v) { if (discard_) return *this; return str_(std::to_string(v)); }
  basic_ostream& operator<<(long v) { if (discard_) return *this; return str_(std::to_string(v)); }
  basic_ostream& operator<<(unsigned long v) { if (discard_) return *this; return str_(std::to_string(v)); }
  basic_ostream& operator<<(long long v) { if (discard_) return *this; return str_(std::to_string(v)); }
  basic_ostream& operator<<(unsigned long long v) { if (discard_) return *this; return str_(std::to_string(v)); }
  basic_ostream& operator<<(double v) {
    if (discard_) return *this;
    if (v != v) return str_("nan"); if (v > 1e300) return str_("inf"); if (v < -1e300) return str_("-inf");
    long k = (long)v; if ((double)k == v) return str_(std::to_string(k));
    if (v < 0) { str_("-"); v = -v; k = -k; }
    long f = (long)((v - (double)k) * 1000000 + 0.5); std::string s = std::to_string(1000000 + f).substr(1); while (s.size() > 1 && s.back() == '0') s.pop_back();
    return str_(std::to_string(k) + "." + s);
  }
  basic_ostream& operator<<(float v) { return *this << (double)v; }
  basic_ostream& operator<<(long double v) { return *this << (double)v; }
  basic_ostream& operator<<(const void*) { return str_("0x1"); }
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
  basic_ostream& operator<<(basic_ios<char>& (*f)(basic_ios<char>&)) { f(*this); return *this; }
  basic_ostream& operator<<(ios_base& (*)(ios_base&)) { return *this; }
};
inline ostream& operator<<(ostream& o, const char* s) { return o.discard_ ? o : o.str_(s); }
inline ostream& operator<<(ostream& o, char c) { return o.put_(&c, 1); }
inline ostream& operator<<(ostream& o, unsigned char c) { char d = c; return o.put_(&d, 1); }
inline ostream& operator<<(ostream& o, signed char c) { char d = c; return o.put_(&d, 1); }
inline ostream& operator<<(ostream& o, const std::string& s) { return o.str_(s); }
inline ostream& endl(ostream& o) { return o.put('\n'); }
inline ostream& flush(ostream& o) { return o; }
inline ostream& ends(ostream& o) { return o; }
template <> class basic_istream<char, char_traits<char>> : virtual public basic_ios<char, char_traits<char>> {
public:
  std::string i_; size_t p_ = 0;
  virtual ~basic_istream() {}
  void skip_() { while (p_ < i_.size() && (i_[p_] == ' ' || i_[p_] == '\n' || i_[p_] == '\t' || i_[p_] == '\r')) p_++; if (p_ >= i_.size()) eof_ = true; }
  int get() { if (p_ >= i_.size()) { eof_ = bad_ = true; return -1; } return (unsigned char)i_[p_++]; }
  int peek() { if (bad_ || eof_) { bad_ = true; return -1; } if (p_ < i_.size()) return (unsigned char)i_[p_]; eof_ = true; return -1; }
  template <class T> basic_istream& num_(T& v) { skip_(); size_t s = p_; bool neg = false; if (p_ < i_.size() && (i_[p_] == '-' || i_[p_] == '+')) { neg = i_[p_] == '-'; p_++; } long r = 0; size_t d = 0; while (p_ < i_.size() && i_[p_] >= '0' && i_[p_] <= '9') { r = r * 10 + (i_[p_] - '0'); p_++; d++; } if (!d) { bad_ = true; p_ = s; v = 0; } else v = T(neg ? -r : r); if (p_ >= i_.size()) eof_ = true; return *this; }
  basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }
  basic_istream& operator>>(int& v) { return num_(v); } basic_istream& operator>>(long& v) { return num_(v); } basic_istream& operator>>(unsigned& v) { return num_(v); } basic_istream& operator>>(unsigned long& v) { return num_(v); }
  basic_istream& operator>>(double& v) { skip_(); char* e; v = strtod(i_.c_str() + p_, &e); if (e == i_.c_str() + p_) bad_ = true; p_ = e - i_.c_str(); return *this; }
  basic_istream& operator>>(float& v) { double d; *this >> d; v = d; return *this; }
};
template <> class basic_iostream<char, char_traits<char>> : public basic_istream<char>, public basic_ostream<char> {};
inline istream& operator>>(istream& i, std::string& s) { i.skip_(); s.clear(); while (i.p_ < i.i_.size() && i.i_[i.p_] != ' ' && i.i_[i.p_] != '\n' && i.i_[i.p_] != '\t') s += i.i_[i.p_++]; if (s.empty()) i.bad_ = true; return i; }
inline istream& operator>>(istream& i, char& c) { i.skip_(); if (i.p_ < i.i_.size()) c = i.i_[i.p_++]; else i.bad_ = true; return i; }
inline istream& ws(istream& i) { i.skip_(); return i; }
inline istream& getline(istream& i, std::string& s, char d) {
  if (i.bad_ || i.eof_ ) { i.bad_ = true; return i; }
  s.clear(); bool any = false; while (i.p_ < i.i_.size()) { char c = i.i_[i.p_++]; any = true; if (c == d) return i; s += c; }
  i.eof_ = true; if (!any) i.bad_ = true; return i;
}
inline istream& getline(istream& i, std::string& s) { return getline(i, s, '\n'); }
inline istream& getline(istream&& i, std::string& s, char d) { return getline(i, s, d); }
inline istream& getline(istream&& i, std::string& s) { return getline(i, s, '\n'); }
template <> class basic_ostringstream<char, char_traits<char>, allocator<char>> : public basic_ostream<char> { public: basic_ostringstream() {} explicit basic_ostringstream(const std::string& s) { o_ = s; } std::string str() const { return o_; } void str(const std::string& s) { o_ = s; } };
template <> class basic_istringstream<char, char_traits<char>, allocator<char>> : public basic_istream<char> { public: basic_istringstream() {} explicit basic_istringstream(const std::string& s) { i_ = s; } std::string str() const { return i_; } void str(const std::string& s) { i_ = s; p_ = 0; } };
template <> class basic_stringstream<char, char_traits<char>, allocator<char>> : public basic_iostream<char> { public: basic_stringstream() {} explicit basic_stringstream(const std::string& s) { i_ = s; o_ = s; } std::string str() const { return o_; } };
template <> class basic_ofstream<char, char_traits<char>> : public basic_ostream<char> { std::string f_; bool open_ = false; public: basic_ofstream() {} explicit basic_ofstream(const std::string& f, _Ios_Openmode = _S_out) : f_(f), open_(true) {} explicit basic_ofstream(const char* f, _Ios_Openmode = _S_out) : f_(f), open_(true) {} void open(const std::string& f, _Ios_Openmode = _S_out) { f_ = f; open_ = true; } bool is_open() const { return open_; } void close() { if (open_) { bsxfs::files()[f_] = o_; open_ = false; } } ~basic_ofstream() { close(); } };
template <> class basic_ifstream<char, char_traits<char>> : public basic_istream<char> { bool open_ = false; public: basic_ifstream() {} explicit basic_ifstream(const std::string& f, _Ios_Openmode = _S_in) { open(f); } explicit basic_ifstream(const char* f, _Ios_Openmode = _S_in) { open(f); } void open(const std::string& f, _Ios_Openmode = _S_in) { auto it = bsxfs::files().find(f); if (it != bsxfs::files().end()) { open_ = true; i_ = it->second; p_ = 0; } else bad_ = true; } bool is_open() const { return open_; } void close() { open_ = false; } };
template <> class basic_fstream<char, char_traits<char>> : public basic_iostream<char> { bool open_ = false; public: basic_fstream() {} explicit basic_fstream(const std::string& f, _Ios_Openmode = _S_in) { open(f); } void open(const std::string& f, _Ios_Openmode = _S_in) { auto it = bsxfs::files().find(f); if (it != bsxfs::files().end()) { open_ = true; i_ = it->second; p_ = 0; } else bad_ = true; } bool is_open() const { return open_; } void close() { open_ = false; } };
inline ostream cout(true), cerr(true), clog(true);
inline istream cin;
struct bsx_manip { int w = 0; };
inline bsx_manip setw(int w) { return bsx_manip{w}; }
inline bsx_manip setprecision(int) { return bsx_manip{}; }
inline bsx_manip setfill(char) { return bsx_manip{}; }
inline ostream& operator<<(ostream& o, bsx_manip) { return o; }
}
