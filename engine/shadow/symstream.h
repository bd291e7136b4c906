// Output files of the program live in (per-path) memory.
#ifndef SYMSTREAM_H
#define SYMSTREAM_H
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <map>
#include <cstdio>
std::map<std::string, std::string> &symMemFiles();
std::string symExpand(char marker);            // next piece of text for the marker; "" = nothing more
bool symEager();                               // expand markers of a line when the line is read from the file
namespace std {
class sym_ofstream : public std::ostringstream {
  std::string name_; bool open_;
 public:
  sym_ofstream() : open_(false) {}
  explicit sym_ofstream(const char *n, std::ios_base::openmode = std::ios_base::out) : name_(n), open_(true) {}
  explicit sym_ofstream(const std::string &n, std::ios_base::openmode = std::ios_base::out) : name_(n), open_(true) {}
  void open(const char *n, std::ios_base::openmode = std::ios_base::out) { name_ = n; open_ = true; }
  void open(const std::string &n, std::ios_base::openmode = std::ios_base::out) { name_ = n; open_ = true; }
  bool is_open() const { return open_; }
  void close() { if (open_) symMemFiles()[name_] = str(); open_ = false; }
  ~sym_ofstream() { close(); }
};
// Input text. Some texts are symbolic: a marker character stands for characters that are decided (by the solver) when they are read.
class sym_inbuf : public std::streambuf {
  std::string d_; size_t p_; bool file_; char c_;
 public:
  sym_inbuf() : p_(0), file_(false), c_(0) {}
  void set(const std::string &d, bool file) { d_ = d; p_ = 0; file_ = file; setg(0, 0, 0); }
  const std::string &text() const { return d_; }
 protected:
  int underflow() {
    if (gptr() && gptr() < egptr()) return (unsigned char)c_;
    for (;;) {
      if (p_ >= d_.size()) { setg(0, 0, 0); return -1; }
      char m = d_[p_];
      if (m == 2 ? file_ : m == 1 ? (!file_ || symEager()) : false) { std::string s = symExpand(m); if (s.empty()) d_.erase(p_, 1); else d_.insert(p_, s); continue; }
      c_ = m; p_++; setg(&c_, &c_, &c_ + 1); return (unsigned char)c_;
    }
  }
};
class sym_istringstream : public std::istream {
  sym_inbuf b_;
 public:
  sym_istringstream() : std::istream(0) { rdbuf(&b_); }
  explicit sym_istringstream(const std::string &s, std::ios_base::openmode = std::ios_base::in) : std::istream(0) { b_.set(s, false); rdbuf(&b_); }
  std::string str() const { return b_.text(); }
  void str(const std::string &s) { b_.set(s, false); }
};
class sym_ifstream : public std::istream {
  sym_inbuf b_; bool open_;
 public:
  sym_ifstream() : std::istream(0), open_(false) { rdbuf(&b_); }
  explicit sym_ifstream(const char *n, std::ios_base::openmode = std::ios_base::in) : std::istream(0), open_(false) { rdbuf(&b_); open(n); }
  explicit sym_ifstream(const std::string &n, std::ios_base::openmode = std::ios_base::in) : std::istream(0), open_(false) { rdbuf(&b_); open(n.c_str()); }
  void open(const std::string &n, std::ios_base::openmode m = std::ios_base::in) { open(n.c_str(), m); }
  void open(const char *n, std::ios_base::openmode = std::ios_base::in) {
    auto it = symMemFiles().find(n);
    if (it != symMemFiles().end()) { b_.set(it->second, true); open_ = true; clear(); return; }
    std::FILE *f = std::fopen(n, "r"); if (!f) { setstate(std::ios_base::failbit); return; }
    std::string s; char x[4096]; size_t k; while ((k = std::fread(x, 1, sizeof x, f)) > 0) s.append(x, k); std::fclose(f); b_.set(s, true); open_ = true; clear();
  }
  bool is_open() const { return open_; }
  void close() { open_ = false; }
};
}
#define istringstream sym_istringstream
#define ifstream sym_ifstream
#define ofstream sym_ofstream
#endif
