// Small property-based-testing engine: every random decision of a case is one
// entry of a "choice sequence"; a case is a pure function of that sequence,
// so replay = re-run the sequence and shrinking = simplify the sequence.
#pragma once
#include <cstdint>
#include <algorithm>
#include <cstdio>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Fail {
  std::string tag; // stable class of the failure (shrinking keeps it)
  std::string msg;
};
// thrown to abandon a case that does not meet the stated precondition
struct Discard { };

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x = 1) : s(x) {}
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
};

// choice source
struct Src {
  Rng rng;
  const std::vector<uint32_t> *replay = nullptr;
  size_t pos = 0;
  uint32_t *rec = nullptr; // shared buffer: rec[0]=length, rec[1..]
  size_t cap = 0;
  std::vector<uint32_t> own;
  uint32_t raw(uint32_t n)
  {
    if (n <= 1)
      return 0;
    uint32_t v;
    if (replay) {
      v = pos < replay->size() ? (*replay)[pos] : 0;
      if (v >= n)
        v %= n;
    } else
      v = (uint32_t)(rng.next() % n);
    pos++;
    own.push_back(v);
    if (rec && own.size() < cap) {
      rec[own.size()] = v;
      rec[0] = (uint32_t)own.size();
    }
    return v;
  }
  // integer in [lo,hi]; the value lo is the simplest
  int in(int lo, int hi) { return hi <= lo ? lo : lo + (int)raw((uint32_t)(hi - lo + 1)); }
  // true with probability pct/100; false is the simplest
  bool pct(int p) { return (int)raw(100) >= 100 - p; }
  template < class T >
  T pick(const std::vector< T > &v) { return v[raw((uint32_t)v.size())]; }
  double dpick(std::initializer_list< double > l)
  {
    std::vector< double > v(l);
    return v[raw((uint32_t)v.size())];
  }
  int ipick(std::initializer_list< int > l)
  {
    std::vector< int > v(l);
    return v[raw((uint32_t)v.size())];
  }
  // weighted index
  int weighted(std::initializer_list< int > w)
  {
    int tot = 0;
    for (int x : w)
      tot += x;
    int r = (int)raw((uint32_t)tot), i = 0;
    for (int x : w) {
      if (r < x)
        return i;
      r -= x;
      i++;
    }
    return 0;
  }
};

// description of a case; written through to a shared buffer so that it
// survives a crash of the process
struct Desc : public std::ostream {
  struct Buf : public std::streambuf {
    std::string text;
    char *shared = nullptr;
    size_t cap = 0, len = 0;
    int overflow(int ch) override
    {
      if (ch != EOF) {
        char b = (char)ch;
        xsputn(&b, 1);
      }
      return ch;
    }
    std::streamsize xsputn(const char *p, std::streamsize n) override
    {
      text.append(p, (size_t)n);
      if (shared && len + (size_t)n < cap) {
        std::copy(p, p + n, shared + len);
        len += (size_t)n;
        shared[len] = 0;
      }
      return n;
    }
  } buf;
  Desc() : std::ostream(nullptr) { rdbuf(&buf); }
  std::string str() const { return buf.text; }
};

struct Ctx {
  Src &s;
  bool nontrivial = false;
  bool thorough = false;
  Desc d; // human readable description of the case
  std::map< std::string, long > labels;
  std::string scratch; // scratch directory of this run
  explicit Ctx(Src &src) : s(src) {}
  void label(const std::string &l, long k = 1) { labels[l] += k; }
  [[noreturn]] void fail(const std::string &tag, const std::string &msg) { throw Fail{ tag, msg }; }
};

struct Prop {
  const char *id;
  const char *name;
  void (*run)(Ctx &);
  long quick, thorough; // number of cases
  const char *rule;     // what counts as non-trivial
};

std::vector< Prop > &registry();
struct Reg {
  Reg(const Prop &p) { registry().push_back(p); }
};

template < class... A >
std::string cat(A &&...a)
{
  std::ostringstream o;
  o.precision(17);
  using expander = int[];
  (void)expander{ 0, ((o << a), 0)... };
  return o.str();
}

} // namespace pbt
