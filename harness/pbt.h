// A small property-based testing engine.
//
// Every random choice of a case is one number on a "tape". A tape is made by
// a seeded generator (search), replayed from a file (replay, shrinking) or
// decoded from bytes (coverage-guided fuzzing); the property code is the same
// in all three. Shrinking edits the tape: it deletes recorded spans, and
// lowers numbers.
#ifndef PBT_H
#define PBT_H
#include <cstdint>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <string>
#include <sstream>
#include <vector>
#include <functional>
#include <stdexcept>
#include <algorithm>

namespace pbt {
  struct Fail {
    explicit Fail(const std::string& m): msg(m) {}
    std::string msg;
  };
  struct Discard {};

  enum { MaxTape = 1 << 20, MaxSpans = 1 << 17, MaxLog = 1 << 20, MaxMsg = 4096 };

  struct Shared { // lives in shared memory, so that it survives a crash
    uint64_t cur;                   // index of the running case
    uint64_t state;                 // see Outcome
    uint64_t nTape, nSpans, nLog, overflow;
    uint64_t evaluations, discards, nontrivial;
    char msg[MaxMsg];
    uint64_t tape[MaxTape];
    uint32_t spanBegin[MaxSpans], spanEnd[MaxSpans];
    char log[MaxLog];
  };

  class Src {
  public:
    enum Mode { Random, Tape, Bytes };
    Src(Shared* sh): _sh(sh) {}

    void startRandom(uint64_t seed);
    void startTape(const uint64_t* t, size_t n);
    void startBytes(const uint8_t* d, size_t n);

    /// A number in [0, n). Zero is the simplest.
    uint64_t draw(uint64_t n);
    /// True with probability num/den; false is the simplest.
    bool flag(unsigned num = 1, unsigned den = 2) {return draw(den) >= den - num;}
    /// In [lo, hi]; lo is the simplest.
    long long range(long long lo, long long hi) {
      return lo + static_cast<long long>(draw(static_cast<uint64_t>(hi - lo) + 1));
    }
    template<class T> const T& pick(const std::vector<T>& v) {return v[draw(v.size())];}
    /// Index with the given weights.
    size_t weighted(std::initializer_list<unsigned> w);
    /// A number below n that is mostly small.
    uint64_t small(uint64_t n);

    /// Mark this case as non-trivial by the property's rule.
    void nontrivial() {_nontrivial = true;}
    bool isNontrivial() const {return _nontrivial;}
    /// Classify this case.
    void label(const char* l);
    void labelIf(bool c, const char* l) {if (c) label(l);}
    std::vector<std::string>& labels() {return _labels;}

    bool verbose;
    void logText(const std::string& s);

    // span marking for the shrinker
    size_t beginSpan();
    void endSpan(size_t id);
    bool planNext(size_t& left);
    size_t planSize(size_t a, size_t b, size_t c);
    Mode mode() const {return _mode;}
  private:
    uint64_t rnd();
    void record(uint64_t v);
    Shared* _sh;
    Mode _mode;
    uint64_t _s[4];
    const uint64_t* _t; size_t _n, _pos;
    const uint8_t* _d; size_t _dn, _dpos;
    bool _nontrivial;
    std::vector<std::string> _labels;
  };

  /// Loop helper: for (List l(s, 8, 60, 800); l.next();) {...}
  /// The length is mostly below the first number, sometimes up to the
  /// second and rarely up to the third. Each round is a span that can be
  /// deleted by the shrinker.
  class List {
  public:
    List(Src& s, size_t a, size_t b, size_t c):
      _s(s), _left(s.planSize(a, b, c)), _span(~size_t(0)), _count(0) {}
    bool next() {
      if (_span != ~size_t(0)) _s.endSpan(_span);
      _span = _s.beginSpan();
      if (_s.planNext(_left)) {++_count; return true;}
      _s.endSpan(_span);
      _span = ~size_t(0);
      return false;
    }
    size_t count() const {return _count;}
  private:
    Src& _s;
    size_t _left, _span, _count;
  };

  typedef void (*PropFn)(Src&);
  struct Variant {
    std::string name;
    unsigned weight;
    PropFn fn;
  };
  std::vector<Variant>& variants();
  struct Register {
    Register(const std::string& name, unsigned weight, PropFn fn);
  };

  /// Set for the stages that look at large structures.
  extern bool huge;
  /// Numbers that are not recorded choices, for bulk work in huge cases;
  /// seeded by one recorded choice.
  struct Bulk {
    uint64_t x;
    explicit Bulk(uint64_t seed = 1): x(seed * 2 + 1) {}
    uint64_t operator()(uint64_t n) {
      x += 0x9e3779b97f4a7c15ull;
      uint64_t y = x;
      y = (y ^ (y >> 30)) * 0xbf58476d1ce4e5b9ull;
      y = (y ^ (y >> 27)) * 0x94d049bb133111ebull;
      return n <= 1 ? 0 : (y ^ (y >> 31)) % n;
    }
  };

  int mainRun(int argc, char** argv);
}

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_VARIANT(name, weight, fn) \
  static ::pbt::Register PBT_CAT(pbtReg_, __COUNTER__)(name, weight, fn)

#define PFAIL(expr) do {std::ostringstream pf_; pf_ << expr; throw ::pbt::Fail(pf_.str());} while (0)
#define PCHECK(cond, expr) do {if (!(cond)) PFAIL(expr);} while (0)
#define PLOG(s, expr) do {if ((s).verbose) {std::ostringstream pl_; pl_ << expr << '\n'; (s).logText(pl_.str());}} while (0)
#endif
