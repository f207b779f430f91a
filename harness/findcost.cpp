// What divisor finders cost: exact divisibility tests per query, exponents
// read and entries compared per insertion, with every kind of acceleration.
#include "pbt.h"
#include <mathic.h>
#include <set>
#include <cmath>
#include <deque>
#ifndef PARTS
#define PART 0
#define PARTS 1
#endif

#ifdef FC_MEASURE
static FILE* fc_measure() {static FILE* f = fopen("/tmp/fcost/m.out", "a"); setlinebuf(f); return f;}
#endif
namespace fc {
  struct Ctx {
    size_t vars;
    std::vector<std::vector<int> > monos;
    std::vector<unsigned> tests; // exact tests of each entry since the last reset
    std::vector<int> touched;
    unsigned long long divides, exps, less;
    int query;
    Ctx(): vars(0), divides(0), exps(0), less(0), query(-1) {}
    bool div(int a, int b) {
      ++divides;
      const int e = a == query ? b : a;
      if (tests.size() < monos.size()) tests.resize(monos.size());
      if (tests[e]++ == 0) touched.push_back(e);
      const std::vector<int>& x = monos[a];
      const std::vector<int>& y = monos[b];
      for (size_t v = 0; v < vars; ++v) if (y[v] < x[v]) return false;
      return true;
    }
    bool smaller(int a, int b) const {return monos[a] < monos[b];}
    void begin(int q) {
      query = q;
      divides = exps = less = 0;
      for (size_t i = 0; i < touched.size(); ++i) tests[touched[i]] = 0;
      touched.clear();
    }
  };
  struct Opts {bool sort, cache, rebuilds; double ratio; size_t min;};
  template<bool UDM, bool UTDM, bool Packed, size_t LS, bool ULL>
  class Conf {
  public:
    typedef int Exponent;
    typedef int Entry;
    typedef int Monomial;
    Conf(Ctx* c, const Opts& o): c(c), o(o) {}
    size_t getVarCount() const {return c->vars;}
    int getExponent(int m, size_t var) const {++c->exps; return c->monos[m][var];}
    bool divides(int a, int b) const {return c->div(a, b);}
    bool isLessThan(int a, int b) const {++c->less; return c->smaller(a, b);}
    bool getSortOnInsert() const {return o.sort;}
    bool getUseDivisorCache() const {return o.cache;}
    bool getDoAutomaticRebuilds() const {return o.rebuilds;}
    double getRebuildRatio() const {return o.ratio;}
    size_t getRebuildMin() const {return o.min;}
    size_t getLeafSize() const {return LS;}
    static const bool UseDivMask = UDM;
    static const bool UseTreeDivMask = UTDM;
    static const bool UseLinkedList = ULL;
    static const bool PackedTree = Packed;
    static const size_t LeafSize = LS;
    static const bool AllowRemovals = true;
  private:
    Ctx* c;
    Opts o;
  };
  template<bool A, bool B, bool P, size_t LS, bool U> const size_t Conf<A, B, P, LS, U>::LeafSize;

  struct Collect {
    std::vector<int> v;
    size_t stop;
    Collect(): stop(~size_t(0)) {}
    bool proceed(const int& e) {v.push_back(e); return v.size() < stop;}
    void push_back(int e) {v.push_back(e);}
  };
  template<class F> void toFront(F& f, const int* e, int) {}
  template<class C> void toFront(mathic::DivList<C>& f, const int* e, long) {
    typename mathic::DivList<C>::iterator i = f.begin();
    for (; &*i != e; ++i) {}
    f.moveToFront(i);
  }

  template<class F, bool Tree, bool UDM, bool UTDM, size_t LS, bool ULL>
  void run(pbt::Src& s) {
    Ctx c;
    typedef typename F::Configuration C;
    pbt::Bulk r(s.draw(1u << 30));
    c.vars = 4 + s.draw(11);
    static const int bounds[] = {20, 8, 50, 300, 100000};
    const int bound = bounds[s.draw(5)];
    const size_t n = 800 + s.draw(pbt::huge ? 40000 : 2500);
    Opts o;
    o.sort = s.flag();
    o.cache = s.flag();
    o.rebuilds = s.flag();
    static const double ratios[] = {0.5, 0.1, 1.0, 2.0};
    o.ratio = ratios[s.draw(4)];
    o.min = 10 + s.draw(200);
    const size_t how = s.draw(3); // single, bulk, mixed
    PLOG(s, n << " monomials in " << c.vars << " variables up to " << bound << (o.sort ? " sort" : "") << (o.cache ? " cache" : "")
      << (o.rebuilds ? " rebuilds " : "") << o.ratio << '/' << o.min << " insertion " << how);
    // variables of the same scale, one of another scale, or one that starts elsewhere
    std::vector<int> low(c.vars), width(c.vars, bound + 1);
    const unsigned scales = static_cast<unsigned>(s.draw(4));
    if (scales != 0) {
      const size_t odd = s.draw(2) == 0 ? 0 : s.draw(c.vars);
      if (scales == 1) width[odd] *= 1000;
      else if (scales == 2) low[odd] = 1000 * bound;
      else for (size_t v = 0; v < c.vars; ++v) if (v != odd) low[v] = 1000 * bound;
      PLOG(s, "variable " << odd << " is different, " << scales);
    }
    std::set<std::vector<int> > known; // no duplicates, as trees refuse them
    while (c.monos.size() < n) {
      std::vector<int> m(c.vars);
      for (size_t v = 0; v < c.vars; ++v) m[v] = low[v] + static_cast<int>(r(width[v]));
      if (known.insert(m).second) c.monos.push_back(m);
    }
    const size_t firstQuery = n;
    const size_t queries = 60;
    for (size_t i = 0; i < queries; ++i) {
      std::vector<int> m(c.vars);
      for (size_t v = 0; v < c.vars; ++v) m[v] = low[v] + static_cast<int>(r(width[v]));
      c.monos.push_back(m);
    }
    F f(C(&c, o));
    const double lg = std::log2(static_cast<double>(n)) + 1;

    // ** insertion
    c.begin(-1);
    const size_t first = how == 0 ? 0 : how == 1 ? n : n / 4;
    size_t done = 0;
    if (first > 0) {
      std::vector<int> ids(first);
      for (size_t i = 0; i < first; ++i) ids[i] = static_cast<int>(i);
      f.insert(ids.begin(), ids.end());
      done = first;
    }
    for (; done < n; ++done) f.insert(static_cast<int>(done));
    PCHECK(f.size() == n, "size is wrong");
    { // every entry takes part in O(1 + 1/ratio) rebuilds of logarithmic cost, in a tree
      // that may be ill-balanced, and in its own insertion
      const double rounds = o.rebuilds && (UDM || Tree) ? 2 + 1.2 * (1 + 1 / o.ratio) : 2;
      const double perEntry = (UDM ? 40 + 4.0 * c.vars + (UTDM ? 40 : 0) : 0) + (Tree ? 8 * lg + 2.0 * c.vars : 0);
      const double expBound = rounds * perEntry * n + 10000;
#ifdef FC_MEASURE
      fprintf(fc_measure(), "M exps %d%d%d%zu%d reb%d how%zu %.3f\n", Tree, UDM, UTDM, LS, ULL, o.rebuilds, how, c.exps / expBound);
#endif
      PCHECK(c.exps <= expBound, c.exps << " exponents were read to insert " << n << " monomials, expected at most " << expBound);
      const double lessEach = !o.sort || (Tree && LS == 1) ? 0 : Tree ? 1.0 * LS : ULL ? 0.6 * n : 1.5 * lg + 3;
      const double lessBound = (Tree ? rounds * 0.3 * lg : o.rebuilds && UDM && ULL ? 3 : rounds) * lessEach * n + 10000;
#ifdef FC_MEASURE
      fprintf(fc_measure(), "M less %d%d%d%zu%d reb%d how%zu %.3f\n", Tree, UDM, UTDM, LS, ULL, o.rebuilds, how, c.less / lessBound);
#endif
      PCHECK(c.less <= lessBound, c.less << " comparisons were made to insert " << n << " monomials, expected at most " << lessBound);
    }
    const bool rebuilt = s.flag();
    if (rebuilt) {PLOG(s, "rebuild"); f.rebuild();}

    // ** queries
    size_t once = 1; // an entry may be tested once more for being the cached divisor
    unsigned long long total[4] = {0, 0, 0, 0}, results[4] = {0, 0, 0, 0};
    size_t repeated = 0;
    auto checkTests = [&](const char* what, size_t extra) {
      size_t twice = 0;
      for (size_t i = 0; i < c.touched.size(); ++i) {
        const unsigned t = c.tests[c.touched[i]];
        if (t > once) {
          twice += t - once;
          PCHECK(twice <= extra, what << " tested entry " << c.touched[i] << " for divisibility " << t << " times");
        }
      }
    };
    for (size_t i = 0; i < queries; ++i) {
      const int q = static_cast<int>(firstQuery + i);
      std::vector<int> div, mul;
      for (size_t e = 0; e < n; ++e) {
        bool d = true, m = true;
        for (size_t v = 0; v < c.vars; ++v) {
          d = d && c.monos[e][v] <= c.monos[q][v];
          m = m && c.monos[q][v] <= c.monos[e][v];
        }
        if (d) div.push_back(static_cast<int>(e));
        if (m) mul.push_back(static_cast<int>(e));
      }
      c.begin(q);
      const int* hit = f.findDivisor(q);
      PCHECK((hit != 0) == !div.empty(), "findDivisor is wrong");
      checkTests("findDivisor", Tree && o.cache ? 1 : 0);
      if (hit == 0) {total[0] += c.divides; ++results[0];}
      if (!Tree && o.sort) {
        size_t greater = 0;
        for (size_t k = 0; k < c.touched.size(); ++k) if (c.smaller(q, c.touched[k])) ++greater;
        PCHECK(greater <= 64, "findDivisor in a sorted list tested " << greater << " entries that are greater than the monomial");
      }
      if (hit != 0 && (Tree ? o.cache : !o.sort)) {
        // once more: the divisor is found at once
        if (!Tree) toFront(f, hit, 0L);
        c.begin(q);
        hit = f.findDivisor(q);
        PCHECK(hit != 0, "the divisor is not found again");
        PCHECK(c.divides <= 1, "a divisor that was found " << (Tree ? "with a divisor cache" : "and moved to the front")
          << " takes " << c.divides << " tests to be found again");
        ++repeated;
      }
      Collect d, m;
      c.begin(q);
      f.findAllDivisors(q, d);
      PCHECK(d.v.size() == div.size(), "findAllDivisors is wrong");
      checkTests("findAllDivisors", 0);
      total[1] += c.divides;
      if (!Tree && o.sort) {
        size_t greater = 0;
        for (size_t k = 0; k < c.touched.size(); ++k) if (c.smaller(q, c.touched[k])) ++greater;
        PCHECK(greater <= 64, "findAllDivisors in a sorted list tested " << greater << " entries that are greater than the monomial");
      }
      c.begin(q);
      f.findAllMultiples(q, m);
      PCHECK(m.v.size() == mul.size(), "findAllMultiples is wrong");
      checkTests("findAllMultiples", 0);
      total[2] += c.divides;
      results[1] += div.size(); results[2] += mul.size();
      if (div.size() > 1) { // stopped early
        Collect st;
        st.stop = 1;
        c.begin(q);
        f.findAllDivisors(q, st);
        PCHECK(st.v.size() == 1, "an enumeration goes on after it was stopped");
        checkTests("a stopped findAllDivisors", 0);
      }
    }
    { // removals: each entry is tested at most once
      Collect gone;
      const int q = static_cast<int>(firstQuery + s.draw(queries));
      c.begin(q);
      f.removeMultiples(q, gone);
      checkTests("removeMultiples", 0);
      PCHECK(f.size() + gone.v.size() == n, "removeMultiples is wrong");
      total[3] += c.divides;
    }
    static const char* const names[] = {"findDivisor without a divisor", "findAllDivisors", "findAllMultiples", "removeMultiples"};
    for (size_t k = 0; k < 3; ++k) {
      const double asked = k == 0 ? static_cast<double>(results[0]) : queries;
      if (asked < 20) continue;
      const double sofar = total[k] - (k == 0 ? 0.0 : static_cast<double>(results[k]));
      const double share = sofar / (asked * n);
#ifdef FC_MEASURE
      fprintf(fc_measure(), "M share%zu %d%d%d%zu%d %d how%zu sort%d vars%zu bound%d scales%u %.3f\n", k, Tree, UDM, UTDM, LS, ULL, rebuilt || how==1 || o.rebuilds, how, o.sort, c.vars, bound, scales, share);
#endif
      // masks are meant for the monomials they were last rebuilt for
      const bool tuned = UDM && (rebuilt || how == 1 || o.rebuilds);
      if (Tree || tuned)
        PCHECK(share <= (tuned ? 0.12 : 0.3), names[k] << " tests " << 100 * share << " % of the entries on average though they do not divide");
    }
    s.labelIf(scales > 0, "variables of different scales");
    s.labelIf(repeated > 0, "query repeated");
    s.labelIf(o.rebuilds, "automatic rebuilds");
    s.labelIf(results[1] > 0, "divisors found");
    if (results[1] > 0 && results[2] > 0) s.nontrivial();
  }
  template<bool UDM, bool UTDM, bool Packed, size_t LS> void tree(pbt::Src& s) {
    run<mathic::KDTree<Conf<UDM, UTDM, Packed, LS, false> >, true, UDM, UTDM, LS, false>(s);
  }
  template<bool UDM, bool ULL> void list(pbt::Src& s) {
    run<mathic::DivList<Conf<UDM, false, false, 1, ULL> >, false, UDM, false, 1, ULL>(s);
  }
}
using namespace fc;
#define ON(n) ((n) % PARTS == PART)
#define T(UDM, UTDM, P, LS) PBT_VARIANT("tree " #P " leaf " #LS " masks " #UDM "," #UTDM, 1, (tree<UDM, UTDM, P, LS>));
#define L(UDM, ULL) PBT_VARIANT("list linked " #ULL " masks " #UDM, 1, (list<UDM, ULL>));
#define binary false
#define packed true
#if ON(0)
T(false, false, binary, 1)
T(true, true, binary, 4)
#endif
#if ON(1)
T(false, false, packed, 1)
T(true, true, packed, 4)
#endif
#if ON(2)
T(true, false, binary, 2)
T(false, false, binary, 8)
#endif
#if ON(3)
T(true, false, packed, 2)
T(false, false, packed, 8)
#endif
#if ON(4)
T(true, true, binary, 1)
T(true, true, packed, 1)
#endif
#if ON(5)
L(false, false)
L(true, false)
L(false, true)
L(true, true)
#endif
