// Soundness of divisibility masks.
#include "pbt.h"
#include "mathic/stdinc.h"
#include "mathic/DivMask.h"
#include <deque>
#include <limits>
#include <memory>

namespace {
  using mathic::DivMask;
  template<class E> struct Mono {
    std::vector<E> e;
    bool operator==(const Mono& m) const {return e == m.e;}
  };
  template<class E, bool UDM> struct Conf {
    typedef E Exponent;
    static const bool UseDivMask = UDM;
    size_t varCount;
    size_t getVarCount() const {return varCount;}
    E getExponent(const Mono<E>& m, size_t var) const {
      PCHECK(var < varCount, "an exponent of variable " << var << " of " << varCount << " is asked for");
      return m.e[var];
    }
    bool divides(const Mono<E>& a, const Mono<E>& b) const {
      for (size_t v = 0; v < varCount; ++v) if (b.e[v] < a.e[v]) return false;
      return true;
    }
  };
  template<class E> std::string text(const Mono<E>& m) {
    std::ostringstream o;
    for (size_t v = 0; v < m.e.size(); ++v) o << (v ? "," : "(") << static_cast<long double>(m.e[v]);
    o << ')';
    return o.str();
  }

  template<class E, bool UDM> void prop(pbt::Src& s) {
    typedef Conf<E, UDM> C;
    typedef Mono<E> M;
    typedef DivMask::Calculator<C> Calc;
    static const size_t varCounts[] = {1, 2, 3, 4, 5, 7, 8, 10, 15, 16, 17, 30, 31, 32, 33, 40, 64, 65};
    C conf;
    static const size_t hugeCounts[] = {2, 30, 100, 257, 1000, 3000};
    conf.varCount = pbt::huge ? hugeCounts[s.draw(6)] : varCounts[s.small(18)];
    pbt::Bulk bulk(pbt::huge ? s.draw(1u << 30) : 0);
    auto rd = [&](unsigned long long n) -> unsigned long long {return pbt::huge ? bulk(n) : s.draw(n);};
    const size_t varCount = conf.varCount;
    const unsigned long long top = static_cast<unsigned long long>(std::numeric_limits<E>::max());
    unsigned long long bound = top;
    switch (s.draw(4)) {
    case 0: bound = std::min<unsigned long long>(top, 3); break;
    case 1: bound = std::min<unsigned long long>(top, 40); break;
    case 2: bound = std::min<unsigned long long>(top, 100000); break;
    }
    std::vector<int> mode(varCount);
    const bool mixed = s.flag();
    for (size_t v = 0; v < varCount && mixed; ++v) mode[v] = static_cast<int>(s.draw(4));
    auto someExp = [&](size_t v) -> E {
      switch (mode[v]) {
      case 1: return static_cast<E>(0);
      case 2: return static_cast<E>(bound - rd(std::min<unsigned long long>(bound, 4) + 1));
      case 3: return static_cast<E>(rd(std::min<unsigned long long>(bound, 2) + 1));
      }
      return static_cast<E>(rd(bound) + rd(2));
    };
    Calc calc(conf);
    std::vector<M> pool;
    auto gen = [&]() -> M {
      M m;
      const size_t how = pool.empty() ? 0 : pbt::huge ? rd(5) : s.weighted({3, 1, 4, 4, 2});
      if (how == 0) {
        for (size_t v = 0; v < varCount; ++v) m.e.push_back(someExp(v));
        return m;
      }
      m = pool[rd(pool.size())];
      if (how == 1) return m;
      for (size_t n = 1 + rd(4); n > 0; --n) {
        E& e = m.e[rd(varCount)];
        const unsigned long long x = static_cast<unsigned long long>(e);
        const unsigned long long d = rd(2) == 1 ? 1 : rd(bound) + 1;
        const bool up = how == 2 || (how == 4 && rd(2) == 1);
        if (up) e = static_cast<E>(bound - x < d ? bound : x + d);
        else e = static_cast<E>(x < d ? 0 : x - d);
      }
      return m;
    };
    auto rebuild = [&]() {
      std::vector<M> r;
      const size_t n = pbt::huge ? s.draw(1 + 600000 / varCount) : s.draw(5) == 4 ? s.draw(60) : s.draw(8);
      for (size_t i = 0; i < n; ++i) r.push_back(gen());
      std::vector<M> copy(r);
      const size_t how = s.draw(4);
      if (how == 0) calc.rebuild(r.begin(), r.end(), conf);
      else if (how == 1) calc.rebuild(r.data(), r.data() + r.size(), conf);
      else if (how == 2) {std::deque<M> d(r.begin(), r.end()); calc.rebuild(d.begin(), d.end(), conf);}
      else calc.rebuildDefault(conf);
      PLOG(s, (how == 3 ? "rebuild by default" : "rebuild from a range of ") << n);
      for (size_t i = 0; i < n && pool.size() < 1000; ++i) if (rd(2) == 1) pool.push_back(copy[i]);
    };
    size_t dividing = 0, notDividing = 0, ruledOut = 0, combined = 0;
    if (s.flag(2, 3)) rebuild();
    for (pbt::List l(s, 12, 40, 80); l.next();) {
      if (s.draw(12) == 11) rebuild();
      const M a = gen();
      pool.push_back(a);
      const M b = gen();
      pool.push_back(b);
      const bool div = conf.divides(a, b);
      ++(div ? dividing : notDividing);
      if (varCount < 100) PLOG(s, text(a) << (div ? " divides " : " does not divide ") << text(b));
      typedef DivMask::Extender<M, UDM> Ext;
      typedef DivMask::Extender<const M&, UDM> ExtRef;
      Ext ea(a, calc, conf);
      const ExtRef eb(b, calc, conf);
      PCHECK(ea.get() == a && eb.get() == b, "an extended monomial is not the monomial");
      PCHECK(!div || ea.canDivide(eb), "the mask rules out that " << text(a) << " divides " << text(b));
      PCHECK(ea.divides(eb, conf) == div, text(a) << (div ? " should divide " : " should not divide ") << text(b));
      PCHECK(eb.divides(ea, conf) == conf.divides(b, a), "wrong divisibility of " << text(a) << " by " << text(b));
      if (!ea.canDivide(eb)) ++ruledOut;
      Ext again;
      again = ea;
      again.get() = b;
      again.recalculateDivMask(calc, conf);
      PCHECK(again.canDivide(eb) && eb.canDivide(again), "the recalculated mask of " << text(b) << " rules out that it divides itself");
      PCHECK(again.divides(ea, conf) == conf.divides(b, a), "wrong divisibility after recalculating a mask");
      // a lower bound of several
      if (s.draw(3) == 2) {
        ++combined;
        DivMask::HasDivMask<UDM> low;
        std::vector<M> members;
        for (size_t n = 1 + s.draw(5); n > 0; --n) {
          members.push_back(gen());
          const Ext m(members.back(), calc, conf);
          if (UDM && members.size() == 1 && s.flag()) low = m; else low.updateToLowerBound(m);
        }
        for (size_t k = 0; k < 3; ++k) {
          const M q = k == 0 ? b : gen();
          const Ext eq(q, calc, conf);
          for (size_t i = 0; i < members.size(); ++i)
            if (conf.divides(members[i], q)) PCHECK(low.canDivide(eq), "the combined mask of " << members.size()
              << " monomials rules out dividing " << text(q) << " which " << text(members[i]) << " divides");
        }
      }
    }
    s.labelIf(dividing > 0, "divides");
    s.labelIf(notDividing > 0, "does not divide");
    s.labelIf(ruledOut > 0, "ruled out by masks");
    s.labelIf(combined > 0, "combined masks");
    s.labelIf(varCount > 32, "more variables than bits");
    if (dividing >= 2 && notDividing >= 1) s.nontrivial();
  }

  template<class E> void raw(pbt::Src& s) { // masks on their own
    typedef Conf<E, true> C;
    C conf;
    conf.varCount = 1 + s.small(40);
    DivMask::Calculator<C> calc(conf);
    std::vector<Mono<E> > range(s.draw(6));
    const unsigned long long top = static_cast<unsigned long long>(std::numeric_limits<E>::max());
    const unsigned long long bound = s.flag() ? top : 10;
    for (size_t i = 0; i < range.size(); ++i)
      for (size_t v = 0; v < conf.varCount; ++v) range[i].e.push_back(static_cast<E>(s.draw(bound)));
    calc.rebuild(range.begin(), range.end(), conf);
    for (pbt::List l(s, 5, 20, 40); l.next();) {
      Mono<E> a, b;
      for (size_t v = 0; v < conf.varCount; ++v) {
        const unsigned long long x = s.draw(bound);
        a.e.push_back(static_cast<E>(x));
        b.e.push_back(static_cast<E>(s.flag() ? x : x + s.draw(bound - x + 1)));
      }
      PLOG(s, text(a) << " divides " << text(b));
      DivMask ma(a, calc, conf), mb(b, calc, conf), mc;
      PCHECK(ma.canDivide(mb), "the mask rules out that " << text(a) << " divides " << text(b));
      mc.recalculate(a, calc, conf);
      PCHECK(mc == ma && !(mc != ma), "the mask of " << text(a) << " depends on how it was computed");
      PCHECK(DivMask().canDivide(ma) && ma.canDivide(DivMask::getMaxMask()), "the least or the greatest mask is not the least or greatest");
      DivMask both(mb);
      both.combineAnd(ma);
      PCHECK(both.canDivide(ma) && both.canDivide(mb), "a combined mask is not a lower bound");
      s.nontrivial();
    }
    s.label("raw masks");
  }
}
#define EXPONENT(T) PBT_VARIANT("masks of " #T, 4, (prop<T, true>)); PBT_VARIANT("raw masks of " #T, 1, raw<T>)
EXPONENT(int);
EXPONENT(unsigned);
EXPONENT(short);
EXPONENT(unsigned char);
EXPONENT(signed char);
EXPONENT(long long);
EXPONENT(unsigned long long);
PBT_VARIANT("no masks of int", 2, (prop<int, false>));
