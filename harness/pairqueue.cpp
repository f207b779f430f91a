// Model-based checks of mathic::PairQueue.
// FOCUS: 0 delivery and order, 1 retirement, 2 lifecycle and exceptions, 4 debug builds
#include "pbt.h"
#include <mathic/PairQueue.h>
#include <map>
#include <set>
#include <list>
#include <deque>
#ifndef FOCUS
#define FOCUS 0
#endif

namespace {
  struct Boom {};
  struct Cmp {explicit Cmp(int v): v(v) {} int v;};

  struct Ctx {
    int kind; long long mod;
    std::vector<unsigned char> retired;
    bool adding;
    long long throwIn; // callbacks left until an exception, -1 = never
    uint64_t callbacks, thrown;
    std::map<const void*, std::pair<size_t, size_t> > alive; // constructed pair data
    uint64_t constructed, destructed;
    std::string trouble;

    Ctx(): adding(false), throwIn(-1), callbacks(0), thrown(0), constructed(0), destructed(0) {}
    long long rank(size_t col, size_t row) const {
      const long long c = static_cast<long long>(col), r = static_cast<long long>(row);
      switch (kind) {
      case 0: return (c * 7919 + r * 104729 + c * r * 31) % mod;
      case 1: return c + r;
      case 2: return -(c + 3 * r);
      case 3: return r;
      case 4: return -c;
      default: return (c ^ r) % mod;
      }
    }
    bool isRetired(size_t i) const {return i < retired.size() && retired[i];}
    void note(const std::string& s) {if (trouble.empty()) trouble = s;}
    void mayThrow() {
      ++callbacks;
      if (throwIn == 0 && adding) {throwIn = -1; ++thrown; throw Boom();}
      if (throwIn > 0) --throwIn;
    }
    static std::string str(size_t c, size_t r) {
      std::ostringstream o; o << '(' << c << ',' << r << ')'; return o.str();
    }
  };

  struct Data {
    size_t col, row; long long rank; unsigned magic;
    static long count;
    Data(): col(~size_t(0)), row(~size_t(0)), rank(0), magic(0x11112222) {++count;}
    Data(const Data& d): col(d.col), row(d.row), rank(d.rank), magic(d.magic) {++count;}
    ~Data() {if (magic != 0x11112222) count -= 1000; magic = 0; --count;}
  };
  long Data::count = 0;
  struct FatData: Data {
    std::string text;
    FatData(): text(50, 'x') {}
  };
  // No default constructor: only the specialised functions may make it.
  struct TrackedData {
    size_t col, row; long long rank; unsigned magic; std::string text;
    explicit TrackedData(int): col(~size_t(0)), row(~size_t(0)), rank(0), magic(0x11112222), text(50, 'y') {}
    ~TrackedData() {magic = 0;}
  };

  template<class PD, int Tag>
  struct Conf {
    typedef PD PairData;
    typedef Cmp CompareResult;
    Ctx* ctx;
    explicit Conf(Ctx* c): ctx(c) {}
    void computePairData(size_t col, size_t row, PD& pd) const {
      Ctx& c = *ctx;
      if (col <= row) c.note("pair data computed for a pair with column <= row");
      if (c.isRetired(col) || c.isRetired(row))
        c.note("pair data computed for " + Ctx::str(col, row) + ", which involves a retired index");
      if (pd.magic != 0x11112222) c.note("pair data computed into an object that is not alive");
      c.mayThrow();
      pd.col = col; pd.row = row; pd.rank = c.rank(col, row);
      if (Tag == 1) {
        std::map<const void*, std::pair<size_t, size_t> >::iterator it = c.alive.find(&pd);
        if (it == c.alive.end()) c.note("pair data computed into an object that was not constructed");
        else it->second = std::make_pair(col, row);
      }
    }
    Cmp compare(size_t ca, size_t ra, const PD& a, size_t cb, size_t rb, const PD& b) const {
      Ctx& c = *ctx;
      if (a.magic != 0x11112222 || b.magic != 0x11112222) c.note("pair data compared after its destruction");
      if (a.col != ca || a.row != ra || b.col != cb || b.row != rb)
        c.note("comparison of " + Ctx::str(ca, ra) + " and " + Ctx::str(cb, rb) + " was given the pair data of " +
          Ctx::str(a.col, a.row) + " and " + Ctx::str(b.col, b.row));
      c.mayThrow();
      return Cmp(a.rank < b.rank ? -1 : a.rank > b.rank);
    }
    bool cmpLessThan(const Cmp& c) const {return c.v < 0;}
  };
  typedef Conf<Data, 0> Plain;
  typedef Conf<FatData, 0> Fatty;
  typedef Conf<TrackedData, 1> Tracked;
  typedef Conf<Data, 2> NoRetire;
}

namespace mathic {
  namespace PairQueueNamespace {
    template<>
    struct ConstructPairDataFunction<Tracked> {
      static void function(void* memory, Index col, Index row, Tracked& conf) {
        Ctx& c = *conf.ctx;
        if (c.isRetired(col) || c.isRetired(row)) c.note("pair data constructed for a retired index");
        c.mayThrow();
        TrackedData* d = new (memory) TrackedData(1);
        d->col = col; d->row = row; d->rank = c.rank(col, row);
        if (c.alive.count(d)) c.note("pair data constructed on top of living pair data");
        c.alive[d] = std::make_pair(size_t(col), size_t(row));
        ++c.constructed;
      }
    };
    template<>
    struct DestructPairDataFunction<Tracked> {
      static void function(TrackedData* pd, Index col, Index row, Tracked& conf) {
        Ctx& c = *conf.ctx;
        std::map<const void*, std::pair<size_t, size_t> >::iterator it = c.alive.find(pd);
        if (it == c.alive.end()) {
          c.note("destruct called for pair data that is not alive, with pair " + Ctx::str(col, row));
          return;
        }
        if (it->second != std::make_pair(size_t(col), size_t(row)))
          c.note("destruct called with pair " + Ctx::str(col, row) + " on the pair data of " +
            Ctx::str(it->second.first, it->second.second));
        c.alive.erase(it);
        pd->~TrackedData();
        ++c.destructed;
      }
    };
    template<>
    struct SupportRetirement<NoRetire> {static const bool value = false;};
  }
}

namespace {
  template<class C>
  struct Run {
    typedef mathic::PairQueue<C> Q;
    pbt::Src& s; Ctx c; std::unique_ptr<Q> q;
    std::map<std::pair<size_t, size_t>, long long> live;
    std::map<long long, std::set<std::pair<size_t, size_t> > > byRank;
    size_t columns, unpopped; // unpopped counts retired pairs too
    size_t pops, adds, retires, throws, emptyCols, mostLive; bool wide;

    explicit Run(pbt::Src& s): s(s), columns(0), unpopped(0), pops(0), adds(0), retires(0), throws(0),
      emptyCols(0), mostLive(0), wide(false) {}

    void add(size_t col, size_t row) {
      const long long r = c.rank(col, row);
      live[std::make_pair(col, row)] = r;
      byRank[r].insert(std::make_pair(col, row));
    }
    void del(std::pair<size_t, size_t> p) {
      const long long r = live[p];
      live.erase(p);
      byRank[r].erase(p);
      if (byRank[r].empty()) byRank.erase(r);
    }
    void check(const char* after) {
      PCHECK(c.trouble.empty(), c.trouble << " (during " << after << ")");
      PCHECK(q->empty() == live.empty(), "empty() is " << q->empty() << " after " << after << " but "
        << live.size() << " pairs remain");
      PCHECK(q->columnCount() == columns, "columnCount() is " << q->columnCount() << " after " << after
        << ", should be " << columns);
      const size_t n = q->pairCount();
      if (retires == 0)
        PCHECK(n == live.size(), "pairCount() is " << n << " after " << after << ", should be " << live.size());
      else
        PCHECK(n >= live.size() && n <= unpopped, "pairCount() is " << n << " after " << after
          << ", but " << live.size() << " unretired pairs remain");
      if (!live.empty()) checkTop(after);
    }
    std::pair<size_t, size_t> checkTop(const char* after) {
      const std::pair<size_t, size_t> p = q->topPair();
      PCHECK(!c.isRetired(p.first) && !c.isRetired(p.second), "after " << after << " the top pair "
        << Ctx::str(p.first, p.second) << " involves a retired index");
      PCHECK(live.count(p), "after " << after << " the top pair is " << Ctx::str(p.first, p.second)
        << ", which is not in the queue");
      PCHECK(live[p] == byRank.rbegin()->first, "after " << after << " the top pair "
        << Ctx::str(p.first, p.second) << " has rank " << live[p] << ", but the maximum is " << byRank.rbegin()->first);
      const typename C::PairData& d = q->topPairData();
      PCHECK(d.magic == 0x11112222, "top pair data is not alive");
      PCHECK(d.col == p.first && d.row == p.second && d.rank == live[p], "the top pair is "
        << Ctx::str(p.first, p.second) << " but its pair data belongs to " << Ctx::str(d.col, d.row));
      return p;
    }
    template<class It>
    bool addRange(It b, It e) {
      c.adding = true;
      bool ok = true;
      try {
        q->addColumnDescending(b, e);
      } catch (const Boom&) {ok = false;}
      c.adding = false;
      c.throwIn = -1;
      return ok;
    }
    void addColumn(bool inject) {
      const size_t col = columns;
      std::vector<size_t> rows;
      if (col > 0) {
        const int how = static_cast<int>(s.draw(4));
        std::set<size_t> set;
        if (how == 0 && col <= 40) {
          for (size_t r = 0; r < col; ++r) set.insert(r);
        } else if (how == 1) {
          // empty column
        } else {
          size_t n = 1 + s.draw(how == 2 ? 4 : 20);
          for (; n > 0; --n) {
            size_t r;
            switch (col > 300 ? s.draw(4) : 0) {
            case 0: r = s.draw(col); break;
            case 1: r = s.draw(16); break;
            case 2: r = col - 1 - s.draw(8); break;
            default: r = std::min<size_t>(65536 - 5 + s.draw(10), col - 1);
            }
            set.insert(r);
          }
        }
        for (size_t r: set) if (!c.isRetired(r)) rows.push_back(r);
        std::stable_sort(rows.begin(), rows.end(), [&](size_t a, size_t b) {return c.rank(col, a) > c.rank(col, b);});
        // shuffle among equals a little
        if (rows.size() > 1 && s.flag())
          for (size_t i = 0; i + 1 < rows.size(); ++i)
            if (c.rank(col, rows[i]) == c.rank(col, rows[i + 1]) && s.flag()) std::swap(rows[i], rows[i + 1]);
      }
      if (inject) c.throwIn = static_cast<long long>(s.small(12));
      pushColumn(rows, static_cast<int>(s.draw(4)), inject);
    }
    void pushColumn(const std::vector<size_t>& rows, int how, bool inject) {
      const size_t col = columns;
      if (s.verbose) {
        std::ostringstream o;
        for (size_t r: rows) o << ' ' << r;
        if (inject) o << " throwing at callback " << c.throwIn;
        PLOG(s, "add column " << col << " rows" << o.str());
      }
      bool ok;
      const uint64_t before = c.thrown;
      switch (how) {
      case 0: ok = addRange(rows.begin(), rows.end()); break;
      case 1: {std::vector<int> v(rows.begin(), rows.end()); ok = addRange(v.data(), v.data() + v.size()); break;}
      case 2: {std::list<unsigned> v(rows.begin(), rows.end()); ok = addRange(v.begin(), v.end()); break;}
      default: {std::deque<size_t> v(rows.rbegin(), rows.rend()); ok = addRange(v.rbegin(), v.rend());}
      }
      if (ok) {
        PCHECK(before == c.thrown, "an exception thrown by a callback was swallowed");
        ++columns; ++adds;
        if (rows.empty()) ++emptyCols;
        unpopped += rows.size();
        for (size_t r: rows) add(col, r);
        c.retired.push_back(0);
      } else ++throws;
      check(ok ? "adding a column" : "an exception while adding a column");
    }
    void pop() {
      const std::pair<size_t, size_t> p = checkTop("nothing");
      PLOG(s, "pop, top is " << Ctx::str(p.first, p.second));
      q->pop();
      del(p);
      --unpopped;
      ++pops;
    }
    void retire(size_t i) {
      PLOG(s, "retire " << i);
      c.retired[i] = 1;
      std::vector<std::pair<size_t, size_t> > gone;
      for (auto& l: live) if (l.first.first == i || l.first.second == i) gone.push_back(l.first);
      for (auto& g: gone) del(g);
      ++retires;
      q->retireIndex(i);
      checkRetired();
      check("retiring an index");
    }
    /// Thousands of columns, up to a few hundred thousand pairs.
    void bulkPhase() {
      pbt::Bulk r(s.draw(1u << 30));
      const size_t more = 1 + s.draw(3000);
      const size_t most = 1000 + s.draw(200000);
      const size_t shape = s.draw(4), popRate = s.draw(4);
      const bool retiring = Q::SupportRetirement && FOCUS != 0 && s.flag();
      PLOG(s, "bulk: " << more << " columns, at most " << most << " pairs, shape " << shape << " pop rate " << popRate);
      for (size_t i = 0; i < more; ++i) {
        std::set<size_t> set;
        if (shape == 0 && columns < 400) for (size_t j = 0; j < columns; ++j) set.insert(j);
        else if (columns > 0) {
          size_t n = r(shape == 1 ? 3 : shape == 2 ? 600 : r(8) == 0 ? 5000 : 60);
          for (; n > 0; --n) set.insert(r(3) == 0 ? columns - 1 - r(std::min<size_t>(columns, 100)) : r(columns));
        }
        std::vector<size_t> rows;
        if (live.size() < most) for (size_t j: set) if (!c.isRetired(j)) rows.push_back(j);
        const size_t col = columns;
        std::stable_sort(rows.begin(), rows.end(), [&](size_t a, size_t b) {return c.rank(col, a) > c.rank(col, b);});
        if (FOCUS == 2 && r(40) == 0) c.throwIn = static_cast<long long>(r(rows.size() + 20));
        pushColumn(rows, static_cast<int>(r(4)), FOCUS == 2);
        for (size_t j = popRate == 0 ? 0 : r(2 * popRate * popRate * (rows.size() / 8 + 1)); j > 0 && !live.empty(); --j) pop();
        if (retiring && r(60) == 0) {
          const size_t k = r(4) == 0 && !live.empty() ? checkTop("nothing").first : r(columns);
          if (k < columns && !c.isRetired(k)) retire(k);
        }
        mostLive = std::max(mostLive, live.size());
      }
      check("the bulk");
    }
    void checkRetired() {
      const size_t step = columns > 200 ? 97 : 1;
      for (size_t i = 0; i < columns; i += step)
        PCHECK(q->retired(i) == c.isRetired(i), "retired(" << i << ") is " << q->retired(i));
    }

    void run() {
      Data::count = 0;
      c.kind = static_cast<int>(s.draw(6));
      static const long long mods[] = {1000003, 50, 5, 2, 1};
      c.mod = mods[s.draw(5)];
      const bool canRetire = Q::SupportRetirement && (FOCUS == 1 || (FOCUS != 0 ? s.flag() : s.flag(1, 4)));
      const bool canThrow = FOCUS == 2; // debug code compares too, so no throwing there
      PLOG(s, "order " << c.kind << " mod " << c.mod << (canRetire ? " with retirement" : ""));
      q.reset(new Q(C(&c)));
      check("construction");
      (void)q->name();
      if (pbt::huge ? s.flag(1, 4) : FOCUS != 2 ? s.flag(1, 12) : s.flag(1, 40)) { // wide queue: beyond 16 bit
        wide = true;
        const size_t target = 65536 - 6 + s.draw(9);
        PLOG(s, "add " << target << " empty columns");
        std::vector<size_t> none;
        while (columns < target) {
          q->addColumnDescending(none.begin(), none.end());
          ++columns;
        }
        c.retired.resize(columns, 0);
        check("adding empty columns");
      } else if (s.flag(1, 2)) { // a few columns to start from
        size_t n = s.draw(10);
        while (columns < n) addColumn(false);
      }
      if (pbt::huge) bulkPhase();
      const unsigned wPop = s.flag() ? 4 : 2;
      for (pbt::List l(s, 12, 60, 250); l.next();) {
        const size_t op = s.weighted({8u, wPop * 2, 2u, canRetire ? (FOCUS == 1 ? 6u : 2u) : 0u,
          canThrow ? 6u : 0u, canRetire ? 2u : 0u, 1u});
        switch (op) {
        case 0: addColumn(false); break;
        case 1: if (!live.empty()) {pop(); check("pop");} break;
        case 2: {
          size_t n = s.draw(30);
          for (; n > 0 && !live.empty(); --n) pop();
          check("several pops");
          break;
        }
        case 3: {
          if (columns == 0) break;
          size_t i = s.draw(columns);
          if (!c.isRetired(i)) retire(i);
          break;
        }
        case 4: addColumn(true); break;
        case 5: { // retire an index of the top pair
          if (live.empty()) break;
          const std::pair<size_t, size_t> p = checkTop("nothing");
          retire(s.flag() ? p.first : p.second);
          break;
        }
        default: (void)q->getMemoryUse(); checkRetired();
        }
      }
      const bool drain = !s.flag(1, 5);
      if (drain) {
        long long last = 0; bool first = true;
        while (!live.empty()) {
          PCHECK(!q->empty(), "empty while draining, but " << live.size() << " pairs remain");
          const long long r = byRank.rbegin()->first;
          pop();
          PCHECK(first || r <= last, "popped rank grew");
          first = false; last = r;
        }
        check("draining");
        if (s.flag(1, 3)) {
          addColumn(false);
          while (!live.empty()) pop();
          check("second draining");
        }
      }
      finish();
    }
    void finish() {
      q.reset();
      PCHECK(c.trouble.empty(), c.trouble << " (during destruction)");
      PCHECK(Data::count == 0, Data::count << " pair data objects are left over (or destructed twice)");
      PCHECK(c.alive.empty(), c.alive.size() << " pair data objects were never destructed, e.g. of pair "
        << Ctx::str(c.alive.begin()->second.first, c.alive.begin()->second.second));
      PCHECK(c.constructed == c.destructed, "constructed " << c.constructed << " destructed " << c.destructed);
      s.labelIf(wide, "beyond 16 bit");
      s.labelIf(retires > 0, "retired");
      s.labelIf(throws > 0, "exception injected");
      s.labelIf(emptyCols > 0, "empty column");
      s.labelIf(mostLive > 10000, "more than 10000 pairs");
      s.labelIf(pops > 50, "more than 50 pops");
      bool nt = adds >= 3 && pops >= 3;
      if (FOCUS == 1) nt = nt && retires >= 1;
      if (FOCUS == 2) nt = adds >= 3 && (throws >= 1 || (pops >= 3 && retires >= 1));
      if (nt) s.nontrivial();
    }
  };
  template<class C> void go(pbt::Src& s) {Run<C> r(s); r.run();}
}
PBT_VARIANT("pair queue plain", 3, go<Plain>);
PBT_VARIANT("pair queue fat data", 2, go<Fatty>);
PBT_VARIANT("pair queue tracked data", FOCUS == 2 ? 8 : 3, go<Tracked>);
#if FOCUS != 1
PBT_VARIANT("pair queue without retirement", 2, go<NoRetire>);
#endif
