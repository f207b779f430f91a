// Reported memory use against counted allocations. All entries are flat, so
// what a structure allocates is what it needs to store them.
#include "pbt.h"
#include "alloc.h"
#include "finder.h"
#include <mathic/Heap.h>
#include <mathic/TourTree.h>
#include <mathic/Geobucket.h>
#include <mathic/StlSet.h>
#include <mathic/PairQueue.h>
#include <mathic/BitTriangle.h>
#include <mathic/HashTable.h>

namespace {
  /// Adds up what the structure under test allocates.
  struct Meter {
    long long owned;
    Meter(): owned(0) {}
    template<class F> auto in(F f) -> decltype(f()) {
      struct Scope {
        long long& o; long long base;
        Scope(long long& o): o(o), base(alloc::liveBytes) {}
        ~Scope() {o += alloc::liveBytes - base;}
      } sc(owned);
      return f();
    }
    size_t least, most;
    /// content: bytes that are stored at the least.
    template<class F> void check(F report, size_t content, const char* name, const char* after) {
      size_t r = 0, r2 = 0;
      in([&]() {r = report(); r2 = report();});
      PCHECK(r == r2, name << " reports " << r << " bytes and then " << r2 << " after " << after);
      PCHECK(r >= content, name << " reports " << r << " bytes after " << after << " but " << content << " bytes are stored");
      PCHECK(owned >= 0 && r <= static_cast<size_t>(owned) + owned / 2 + 128, name << " reports " << r << " bytes after "
        << after << " but has allocated " << owned);
      if (getenv("PBT_STATS") && owned > 1000) {FILE* f = fopen(getenv("PBT_STATS"), "a");
        fprintf(f, "%.3f %.3f %zu %lld %s\n", double(r) / owned, double(content) / r, r, owned, name); fclose(f);}
    }
  };

  // ---- queues
  template<size_t Pad> struct Entry {
    int key; char pad[Pad];
    Entry(int k = 0): key(k) {memset(pad, 1, Pad);}
  };
  template<size_t P> std::ostream& operator<<(std::ostream& o, const Entry<P>& e) {return o << e.key;}
  template<class E> struct QConf {
    typedef E Entry;
    typedef int CompareResult;
    int compare(const E& a, const E& b) const {return a.key < b.key ? -1 : a.key > b.key;}
    bool cmpLessThan(int c) const {return c < 0;}
    bool cmpEqual(int c) const {return c == 0;}
    E deduplicate(const E& a, const E&) const {return a;}
    static const bool supportDeduplication = false;
  };
  template<class E, bool Fast> struct TConf: QConf<E> {static const bool fastIndex = Fast;};
  template<class E, int Bits> struct GConf: QConf<E> {
    GConf(): minBucketSize(3), geoBase(2) {}
    size_t minBucketSize, geoBase;
    static const size_t insertFactor = 1 + (Bits & 1);
    static const bool trackFront = (Bits & 1) != 0;
    static const bool minBucketBinarySearch = (Bits & 2) != 0;
    static const bool premerge = (Bits & 4) != 0;
    static const bool collectMax = (Bits & 8) != 0;
    static const mathic::GeobucketBucketStorage bucketStorage = static_cast<mathic::GeobucketBucketStorage>(Bits / 16);
  };
  template<class Q> void clearOf(Q& q) {q.clear();}
  template<class C> void clearOf(mathic::StlSet<C>& q) {while (!q.empty()) q.pop();}
  template<class Q, class C> void queue(pbt::Src& s) {
    typedef typename C::Entry E;
    C conf;
    const size_t which = s.draw(4);
    genConf(conf, s, which);
    Meter m;
    std::unique_ptr<Q> q;
    {Q* p = 0; m.in([&]() {p = new Q(conf);}); m.owned -= sizeof(Q); q.reset(p);}
    std::string nameText = q->getName();
    const char* name = nameText.c_str();
    PLOG(s, nameText);
    size_t n = 0, most = 0;
    const bool grow = s.flag();
    auto check = [&](const char* after) {
      m.check([&]() {return q->getMemoryUse();}, n * sizeof(E), name, after);
      PCHECK(q->empty() == (n == 0), name << ": asking for the memory use changed whether it is empty");
    };
    check("construction");
    for (pbt::List l(s, 30, 200, 1500); l.next();) {
      switch (s.weighted({grow ? 20u : 8u, grow ? 5u : 2u, 8, 1, 2, 1})) {
      case 0: {
        const int k = static_cast<int>(s.draw(1000));
        PLOG(s, "push");
        m.in([&]() {q->push(E(k));}); ++n; check("push");
        break;
      }
      case 1: {
        const size_t c = s.draw(3) == 2 ? s.draw(300) : s.draw(20);
        std::vector<E> v;
        for (size_t i = 0; i < c; ++i) v.push_back(E(static_cast<int>(c - i)));
        PLOG(s, "push " << c);
        if (v.empty()) break;
        m.in([&]() {q->push(v.data(), v.data() + v.size());}); n += c; check("range push");
        break;
      }
      case 2: {
        if (n == 0) break;
        PLOG(s, "pop");
        const E top = q->top();
        m.check([&]() {return q->getMemoryUse();}, n * sizeof(E), name, "top");
        E e;
        m.in([&]() {e = q->pop();}); --n;
        PCHECK(e.key == top.key, name << ": asking for the memory use changed the contents");
        check("pop");
        break;
      }
      case 3: {
        size_t c = s.draw(500);
        PLOG(s, "pop " << c);
        m.in([&]() {for (; c > 0 && n > 0; --c, --n) q->pop();}); check("pops");
        break;
      }
      case 4: check("nothing"); break;
      default:
        if (s.draw(3) != 2) break;
        PLOG(s, "clear");
        m.in([&]() {clearOf(*q);}); n = 0; check("clear");
      }
      most = std::max(most, n);
    }
    s.labelIf(most > 200, "more than 200 entries");
    if (most >= 10) s.nontrivial();
  }
  template<class C> void genConf(C&, pbt::Src&, size_t) {}
  template<class E, int B> void genConf(GConf<E, B>& c, pbt::Src& s, size_t w) {
    c.minBucketSize = w == 3 ? 1 + s.draw(40) : 1 + w; c.geoBase = 2 + s.draw(4);
  }

  // ---- pair queue
  struct PData {long long rank; char pad[24];};
  struct PConf {
    typedef PData PairData;
    typedef int CompareResult;
    void computePairData(size_t c, size_t r, PData& d) const {d.rank = static_cast<long long>((c * 31 + r * 17) % 101);}
    int compare(size_t, size_t, const PData& a, size_t, size_t, const PData& b) const {return a.rank < b.rank ? -1 : a.rank > b.rank;}
    bool cmpLessThan(int c) const {return c < 0;}
  };
  void pairs(pbt::Src& s) {
    typedef mathic::PairQueue<PConf> Q;
    Meter m;
    std::unique_ptr<Q> q;
    {Q* p = 0; m.in([&]() {p = new Q(PConf());}); m.owned -= sizeof(Q); q.reset(p);}
    size_t live = 0, most = 0, columns = 0;
    for (pbt::List l(s, 40, 200, 600); l.next();) {
      switch (s.weighted({8, 5, 1})) {
      case 0: {
        const size_t col = q->columnCount();
        std::vector<unsigned> rows;
        const size_t every = 1 + s.draw(3);
        for (size_t r = s.draw(3); r < col; r += every) rows.push_back(static_cast<unsigned>(r));
        PLOG(s, "column of " << rows.size());
        m.in([&]() {q->addColumnDescending(rows.data(), rows.data() + rows.size());});
        live += rows.size(); ++columns;
        m.check([&]() {return q->getMemoryUse();}, live * 2, "PairQueue", "adding a column");
        break;
      }
      case 1: {
        size_t c = s.draw(3) == 2 ? s.draw(400) : 1;
        PLOG(s, "pop " << c);
        m.in([&]() {for (; c > 0 && !q->empty(); --c, --live) q->pop();});
        m.check([&]() {return q->getMemoryUse();}, live * 2, "PairQueue", "pop");
        break;
      }
      default: m.check([&]() {return q->getMemoryUse();}, live * 2, "PairQueue", "nothing");
      }
      PCHECK(q->columnCount() == columns && q->empty() == (live == 0), "asking a PairQueue for its memory use changed its contents");
      most = std::max(most, live);
    }
    if (most >= 20) s.nontrivial();
  }

  // ---- bit triangle
  void triangle(pbt::Src& s) {
    mathic::BitTriangle t;
    Meter m;
    size_t columns = 0;
    m.check([&]() {return t.getMemoryUse();}, 0, "BitTriangle", "construction");
    for (pbt::List l(s, 30, 80, 200); l.next();) {
      size_t c = s.draw(3) == 2 ? s.draw(60) : 1;
      if (columns > 1500) break;
      PLOG(s, "add " << c << " columns");
      m.in([&]() {for (; c > 0; --c, ++columns) t.addColumn();});
      if (columns > 1 && s.flag()) {
        const size_t r = s.draw(columns - 1);
        m.in([&]() {t.setBit(columns - 1, r, true);});
      }
      m.check([&]() {return t.getMemoryUse();}, columns * (columns > 0 ? columns - 1 : 0) / 2 / 8, "BitTriangle", "adding columns");
    }
    if (columns >= 10) s.nontrivial();
  }

  // ---- hash table
  template<size_t KPad, size_t VPad> struct HConf {
    struct Key {int k; char pad[KPad];};
    struct Value {char pad[VPad];};
    size_t hash(const Key& k) const {return static_cast<size_t>(k.k) * spread;}
    bool keysEqual(const Key& a, const Key& b) const {return a.k == b.k;}
    size_t spread;
  };
  template<class C> void table(pbt::Src& s) {
    typedef mathic::HashTable<C> T;
    C conf;
    static const size_t spreads[] = {1, 7919, 0, size_t(1) << 20};
    conf.spread = spreads[s.draw(4)];
    const unsigned bits = static_cast<unsigned>(s.draw(12));
    Meter m;
    std::unique_ptr<T> t;
    {T* p = 0; m.in([&]() {p = new T(conf, bits);}); m.owned -= sizeof(T); t.reset(p);}
    std::vector<typename T::Handle*> all;
    std::vector<int> keys;
    int next = 0;
    size_t most = 0;
    auto check = [&](const char* after) {
      m.check([&]() {return t->memoryUse();}, all.size() * (sizeof(typename C::Key) + sizeof(typename C::Value)), "HashTable", after);
    };
    check("construction");
    for (pbt::List l(s, 30, 200, 800); l.next();) {
      switch (s.weighted({10, 2, 4, 1, 1})) {
      case 0: case 1: {
        size_t c = s.draw(8) == 7 ? s.draw(200) : 1;
        if (conf.spread % 1024 == 0 && next > 600) break;
        PLOG(s, "insert " << c);
        for (; c > 0; --c) {
          typename C::Key k; memset(&k, 0, sizeof(k)); k.k = next++;
          typename C::Value v; memset(&v, 0, sizeof(v));
          std::pair<bool, typename T::Handle*> r;
          m.in([&]() {r = t->insert(k, v);});
          PCHECK(r.first && r.second, "a new key is not inserted");
          all.push_back(r.second); keys.push_back(k.k);
        }
        check("insert");
        break;
      }
      case 2: {
        if (all.empty()) break;
        const size_t i = s.draw(all.size());
        PLOG(s, "remove");
        m.in([&]() {t->remove(all[i]);});
        all[i] = all.back(); all.pop_back();
        keys[i] = keys.back(); keys.pop_back();
        check("remove");
        break;
      }
      case 3: {
        if (all.empty()) {PLOG(s, "reset"); m.in([&]() {t->reset();}); check("reset"); break;}
        if (!s.flag(1, 3)) break;
        PLOG(s, "hard reset");
        m.in([&]() {t->hardReset();});
        all.clear(); keys.clear(); check("hardReset");
        break;
      }
      default:
        for (size_t i = 0; i < all.size(); ++i) {
          typename C::Key k; memset(&k, 0, sizeof(k)); k.k = keys[i];
          PCHECK(t->lookup(k) == all[i], "asking a HashTable for its memory use changed its contents");
        }
        check("lookups");
      }
      most = std::max(most, all.size());
    }
    if (most >= 10) s.nontrivial();
  }

  // ---- divisor finders
  void finders(pbt::Src& s) {
    using namespace fh;
    Ctx c;
    c.varCount = 1 + s.small(10);
    c.orderKind = static_cast<int>(s.draw(2));
    for (size_t v = 0; v < c.varCount; ++v) c.perm.push_back(v);
    Opts o;
    o.sort = s.flag(); o.cache = s.flag(); o.autoRebuild = s.flag();
    o.ratio = s.draw(3) * 0.5; o.minRebuild = s.draw(3) == 2 ? 100 : s.draw(10);
    const Kind& k = kinds()[s.draw(kinds().size())];
    gCtx = &c;
    Meter m;
    std::unique_ptr<IFinder> f;
    {
      IFinder* p = 0;
      m.in([&]() {p = k.make(&c, o);});
      // what is left of the object itself is part of the constant
      f.reset(p);
    }
    const long long own = m.owned; // the object and what it starts with
    const std::string nameText = k.name;
    PLOG(s, nameText << ", " << c.varCount << " variables");
    const Exp top = std::min<Exp>(k.maxExp, s.draw(3) == 2 ? 1000 : 12);
    std::map<std::vector<Exp>, size_t> mult; // contents
    size_t n = 0, most = 0;
    int id = 0;
    std::vector<int> removed;
    removed.reserve(1 << 16);
    auto gen = [&]() {
      std::vector<Exp> e;
      for (size_t v = 0; v < c.varCount; ++v) e.push_back(s.draw(top + 1));
      c.monos.push_back(e);
      return static_cast<int>(c.monos.size() - 1);
    };
    auto fits = [&](int mono) {
      size_t& x = mult[c.monos[mono]];
      if (k.tree && x >= k.leafSize) return false;
      ++x;
      return true;
    };
    auto check = [&](const char* after) {
      size_t live = static_cast<size_t>(n);
      m.check([&]() {return f->memory();}, live * sizeof(Ent), nameText.c_str(), after);
      PCHECK(f->size() == n, nameText << ": size() is " << f->size() << " instead of " << n << " after " << after);
    };
    (void)own;
    for (pbt::List l(s, 40, 200, 800); l.next();) {
      switch (s.weighted({12, 3, k.removals ? 3u : 0u, 1, 1, 6})) {
      case 0: {
        const int x = gen();
        if (!fits(x)) break;
        const Ent e(x, id++);
        PLOG(s, "insert");
        m.in([&]() {f->insert(e);}); ++n; check("insert");
        break;
      }
      case 1: {
        std::vector<Ent> v;
        for (size_t j = s.draw(3) == 2 ? s.draw(100) : s.draw(10); j > 0; --j) {
          const int x = gen();
          if (fits(x)) v.push_back(Ent(x, id++));
        }
        PLOG(s, "insert range of " << v.size());
        m.in([&]() {f->insertRange(v, 1);}); n += v.size(); check("range insertion");
        break;
      }
      case 2: {
        const int x = gen();
        if (s.flag()) {
          std::vector<std::vector<Exp> > gone;
          for (std::map<std::vector<Exp>, size_t>::iterator it = mult.begin(); it != mult.end();) {
            bool div = true;
            for (size_t v = 0; v < c.varCount; ++v) if (it->first[v] < c.monos[x][v]) div = false;
            if (div) {n -= it->second; mult.erase(it++);} else ++it;
          }
          PLOG(s, "remove multiples");
          removed.clear();
          m.in([&]() {f->removeMultiples(x, &removed);});
          check("removeMultiples");
        } else {
          std::map<std::vector<Exp>, size_t>::iterator it = mult.find(c.monos[x]);
          if (it != mult.end() && it->second > 0) {--it->second; --n;}
          PLOG(s, "remove element");
          m.in([&]() {f->removeElement(x);});
          check("removeElement");
        }
        break;
      }
      case 3: {
        PLOG(s, "rebuild");
        m.in([&]() {f->rebuild();}); check("rebuild");
        break;
      }
      case 4: {
        if (!k.tree || s.draw(3) != 2) break;
        PLOG(s, "clear");
        m.in([&]() {f->clear();}); n = 0; mult.clear(); check("clear");
        break;
      }
      default: {
        const int x = gen();
        PLOG(s, "query");
        m.in([&]() {f->findDivisor(x, false);}); check("query");
        m.in([&]() {f->findAllDivisors(x, [](const Ent&) {return true;}, true);}); check("query for all");
      }
      }
      most = std::max(most, n);
    }
    {
      size_t count = 0;
      f->forAll([&](const Ent&) {++count; return true;}, true);
      PCHECK(count == n, nameText << " contains " << count << " entries instead of " << n);
    }
    f.reset();
    s.labelIf(most > 100, "more than 100 entries");
    if (most >= 5) s.nontrivial();
  }
}
namespace fh {
  Ctx* gCtx = 0;
  std::vector<Kind>& kinds() {static std::vector<Kind> k; return k;}
}
#define HV(E) \
  PBT_VARIANT("heap " #E, 1, (queue<mathic::Heap<TConf<E, false> >, TConf<E, false> >)); \
  PBT_VARIANT("fast heap " #E, 1, (queue<mathic::Heap<TConf<E, true> >, TConf<E, true> >)); \
  PBT_VARIANT("tournament tree " #E, 1, (queue<mathic::TourTree<TConf<E, false> >, TConf<E, false> >)); \
  PBT_VARIANT("fast tournament tree " #E, 1, (queue<mathic::TourTree<TConf<E, true> >, TConf<E, true> >)); \
  PBT_VARIANT("set " #E, 1, (queue<mathic::StlSet<QConf<E> >, QConf<E> >))
HV(Entry<4>);
HV(Entry<60>);
#define GV(E, B) PBT_VARIANT("geobucket " #E " " #B, 1, (queue<mathic::Geobucket<GConf<E, B> >, GConf<E, B> >))
GV(Entry<4>, 0); GV(Entry<4>, 1); GV(Entry<60>, 14); GV(Entry<20>, 16); GV(Entry<4>, 17); GV(Entry<20>, 27); GV(Entry<4>, 32); GV(Entry<20>, 33); GV(Entry<60>, 47);
PBT_VARIANT("pair queue", 3, pairs);
PBT_VARIANT("bit triangle", 2, triangle);
typedef HConf<4, 8> HSmall;
typedef HConf<60, 1> HLarge;
PBT_VARIANT("hash table small", 2, table<HSmall>);
PBT_VARIANT("hash table large", 2, table<HLarge>);
typedef HConf<200, 500> HHuge; // beyond what the table of bins needs for each entry
PBT_VARIANT("hash table huge", 2, table<HHuge>);
PBT_VARIANT("finders", 14, finders);
