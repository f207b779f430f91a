// Memory stays in proportion to the largest contents however long a
// structure is used. What is allocated is counted.
#include "pbt.h"
#include "alloc.h"
#include "finder.h"
#include <mathic/Heap.h>
#include <mathic/TourTree.h>
#include <mathic/Geobucket.h>
#include <mathic/StlSet.h>
#include <mathic/BitTriangle.h>

namespace {
  struct Meter {
    long long owned;
    Meter(): owned(0) {}
    template<class F> auto in(F f) -> decltype(f()) {
      struct Scope {
        long long& o; long long base;
        Scope(long long& o): o(o), base(alloc::liveBytes) {}
        ~Scope() {o += alloc::liveBytes - base;}
      } sc(owned);
      return f();
    }
    void bound(double limit, const char* name, size_t peak, size_t ops) {
      if (getenv("PBT_STATS")) {FILE* f = fopen(getenv("PBT_STATS"), "a");
        fprintf(f, "%.3f %zu %lld %s\n", owned / limit, peak, owned, name); fclose(f);}
      PCHECK(owned <= limit, name << " holds " << owned << " bytes after " << ops << " operations with at most " << peak
        << " entries at once, more than " << static_cast<long long>(limit));
    }
  };

  template<size_t Pad> struct Entry {
    int key; char pad[Pad];
    Entry(int k = 0): key(k) {memset(pad, 1, Pad);}
  };
  template<size_t P> std::ostream& operator<<(std::ostream& o, const Entry<P>& e) {return o << e.key;}
  template<class E> struct QConf {
    typedef E Entry;
    typedef int CompareResult;
    int compare(const E& a, const E& b) const {return a.key < b.key ? -1 : a.key > b.key;}
    bool cmpLessThan(int c) const {return c < 0;}
    bool cmpEqual(int c) const {return c == 0;}
    E deduplicate(const E& a, const E&) const {return a;}
    static const bool supportDeduplication = false;
  };
  template<class E, bool Fast> struct TConf: QConf<E> {static const bool fastIndex = Fast;};
  template<class E, int Bits> struct GConf: QConf<E> {
    GConf(): minBucketSize(3), geoBase(2) {}
    size_t minBucketSize, geoBase;
    static const size_t insertFactor = 1 + (Bits & 1);
    static const bool trackFront = (Bits & 1) != 0;
    static const bool minBucketBinarySearch = (Bits & 2) != 0;
    static const bool premerge = (Bits & 4) != 0;
    static const bool collectMax = (Bits & 8) != 0;
    static const mathic::GeobucketBucketStorage bucketStorage = static_cast<mathic::GeobucketBucketStorage>(Bits / 16);
  };
  template<class C> void genConf(C&, pbt::Src&, double&, double&) {}
  template<class E, int B> void genConf(GConf<E, B>& c, pbt::Src& s, double& factor, double& fixed) {
    c.minBucketSize = 1 + s.draw(20); c.geoBase = 2 + s.draw(4);
    // buckets grow by the base times the factor for insertion
    factor = 2.0 * c.geoBase * GConf<E, B>::insertFactor;
    fixed += 8.0 * c.minBucketSize * c.geoBase * c.geoBase * (sizeof(E) + 8);
  }
  template<class Q> void clearOf(Q& q) {q.clear();}
  template<class C> void clearOf(mathic::StlSet<C>& q) {while (!q.empty()) q.pop();}
  template<class Q, class C> void queue(pbt::Src& s) {
    typedef typename C::Entry E;
    C conf;
    double factor = 1, fixed = 4000;
    genConf(conf, s, factor, fixed);
    Meter m;
    std::unique_ptr<Q> q;
    {Q* p = 0; m.in([&]() {p = new Q(conf);}); m.owned -= sizeof(Q); q.reset(p);}
    const std::string name = q->getName();
    const double perEntry = factor * (4.5 * (sizeof(E) + 16) + 64);
    pbt::Bulk r(s.draw(1u << 30));
    const size_t size = 1 + s.small(400);
    const size_t spread = s.draw(3);
    PLOG(s, name << " with about " << size << " entries");
    size_t n = 0, peak = 0, ops = 0;
    long long base = 0;
    auto key = [&]() {
      ++base;
      switch (spread) {
      case 0: return static_cast<int>(r(1000));
      case 1: return static_cast<int>(base & 0xffffff); // ever larger
      default: return -static_cast<int>(base & 0xffffff); // ever smaller
      }
    };
    for (pbt::List l(s, 5, 12, 30); l.next();) {
      const size_t kind = s.draw(6);
      const size_t rounds = 1 + s.draw(400);
      PLOG(s, "phase " << kind << " for " << rounds);
      for (size_t i = 0; i < rounds; ++i) {
        ++ops;
        switch (kind) {
        case 0: // fill, empty
          if (i % 8 == 0) m.in([&]() {for (; n < size; ++n) q->push(E(key())); peak = std::max(peak, n); for (; n > 0; --n) q->pop();});
          break;
        case 1: // one in, one out
          m.in([&]() {q->push(E(key())); ++n; peak = std::max(peak, n); if (n >= size) {q->pop(); --n;}});
          break;
        case 2: // around one size
          if (n < size && (n == 0 || r(2))) m.in([&]() {q->push(E(key())); ++n;}); else m.in([&]() {q->pop(); --n;});
          break;
        case 3: { // ranges
          std::vector<E> v;
          const size_t c = 1 + r(size);
          for (size_t j = 0; j < c; ++j) v.push_back(E(key()));
          std::sort(v.begin(), v.end(), [](const E& a, const E& b) {return a.key > b.key;});
          m.in([&]() {q->push(v.data(), v.data() + v.size());});
          n += c; peak = std::max(peak, n);
          m.in([&]() {for (; n > size / 2; --n) q->pop();});
          break;
        }
        case 4: // cleared again and again
          if (i % 4 == 0) {
            m.in([&]() {for (; n < size; ++n) q->push(E(key()));});
            peak = std::max(peak, n);
            m.in([&]() {clearOf(*q);});
            n = 0;
          }
          break;
        default: // change the top
          if (n == 0) {m.in([&]() {q->push(E(key()));}); ++n;}
          else m.in([&]() {q->pop(); q->push(E(key()));});
        }
        peak = std::max(peak, n);
      }
      m.bound(fixed + perEntry * peak, name.c_str(), peak, ops);
    }
    s.labelIf(peak > 200, "more than 200 entries");
    s.labelIf(ops > 30 * peak, "more than 30 operations per entry");
    if (ops > 10 * peak && peak >= 4) s.nontrivial();
  }

  void finders(pbt::Src& s) {
    using namespace fh;
    Ctx c;
    c.varCount = 1 + s.small(8);
    c.orderKind = static_cast<int>(s.draw(2));
    for (size_t v = 0; v < c.varCount; ++v) c.perm.push_back(v);
    const Kind& k = kinds()[s.draw(kinds().size())];
    Opts o;
    o.sort = s.flag(); o.cache = s.flag();
    // without rebuilds trees keep the nodes of regions that became empty
    o.autoRebuild = k.tree ? true : s.flag();
    static const double ratios[] = {0.5, 0.25, 1.0};
    o.ratio = ratios[s.draw(3)]; o.minRebuild = 1 + s.draw(30);
    gCtx = &c;
    Meter m;
    std::unique_ptr<IFinder> f;
    {IFinder* p = 0; m.in([&]() {p = k.make(&c, o);}); f.reset(p);}
    pbt::Bulk r(s.draw(1u << 30));
    const size_t size = 1 + s.small(200);
    const Exp top = std::min<Exp>(k.maxExp, s.flag() ? 100 : 30);
    PLOG(s, k.name << " with about " << size << " entries in " << c.varCount << " variables");
    std::map<std::vector<Exp>, std::pair<size_t, int> > mult;
    std::deque<int> in; // monomials contained, oldest first
    size_t peak = 0, ops = 0;
    int id = 0;
    Exp drift = 0;
    std::vector<int> freeSlots;
    auto gen = [&]() {
      std::vector<Exp> e;
      for (size_t v = 0; v < c.varCount; ++v) e.push_back(std::min<Exp>(top, r(top / 2 + 1) + drift % (top / 2 + 1)));
      if (r(16) == 0) ++drift;
      if (freeSlots.empty()) {c.monos.push_back(e); return static_cast<int>(c.monos.size() - 1);}
      const int slot = freeSlots.back(); freeSlots.pop_back();
      c.monos[slot] = e;
      return slot;
    };
    std::set<std::vector<Exp> > present;
    auto insert = [&]() {
      const int x = gen();
      if (!present.insert(c.monos[x]).second) {freeSlots.push_back(x); return;}
      {const Ent e(x, id++); m.in([&]() {f->insert(e);});}
      in.push_back(x);
      peak = std::max(peak, in.size());
    };
    auto dropOldest = [&]() {
      const int x = in.front();
      bool ok = false;
      m.in([&]() {ok = f->removeElement(x);});
      PCHECK(ok, "removeElement does not find an entry");
      in.pop_front();
      present.erase(c.monos[x]);
      freeSlots.push_back(x);
    };
    auto dropAll = [&]() {
      for (int x: in) freeSlots.push_back(x);
      in.clear(); present.clear();
    };
    const int zero = gen();
    for (size_t v = 0; v < c.varCount; ++v) c.monos[zero][v] = 0;
    for (pbt::List l(s, 5, 12, 24); l.next();) {
      size_t kind = s.draw(5);
      const size_t rounds = 1 + s.draw(200);
      if (!k.removals && kind < 2) kind = 2;
      if (!k.tree && kind == 2) kind = 3;
      PLOG(s, "phase " << kind << " for " << rounds);
      for (size_t i = 0; i < rounds; ++i) {
        ++ops;
        switch (kind) {
        case 0: // window
          insert();
          if (in.size() > size) dropOldest();
          break;
        case 1: // all are multiples of 1
          if (i % 8 == 0) {
            while (in.size() < size && r(50) != 0) insert();
            m.in([&]() {f->removeMultiples(zero, 0);});
            PCHECK(f->empty(), "not empty after the removal of all multiples of 1");
            dropAll();
          }
          break;
        case 2: // clear
          if (i % 8 == 0) {
            while (in.size() < size && r(50) != 0) insert();
            m.in([&]() {f->clear();});
            dropAll();
          }
          break;
        case 3: // rebuild, query
          if (in.size() < size) insert();
          if (i % 4 == 0) m.in([&]() {f->rebuild();});
          m.in([&]() {f->findDivisor(zero, false);});
          break;
        default: { // ranges
          if (!k.removals && !k.tree) break;
          std::vector<Ent> v;
          for (size_t j = r(8); j > 0 && in.size() + v.size() < size + 8; --j) {
            const int x = gen();
            if (!present.insert(c.monos[x]).second) {freeSlots.push_back(x); continue;}
            v.push_back(Ent(x, id++));
            in.push_back(x);
          }
          peak = std::max(peak, in.size());
          m.in([&]() {f->insertRange(v, 1);});
          if (k.removals) while (in.size() > size) dropOldest();
          else if (in.size() > size) {m.in([&]() {f->clear();}); dropAll();}
        }
        }
      }
      PCHECK(f->size() == in.size(), "size() is " << f->size() << " instead of " << in.size());
      m.bound(k.tree ? 40000 + 600.0 * peak * k.leafSize : 40000 + 250.0 * peak, k.name.c_str(), peak, ops);
    }
    f.reset();
    s.labelIf(peak > 100, "more than 100 entries");
    s.labelIf(ops > 30 * peak, "more than 30 operations per entry");
    if (ops > 3 * peak && peak >= 4) s.nontrivial();
  }

  void triangle(pbt::Src& s) {
    mathic::BitTriangle t;
    Meter m;
    size_t columns = 0;
    for (pbt::List l(s, 30, 80, 200); l.next();) {
      size_t c = s.draw(3) == 2 ? s.draw(100) : 1;
      if (columns > 2500) break;
      PLOG(s, "add " << c << " columns");
      m.in([&]() {for (; c > 0; --c, ++columns) t.addColumn();});
      if (columns > 1) for (size_t i = s.draw(200); i > 0; --i) {
        const size_t col = 1 + i * 7919 % (columns - 1 ? columns - 1 : 1);
        m.in([&]() {t.setBit(col, i % col, i % 3 != 0);});
      }
      // a bit each, and some bytes for each column
      m.bound(2000 + columns * 120.0 + columns * (columns / 8.0), "BitTriangle", columns, columns);
    }
    if (columns >= 40) s.nontrivial();
  }
}
namespace fh {
  Ctx* gCtx = 0;
  std::vector<Kind>& kinds() {static std::vector<Kind> k; return k;}
}
#define HV(E) \
  PBT_VARIANT("heap " #E, 1, (queue<mathic::Heap<TConf<E, false> >, TConf<E, false> >)); \
  PBT_VARIANT("fast heap " #E, 1, (queue<mathic::Heap<TConf<E, true> >, TConf<E, true> >)); \
  PBT_VARIANT("tournament tree " #E, 1, (queue<mathic::TourTree<TConf<E, false> >, TConf<E, false> >)); \
  PBT_VARIANT("fast tournament tree " #E, 1, (queue<mathic::TourTree<TConf<E, true> >, TConf<E, true> >)); \
  PBT_VARIANT("set " #E, 1, (queue<mathic::StlSet<QConf<E> >, QConf<E> >))
HV(Entry<4>);
HV(Entry<60>);
#define GV(E, B) PBT_VARIANT("geobucket " #E " " #B, 1, (queue<mathic::Geobucket<GConf<E, B> >, GConf<E, B> >))
GV(Entry<4>, 0); GV(Entry<4>, 1); GV(Entry<60>, 14); GV(Entry<20>, 16); GV(Entry<4>, 17); GV(Entry<20>, 27); GV(Entry<4>, 32); GV(Entry<20>, 33); GV(Entry<60>, 47);
PBT_VARIANT("finders", 14, finders);
PBT_VARIANT("bit triangle", 2, triangle);
