// Operations that run out of memory: the structure is afterwards as it was,
// or as if the operation was done in part, and it can be used further.
// All entries are flat, so only the structures allocate.
#include "pbt.h"
#include "alloc.h"
#include <mathic/Heap.h>
#include <mathic/TourTree.h>
#include <mathic/Geobucket.h>
#include <mathic/StlSet.h>
#include <mathic/PairQueue.h>
#include <mathic/BitTriangle.h>
#include <mathic/HashTable.h>
#include <map>
#include <set>
#include <memory>

namespace {
  /// Runs f with the given number of allocations that succeed; negative: all.
  template<class F> bool attempt(long long allocs, F f) {
    alloc::failIn = allocs;
    const long long failed = alloc::failed;
    bool threw = false;
    try {f();} catch (const std::bad_alloc&) {threw = true;}
    catch (...) {alloc::failIn = -1; throw;}
    alloc::failIn = -1;
    if (alloc::failed > failed && !threw) PFAIL("running out of memory is not reported to the caller");
    return !threw;
  }
  long long pickFail(pbt::Src& s) {
    return s.flag(2, 3) ? static_cast<long long>(s.small(6)) : -1;
  }

  // ---- queues
  template<size_t Pad> struct Entry {
    int key; char pad[Pad];
    Entry(int k = -1): key(k) {memset(pad, 1, Pad);}
  };
  template<size_t P> std::ostream& operator<<(std::ostream& o, const Entry<P>& e) {return o << e.key;}
  template<class E> struct QConf {
    typedef E Entry;
    typedef int CompareResult;
    int compare(const E& a, const E& b) const {return a.key < b.key ? -1 : a.key > b.key;}
    bool cmpLessThan(int c) const {return c < 0;}
    bool cmpEqual(int c) const {return c == 0;}
    E deduplicate(const E& a, const E&) const {return a;}
    static const bool supportDeduplication = false;
  };
  template<class E, bool Fast> struct TConf: QConf<E> {static const bool fastIndex = Fast;};
  template<class E, int Bits> struct GConf: QConf<E> {
    GConf(): minBucketSize(3), geoBase(2) {}
    size_t minBucketSize, geoBase;
    static const size_t insertFactor = 1 + (Bits & 1);
    static const bool trackFront = (Bits & 1) != 0;
    static const bool minBucketBinarySearch = (Bits & 2) != 0;
    static const bool premerge = (Bits & 4) != 0;
    static const bool collectMax = (Bits & 8) != 0;
    static const mathic::GeobucketBucketStorage bucketStorage = static_cast<mathic::GeobucketBucketStorage>(Bits / 16);
  };
  template<class C> void genConf(C&, pbt::Src&) {}
  template<class E, int B> void genConf(GConf<E, B>& c, pbt::Src& s) {
    c.minBucketSize = 1 + s.draw(s.flag(1, 4) ? 40 : 4); c.geoBase = 2 + s.draw(4);
  }
  struct Counter {
    size_t n;
    template<class E> bool proceed(const E&) {++n; return true;}
  };
  template<class Q> size_t sizeOf(Q& q) {return q.size();}
  template<class Q> size_t countOf(Q& q) {Counter c = {0}; q.forAll(c); return c.n;}
  template<class C> size_t sizeOf(mathic::TourTree<C>& q) {return countOf(q);}
  template<class C> size_t sizeOf(mathic::StlSet<C>& q) {return ~size_t(0);}
  template<class C> size_t countOf(mathic::StlSet<C>& q) {return ~size_t(0);}
  template<class Q> void clearOf(Q& q) {q.clear();}
  template<class C> void clearOf(mathic::StlSet<C>& q) {while (!q.empty()) q.pop();}

  /// The contents, most often known exactly. After a push of a range that
  /// failed, "maybe" holds what may be in there.
  template<class Q, class C> void queue(pbt::Src& s) {
    typedef typename C::Entry E;
    const long long bytes = alloc::liveBytes;
    size_t most = 0, failures = 0, laterPops = 0;
    {
      C conf;
      genConf(conf, s);
      std::unique_ptr<Q> q;
      const long long fc = pickFail(s);
      while (!q.get()) {
        std::unique_ptr<Q> p;
        if (attempt(q.get() ? -1 : failures ? -1 : fc, [&]() {p.reset(new Q(conf));})) q.swap(p);
        else ++failures;
      }
      std::multiset<int> model;
      const int keys = s.flag() ? 1000 : 5;
      auto check = [&](const char* after) {
        PCHECK(q->empty() == model.empty(), "empty() is " << q->empty() << " with " << model.size() << " entries after " << after);
        const size_t n = sizeOf(*q), m = countOf(*q);
        PCHECK(n == ~size_t(0) || n == model.size(), "size() is " << n << " with " << model.size() << " entries after " << after);
        PCHECK(m == ~size_t(0) || m == model.size(), m << " entries are enumerated with " << model.size() << " entries after " << after);
        if (!model.empty()) PCHECK(q->top().key == *model.rbegin(), "the top is " << q->top().key << " instead of " << *model.rbegin() << " after " << after);
      };
      auto pop = [&]() {
        const int k = q->pop().key;
        PCHECK(k == *model.rbegin(), "pop gives " << k << " instead of " << *model.rbegin());
        model.erase(--model.end());
        if (failures > 0) ++laterPops;
      };
      // After an operation that failed: what is in there now, between low and high?
      // It is learnt by popping everything and pushing it again.
      auto learn = [&](const std::multiset<int>& low, const std::multiset<int>& high, const char* what) {
        std::multiset<int> now;
        std::vector<E> all;
        while (!q->empty()) {
          PCHECK(now.size() <= high.size(), "the queue gives more entries than were pushed after " << what);
          const E t = q->top(), e = q->pop();
          PCHECK(t.key == e.key, "top and pop differ after " << what);
          PCHECK(all.empty() || all.back().key >= e.key, "pops are out of order after " << what);
          all.push_back(e); now.insert(e.key);
        }
        PCHECK(std::includes(now.begin(), now.end(), low.begin(), low.end()), "entries are lost after " << what);
        PCHECK(std::includes(high.begin(), high.end(), now.begin(), now.end()), "entries appear after " << what);
        for (size_t i = 0; i < all.size(); ++i) q->push(all[i]);
        model = now;
      };
      for (pbt::List l(s, 30, 150, 500); l.next();) {
        switch (s.weighted({14, 5, 6, 2, 1, 1})) {
        case 0: {
          const int k = static_cast<int>(s.draw(keys));
          const long long f = pickFail(s);
          PLOG(s, "push " << k << " with " << f << " allocations");
          if (attempt(f, [&]() {q->push(E(k));})) {model.insert(k); check("push");}
          else {++failures; PLOG(s, "  failed"); check("a push that failed");}
          break;
        }
        case 1: {
          const size_t c = s.draw(3) == 2 ? s.draw(300) : s.draw(20);
          std::vector<E> v;
          std::multiset<int> high = model;
          for (size_t i = 0; i < c; ++i) {v.push_back(E(static_cast<int>(c - i))); high.insert(static_cast<int>(c - i));}
          const long long f = pickFail(s);
          PLOG(s, "push range of " << c << " with " << f << " allocations");
          const E* b = v.data();
          if (attempt(f, [&]() {q->push(b, b + c);})) {model.swap(high); check("range push");}
          else {++failures; PLOG(s, "  failed"); learn(model, high, "a range push that failed"); check("a range push that failed");}
          break;
        }
        case 2:
          for (size_t c = s.draw(3) == 2 ? s.draw(100) : 1; c > 0 && !model.empty(); --c) {PLOG(s, "pop"); pop();}
          check("pop");
          break;
        case 3: check("nothing"); break;
        case 4:
          if (s.draw(3) != 2) break;
          PLOG(s, "clear");
          clearOf(*q); model.clear(); check("clear");
          break;
        default: // another one is taken apart in the middle of things
          if (!model.empty()) {
            Q other(conf);
            bool ok = true;
            for (size_t i = s.draw(40); ok && i > 0; --i) ok = attempt(pickFail(s), [&]() {other.push(E(static_cast<int>(i)));});
            if (!ok) ++failures;
          }
        }
        most = std::max(most, model.size());
      }
      while (!model.empty()) pop();
      check("draining");
    }
    PCHECK(alloc::liveBytes == bytes, alloc::liveBytes - bytes << " bytes are not freed");
    s.labelIf(failures > 0, "ran out of memory");
    s.labelIf(failures > 3, "ran out of memory more than 3 times");
    if (failures > 0 && laterPops > 0) s.nontrivial();
  }

  // ---- pair queue
  struct PData {long long rank; char pad[24];};
  template<bool R> struct PConf {
    typedef PData PairData;
    typedef int CompareResult;
    static const bool supportRetirement = R;
    void computePairData(size_t c, size_t r, PData& d) const {d.rank = rankOf(c, r);}
    static long long rankOf(size_t c, size_t r) {return static_cast<long long>((c * 31 + r * 17) % 101);}
    int compare(size_t, size_t, const PData& a, size_t, size_t, const PData& b) const {return a.rank < b.rank ? -1 : a.rank > b.rank;}
    bool cmpLessThan(int c) const {return c < 0;}
  };
  template<class C> void pairs(pbt::Src& s) {
    typedef mathic::PairQueue<C> Q;
    const long long bytes = alloc::liveBytes;
    size_t failures = 0, laterPops = 0;
    {
      std::unique_ptr<Q> q;
      while (!q.get()) if (!attempt(failures ? -1 : pickFail(s), [&]() {q.reset(new Q(C()));})) ++failures;
      std::map<std::pair<size_t, size_t>, long long> live;
      std::multiset<long long> ranks;
      std::vector<unsigned char> retired;
      auto check = [&](const char* after) {
        PCHECK(q->columnCount() == retired.size(), "columnCount() is " << q->columnCount() << " with " << retired.size() << " columns after " << after);
        PCHECK(q->empty() == live.empty(), "empty() is " << q->empty() << " with " << live.size() << " pairs after " << after);
        if (live.empty()) return;
        const std::pair<size_t, size_t> p = q->topPair();
        PCHECK(live.count(p), "the top pair is not contained after " << after);
        PCHECK(live[p] == *ranks.rbegin(), "the top pair is not maximal after " << after);
        PCHECK(q->topPairData().rank == live[p], "the data of the top pair is another pair's after " << after);
      };
      auto del = [&](const std::pair<size_t, size_t>& p) {
        ranks.erase(ranks.find(live[p]));
        live.erase(p);
      };
      check("construction");
      for (pbt::List l(s, 40, 150, 400); l.next();) {
        switch (s.weighted({8, 5, C::supportRetirement ? 1u : 0u})) {
        case 0: {
          const size_t col = q->columnCount();
          std::vector<size_t> rows;
          const size_t every = 1 + s.draw(3);
          for (size_t r = s.draw(3); r < col; r += every) if (!retired[r]) rows.push_back(r);
          std::sort(rows.begin(), rows.end(), [&](size_t a, size_t b) {return C::rankOf(col, a) > C::rankOf(col, b);});
          const long long f = pickFail(s);
          PLOG(s, "column of " << rows.size() << " with " << f << " allocations");
          if (attempt(f, [&]() {q->addColumnDescending(rows.begin(), rows.end());})) {
            retired.push_back(0);
            for (size_t i = 0; i < rows.size(); ++i) {
              const long long r = C::rankOf(col, rows[i]);
              live[std::make_pair(col, rows[i])] = r; ranks.insert(r);
            }
            check("adding a column");
          } else {++failures; PLOG(s, "  failed"); check("running out of memory while adding a column");}
          break;
        }
        case 1:
          for (size_t c = s.draw(3) == 2 ? s.draw(100) : 1; c > 0 && !live.empty(); --c) {
            PLOG(s, "pop");
            const std::pair<size_t, size_t> p = q->topPair();
            q->pop();
            del(p);
            if (failures) ++laterPops;
            check("pop");
          }
          break;
        default: {
          if (retired.empty()) break;
          const size_t i = s.draw(retired.size());
          if (retired[i]) break;
          PLOG(s, "retire " << i);
          retired[i] = 1;
          std::vector<std::pair<size_t, size_t> > gone;
          for (auto& e: live) if (e.first.first == i || e.first.second == i) gone.push_back(e.first);
          for (size_t j = 0; j < gone.size(); ++j) del(gone[j]);
          q->retireIndex(i);
          check("retiring an index");
        }
        }
      }
      while (!live.empty()) {check("draining"); const std::pair<size_t, size_t> p = q->topPair(); q->pop(); del(p);}
      check("draining");
    }
    PCHECK(alloc::liveBytes == bytes, alloc::liveBytes - bytes << " bytes are not freed");
    s.labelIf(failures > 0, "ran out of memory");
    if (failures > 0 && laterPops > 0) s.nontrivial();
  }

  // ---- bit triangle
  void triangle(pbt::Src& s) {
    const long long bytes = alloc::liveBytes;
    size_t failures = 0, later = 0;
    {
      mathic::BitTriangle t;
      std::vector<std::vector<unsigned char> > m;
      auto check = [&](const char* after) {
        PCHECK(t.columnCount() == m.size(), "columnCount() is " << t.columnCount() << " with " << m.size() << " columns after " << after);
        PCHECK(t.empty() == m.empty(), "empty() is wrong after " << after);
        for (size_t c = 0; c < m.size(); ++c) for (size_t r = 0; r < c; ++r)
          PCHECK(t.bit(c, r) == (m[c][r] != 0), "bit (" << c << ", " << r << ") changed after " << after);
      };
      for (pbt::List l(s, 30, 80, 150); l.next();) {
        if (m.size() < 2 || s.flag()) {
          const long long f = pickFail(s);
          PLOG(s, "add a column with " << f << " allocations");
          if (attempt(f, [&]() {t.addColumn();})) {
            m.push_back(std::vector<unsigned char>(m.size()));
            if (failures) ++later;
            check("adding a column");
          } else {++failures; PLOG(s, "  failed"); check("adding a column that failed");}
        } else {
          const size_t c = 1 + s.draw(m.size() - 1), r = s.draw(c);
          t.setBit(c, r, true);
          m[c][r] = 1;
        }
      }
      check("everything");
    }
    PCHECK(alloc::liveBytes == bytes, alloc::liveBytes - bytes << " bytes are not freed");
    s.labelIf(failures > 0, "ran out of memory");
    if (failures > 0 && later > 0) s.nontrivial();
  }

  // ---- hash table
  template<size_t KPad, size_t VPad> struct HConf {
    struct Key {int k; char pad[KPad];};
    struct Value {int v; char pad[VPad];};
    size_t hash(const Key& k) const {return static_cast<size_t>(k.k) * spread;}
    bool keysEqual(const Key& a, const Key& b) const {return a.k == b.k;}
    size_t spread;
    static Key key(int k) {Key r; memset(&r, 0, sizeof(r)); r.k = k; return r;}
    static Value value(int v) {Value r; memset(&r, 0, sizeof(r)); r.v = v; return r;}
  };
  template<class C> void table(pbt::Src& s) {
    typedef mathic::HashTable<C> T;
    typedef typename T::Handle Handle;
    const long long bytes = alloc::liveBytes;
    size_t failures = 0, later = 0;
    {
      C conf;
      static const size_t spreads[] = {1, 7919, 0, size_t(1) << 20};
      conf.spread = spreads[s.draw(4)];
      const unsigned bits = static_cast<unsigned>(s.draw(12));
      std::unique_ptr<T> t;
      while (!t.get()) if (!attempt(failures ? -1 : pickFail(s), [&]() {t.reset(new T(conf, bits));})) ++failures;
      struct Known {Handle* h; int value;};
      std::map<int, Known> model;
      const int range = s.flag() ? 60 : 2000;
      auto checkOne = [&](int k, const char* after) {
        Handle* h = t->lookup(C::key(k));
        auto it = model.find(k);
        if (it == model.end()) {PCHECK(h == 0, "key " << k << " is found though it was not inserted, after " << after); return;}
        PCHECK(h != 0, "key " << k << " is not found after " << after);
        PCHECK(h == it->second.h, "the entry of key " << k << " moved after " << after);
        PCHECK(h->key().k == k && h->value().v == it->second.value, "the entry of key " << k << " changed after " << after);
      };
      auto check = [&](const char* after) {
        for (auto& e: model) checkOne(e.first, after);
        for (int i = 0; i < 8; ++i) checkOne(static_cast<int>(s.draw(range)), after);
      };
      for (pbt::List l(s, 40, 200, 600); l.next();) {
        switch (s.weighted({20, 3, 4, 1})) {
        case 0: {
          for (size_t c = s.draw(6) == 5 ? s.draw(100) : 1; c > 0; --c) {
            const int k = static_cast<int>(s.draw(range)), v = static_cast<int>(s.draw(1000));
            const long long f = pickFail(s);
            PLOG(s, "insert " << k << " with " << f << " allocations");
            std::pair<bool, Handle*> r(false, static_cast<Handle*>(0));
            if (attempt(f, [&]() {r = t->insert(C::key(k), C::value(v));})) {
              PCHECK(r.second != 0, "insert returns no entry");
              PCHECK(r.first == !model.count(k), "insert reports key " << k << " as " << (r.first ? "new" : "existing"));
              if (r.first) {Known n = {r.second, v}; model[k] = n; if (failures) ++later;}
              checkOne(k, "its insertion");
            } else {
              ++failures;
              PLOG(s, "  failed");
              Handle* h = t->lookup(C::key(k)); // it may be in there
              if (h != 0 && !model.count(k)) {Known n = {h, v}; model[k] = n;}
              check("an insertion that failed");
            }
          }
          break;
        }
        case 1: check("nothing"); break;
        case 2: {
          if (model.empty()) break;
          auto it = model.lower_bound(static_cast<int>(s.draw(range)));
          if (it == model.end()) it = model.begin();
          PLOG(s, "remove " << it->first);
          const int k = it->first;
          Handle* h = it->second.h;
          t->remove(h);
          model.erase(it);
          checkOne(k, "its removal");
          break;
        }
        default:
          if (!s.flag(1, 3)) break;
          PLOG(s, "hard reset");
          t->hardReset(); model.clear(); check("hardReset");
        }
      }
      check("everything");
    }
    PCHECK(alloc::liveBytes == bytes, alloc::liveBytes - bytes << " bytes are not freed");
    s.labelIf(failures > 0, "ran out of memory");
    if (failures > 0 && later > 0) s.nontrivial();
  }
}
#define HV(E) \
  PBT_VARIANT("heap " #E, 1, (queue<mathic::Heap<TConf<E, false> >, TConf<E, false> >)); \
  PBT_VARIANT("fast heap " #E, 1, (queue<mathic::Heap<TConf<E, true> >, TConf<E, true> >)); \
  PBT_VARIANT("tournament tree " #E, 1, (queue<mathic::TourTree<TConf<E, false> >, TConf<E, false> >)); \
  PBT_VARIANT("fast tournament tree " #E, 1, (queue<mathic::TourTree<TConf<E, true> >, TConf<E, true> >)); \
  PBT_VARIANT("set " #E, 1, (queue<mathic::StlSet<QConf<E> >, QConf<E> >))
HV(Entry<4>);
HV(Entry<60>);
#define GV(E, B) PBT_VARIANT("geobucket " #E " " #B, 1, (queue<mathic::Geobucket<GConf<E, B> >, GConf<E, B> >))
GV(Entry<4>, 0); GV(Entry<4>, 1); GV(Entry<60>, 14); GV(Entry<20>, 16); GV(Entry<4>, 17); GV(Entry<20>, 27); GV(Entry<4>, 32); GV(Entry<20>, 33); GV(Entry<60>, 47); GV(Entry<4>, 5); GV(Entry<4>, 21);
PBT_VARIANT("pair queue", 2, pairs<PConf<false> >);
PBT_VARIANT("pair queue with retirement", 2, pairs<PConf<true> >);
PBT_VARIANT("bit triangle", 2, triangle);
typedef HConf<4, 8> HSmall;
typedef HConf<60, 1> HLarge;
PBT_VARIANT("hash table small", 2, table<HSmall>);
PBT_VARIANT("hash table large", 2, table<HLarge>);
