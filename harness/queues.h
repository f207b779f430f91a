// Model-based driver for mathic's priority queues.
#ifndef QUEUES_H
#define QUEUES_H
#include "pbt.h"
#include <map>
#include <memory>
#include <deque>
#include <cmath>

#ifndef FOCUS
#define FOCUS 0
#endif
// FOCUS: 0 order and content, 1 deduplication, 2 enumerate/clear/move/size,
// 3 comparison counts, 4 debug builds (everything mixed)

namespace qh {
  struct Cmp { // result of a comparison; not a bool on purpose
    explicit Cmp(int v, bool eq): v(v), eq(eq) {}
    int v; bool eq;
  };

  struct Ctx {
    int orderKind;
    int tableSize;
    std::vector<int> table;
    uint64_t compares, dedups;
    std::vector<unsigned char> live;   // by id
    std::vector<int> keyOf;            // by id
    std::map<long long, unsigned> ranks; // of the live ids
    size_t liveCount;
    std::vector<std::function<void()> > cleanup;
    bool dedupOn;
    std::string trouble;

    Ctx(): compares(0), dedups(0), liveCount(0), dedupOn(false) {}
    long long rank(int key) const {
      switch (orderKind) {
      case 0: return key;
      case 1: return -static_cast<long long>(key);
      case 2: return key / 3;
      default: return table[key % tableSize];
      }
    }
    unsigned newId(int key) {
      live.push_back(0); keyOf.push_back(key);
      return static_cast<unsigned>(live.size() - 1);
    }
    void addLive(unsigned id) {
      live[id] = 1; ++liveCount; ++ranks[rank(keyOf[id])];
    }
    void delLive(unsigned id) {
      live[id] = 2; --liveCount;
      std::map<long long, unsigned>::iterator it = ranks.find(rank(keyOf[id]));
      if (--it->second == 0) ranks.erase(it);
    }
    long long maxRank() const {return ranks.rbegin()->first;}
    bool isLive(unsigned id) const {return id < live.size() && live[id] == 1;}
    Cmp cmp(int a, int b) {
      ++compares;
      const long long ra = rank(a), rb = rank(b);
      return Cmp(ra < rb ? -1 : ra > rb, a == b);
    }
  };

  // ---- kinds of entries
  struct V8 {
    struct Entry {
      int key; unsigned id;
      Entry(): key(-1), id(~0u) {}
      Entry(int k, unsigned i): key(k), id(i) {}
    };
    static const char* name() {return "v8";}
    static Entry make(Ctx& c, int key, unsigned id) {return Entry(key, id);}
    static int key(const Entry& e) {return e.key;}
    static unsigned id(const Entry& e) {return e.id;}
    static bool intact(const Ctx& c, const Entry& e) {return e.id < c.keyOf.size() && c.keyOf[e.id] == e.key;}
    static void drop(Ctx&, const Entry&) {}
    static const bool pointer = false;
  };
  struct V12 {
    struct Entry {
      int key; unsigned id; int check;
      Entry(): key(-1), id(~0u), check(0) {}
      Entry(int k, unsigned i): key(k), id(i), check(k ^ static_cast<int>(i * 2654435761u)) {}
    };
    static const char* name() {return "v12";}
    static Entry make(Ctx& c, int key, unsigned id) {return Entry(key, id);}
    static int key(const Entry& e) {return e.key;}
    static unsigned id(const Entry& e) {return e.id;}
    static bool intact(const Ctx& c, const Entry& e) {
      return e.id < c.keyOf.size() && c.keyOf[e.id] == e.key &&
        e.check == (e.key ^ static_cast<int>(e.id * 2654435761u));
    }
    static void drop(Ctx&, const Entry&) {}
    static const bool pointer = false;
  };
  struct Item {int key; unsigned id;};
  struct Ptr {
    typedef Item* Entry;
    static const char* name() {return "ptr";}
    static Entry make(Ctx& c, int key, unsigned id) {
      Item* i = new Item; i->key = key; i->id = id; return i;
    }
    static int key(Entry e) {return e->key;}
    static unsigned id(Entry e) {return e->id;}
    static bool intact(const Ctx& c, Entry e) {return e->id < c.keyOf.size() && c.keyOf[e->id] == e->key;}
    static void drop(Ctx&, Entry e) {delete e;} // so any later look is a use after free
    static const bool pointer = true;
  };
  struct Fat {
    struct Entry {
      int key; unsigned id; std::string text;
      Entry(): key(-1), id(~0u) {}
      Entry(int k, unsigned i): key(k), id(i), text(40, static_cast<char>('a' + i % 26)) {}
    };
    static const char* name() {return "fat";}
    static Entry make(Ctx& c, int key, unsigned id) {return Entry(key, id);}
    static int key(const Entry& e) {return e.key;}
    static unsigned id(const Entry& e) {return e.id;}
    static bool intact(const Ctx& c, const Entry& e) {
      return e.id < c.keyOf.size() && c.keyOf[e.id] == e.key &&
        e.text == std::string(40, static_cast<char>('a' + e.id % 26));
    }
    static void drop(Ctx&, const Entry&) {}
    static const bool pointer = false;
  };
  inline std::ostream& operator<<(std::ostream& o, const V8::Entry& e) {return o << e.key;}
  inline std::ostream& operator<<(std::ostream& o, const V12::Entry& e) {return o << e.key;}
  inline std::ostream& operator<<(std::ostream& o, const Fat::Entry& e) {return o << e.key;}

  /// Configuration base shared by all queues.
  template<class EK, bool Dedup>
  struct ConfBase {
    typedef typename EK::Entry Entry;
    typedef Cmp CompareResult;
    Ctx* ctx;
    ConfBase(Ctx* c): ctx(c) {}
    Cmp compare(const Entry& a, const Entry& b) const {
      return ctx->cmp(EK::key(a), EK::key(b));
    }
    bool cmpLessThan(const Cmp& c) const {return c.v < 0;}
    bool cmpEqual(const Cmp& c) const {
      if (!Dedup) ctx->trouble = "equality was asked for although deduplication is off";
      return c.eq;
    }
    static const bool supportDeduplication = Dedup;
    Entry deduplicate(const Entry& a, const Entry& b) const {
      Ctx& c = *ctx;
      if (!Dedup) throw pbt::Fail("deduplicate called although deduplication is off");
      if (!EK::intact(c, a) || !EK::intact(c, b)) throw pbt::Fail("deduplicate called on a damaged entry");
      const unsigned ia = EK::id(a), ib = EK::id(b);
      if (!c.isLive(ia)) throw pbt::Fail("deduplicate called with a first entry that the queue does not contain");
      if (!c.isLive(ib)) throw pbt::Fail("deduplicate called with a second entry that the queue does not contain");
      if (ia == ib) throw pbt::Fail("deduplicate called with an entry and itself");
      if (EK::key(a) != EK::key(b)) throw pbt::Fail("deduplicate called on entries that are not equal");
      c.delLive(ia); c.delLive(ib);
      const unsigned id = c.newId(EK::key(a));
      c.addLive(id);
      ++c.dedups;
      Ctx* cp = ctx;
      if (EK::pointer) {
        Entry ca = a, cb = b;
        c.cleanup.push_back([cp, ca, cb]() {EK::drop(*cp, ca); EK::drop(*cp, cb);});
      }
      return EK::make(c, EK::key(a), id);
    }
  };

  template<class EK>
  struct IQueue {
    typedef typename EK::Entry Entry;
    virtual ~IQueue() {}
    virtual void push(const Entry& e) = 0;
    virtual void pushRange(const std::vector<Entry>& e, int how) = 0;
    virtual Entry pop() = 0;
    virtual Entry top() = 0;
    virtual bool empty() = 0;
    virtual size_t size() = 0;
    virtual void decreaseTop(const Entry& e) = 0;
    virtual void clear() = 0;
    virtual void forAll(std::function<bool(const Entry&)> f) = 0;
    virtual bool move() {return false;}
    virtual size_t memory() = 0;
    virtual std::string name() = 0;
    bool hasSize, hasClear, hasForAll, hasDecrease, sortedRange, strictRange;
    IQueue(): hasSize(true), hasClear(true), hasForAll(true), hasDecrease(true),
      sortedRange(false), strictRange(false) {}
    // for the comparison bound of geobuckets; 0 = not a geobucket
    double amortPush, amortPop; size_t geoBase, minBucket, factor;
  };

  template<class E>
  struct Visitor {
    std::function<bool(const E&)>& f;
    Visitor(std::function<bool(const E&)>& f): f(f) {}
    bool proceed(const E& e) {return f(e);}
  };

  template<class EK>
  class Driver {
  public:
    typedef typename EK::Entry Entry;
    Driver(pbt::Src& s, Ctx& c, IQueue<EK>& q): s(s), c(c), q(q), bulk(false), maxSize(0), pushes(0), pops(0), opStart(0) {}

    int freshKey() {
      switch (pattern) {
      case 1: return static_cast<int>(seq += number(3));
      case 2: seq += number(3); return static_cast<int>(1000000 - seq);
      case 3: {++seq; return static_cast<int>((seq * 37) % (keyRange + 1));}
      default: return static_cast<int>(number(keyRange));
      }
    }
    uint64_t number(uint64_t n) {return bulk ? rng(n) : s.draw(n);}
    void pushOne() {
      Entry e = fresh(freshKey());
      PLOG(s, "push rank " << c.rank(EK::key(e)) << " #" << EK::id(e));
      tick();
      q.push(e);
      ++pushes;
      tock("push", 1);
      checkState("push");
    }
    void pushRange(size_t n, int how) {
      std::vector<int> keys;
      for (size_t i = 0; i < n; ++i) keys.push_back(freshKey());
      if (q.sortedRange) {
        std::stable_sort(keys.begin(), keys.end(), [&](int a, int b) {return c.rank(a) > c.rank(b);});
        if (q.strictRange)
          keys.erase(std::unique(keys.begin(), keys.end(),
            [&](int a, int b) {return c.rank(a) == c.rank(b);}), keys.end());
      }
      std::vector<Entry> es;
      for (size_t i = 0; i < keys.size(); ++i) es.push_back(fresh(keys[i]));
      PLOG(s, "push range of " << keys.size() << (keys.empty() ? "" : ", first rank ")
        << (keys.empty() ? 0 : c.rank(keys[0])));
      tick();
      q.pushRange(es, how);
      pushes += es.size();
      tock("range push", es.size() + 1);
      checkState("range push");
      s.labelIf(es.empty(), "empty range pushed");
    }
    /// Thousands of entries, by pushes, large ranges and pops.
    void bulkPhase() {
      rng = pbt::Bulk(s.draw(1000000));
      const bool wasVerbose = s.verbose;
      for (size_t phases = 1 + s.draw(3); phases > 0; --phases) {
        const size_t n = s.draw(s.flag() ? 5000 : EK::pointer || c.orderKind == 3 ? 30000 : 80000);
        const size_t popPart = s.draw(4); // of 4 operations
        const int ranges = static_cast<int>(s.draw(3));
        PLOG(s, "bulk of " << n << " pushes, pops " << popPart << "/4, ranges " << ranges);
        bulk = true; s.verbose = false;
        for (size_t i = 0; i < n;) {
          if (ranges == 2 && rng(100) == 0) {
            size_t k = rng(2000);
            pushRange(k, static_cast<int>(rng(3)));
            i += k + 1;
          } else {pushOne(); ++i;}
          for (size_t k = popPart; k > 0; --k)
            if (rng(4) == 0 && c.liveCount > 0) {doPop(rng(4) == 0); checkState("pop");}
        }
        for (size_t k = s.draw(4) == 0 ? c.liveCount * s.draw(4) / 4 : 0; k > 0 && c.liveCount > 0; --k) doPop(false);
        bulk = false; s.verbose = wasVerbose;
        checkState("bulk work");
        if (q.hasForAll && s.draw(4) == 0) enumerate(~size_t(0));
      }
    }
    Entry fresh(int key, bool makeLive = true) {
      const unsigned id = c.newId(key);
      c.addLive(id);
      return EK::make(c, key, id);
    }
    void tick() {opStart = c.compares;}
    double lg(size_t n) const {return std::log(static_cast<double>(n) + 2) / std::log(2.0);}
    void tock(const char* what, size_t elements) {
      if (FOCUS != 3 || q.geoBase != 0) return;
      const size_t n = std::max(maxSizeNow, c.liveCount);
      const double bound = elements * (3 * lg(n) + 6);
      PCHECK(c.compares - opStart <= bound, what << " on " << n << " elements made "
        << c.compares - opStart << " comparisons, more than " << bound);
    }
    void checkTrouble() {
      PCHECK(c.trouble.empty(), c.trouble);
      for (size_t i = 0; i < c.cleanup.size(); ++i) c.cleanup[i]();
      c.cleanup.clear();
    }
    void checkState(const char* after) {
      checkTrouble();
      PCHECK(q.empty() == (c.liveCount == 0), "empty() is " << q.empty() << " after " << after
        << " but " << c.liveCount << " elements remain");
      if (q.hasSize)
        PCHECK(q.size() == c.liveCount, "size() is " << q.size() << " after " << after
          << " but " << c.liveCount << " elements remain");
      maxSize = std::max(maxSize, c.liveCount);
      maxSizeNow = c.liveCount;
    }
    void checkMax(const Entry& e, const char* what) {
      PCHECK(EK::intact(c, e), what << " returned a damaged entry");
      PCHECK(c.isLive(EK::id(e)), what << " returned entry #" << EK::id(e)
        << " (key " << EK::key(e) << ") which the queue does not contain");
      PCHECK(c.rank(EK::key(e)) == c.maxRank(), what << " returned rank " << c.rank(EK::key(e))
        << " (entry #" << EK::id(e) << ") but the maximal rank is " << c.maxRank());
    }
    void doPop(bool topFirst) {
      unsigned topId = ~0u;
      if (topFirst) {
        Entry t = q.top();
        checkMax(t, "top");
        topId = EK::id(t);
      }
      tick();
      Entry e = q.pop();
      tock("pop", 1);
      checkMax(e, "pop");
      if (topFirst)
        PCHECK(EK::id(e) == topId, "pop returned entry #" << EK::id(e) << " but top was #" << topId);
      c.delLive(EK::id(e));
      checkTrouble();
      EK::drop(c, e);
      ++pops;
      PLOG(s, "pop -> " << c.rank(c.keyOf[topFirst ? topId : 0]));
    }
    void enumerate(size_t stopAfter) {
      std::vector<unsigned char> seen(c.live.size(), 0);
      size_t count = 0;
      bool stopped = false;
      q.forAll([&](const Entry& e) -> bool {
        PCHECK(!stopped, "enumeration went on after the callback asked to stop");
        PCHECK(EK::intact(c, e) && c.isLive(EK::id(e)), "enumeration visits an entry that is not in the queue");
        PCHECK(!seen[EK::id(e)], "enumeration visits entry #" << EK::id(e) << " twice");
        seen[EK::id(e)] = 1;
        ++count;
        if (count >= stopAfter) {stopped = true; return false;}
        return true;
      });
      const size_t expect = std::min(stopAfter, c.liveCount);
      PCHECK(count == expect, "enumeration visited " << count << " of " << c.liveCount
        << " elements, asked to stop after " << stopAfter);
    }
    void collect(std::vector<Entry>& v) {
      q.forAll([&](const Entry& e) -> bool {v.push_back(e); return true;});
    }

    void run() {
      c.orderKind = static_cast<int>(s.draw(4));
      c.tableSize = 1 + static_cast<int>(s.draw(24));
      if (c.orderKind == 3)
        for (int i = 0; i < c.tableSize; ++i) c.table.push_back(static_cast<int>(s.draw(1 + c.tableSize / 2)));
      else c.orderKind %= 3;
      static const unsigned long long ranges[] = {1, 2, 4, 12, 100, 2000000000ull};
      keyRange = ranges[s.draw(6)];
      pattern = static_cast<int>(s.draw(4));
      if (pattern == 3 && keyRange < 100) pattern = 0;
      seq = 0;
      maxSizeNow = 0;
      const unsigned profile = static_cast<unsigned>(s.draw(4)); // grow, even, shrink, ranges
      PLOG(s, q.name() << " order " << c.orderKind << " keys below " << keyRange << " pattern " << pattern);
      const unsigned wPush = profile == 0 ? 10 : profile == 2 ? 3 : 5;
      const unsigned wRange = profile == 3 ? 6 : 1;
      const unsigned wPop = profile == 0 ? 2 : profile == 2 ? 4 : 4;
      const unsigned wClear = FOCUS == 2 || FOCUS == 4 ? 1 : 0;
      const unsigned wEnum = FOCUS == 2 || FOCUS == 4 ? 3 : 0;
      size_t clears = 0, afterClear = 0, ties = 0, decreases = 0;
      if (pbt::huge) bulkPhase();
      for (pbt::List l(s, FOCUS == 3 ? 60 : 14, 120, FOCUS == 4 ? 300 : 1200); l.next();) {
        const size_t op = s.weighted({wPush * 4, wRange * 4, wPop * 4, 4, 8, 8, wClear * 2, wEnum * 2, wEnum * 2, 2,
          EK::pointer ? 8u : 0u, 1});
        switch (op) {
        case 0: {
          pushOne();
          if (clears) ++afterClear;
          break;
        }
        case 1: {
          const size_t n = s.draw(3) == 0 ? s.draw(60) : s.draw(6);
          pushRange(n, static_cast<int>(s.draw(3)));
          break;
        }
        case 2: {
          if (c.liveCount == 0) break;
          doPop(s.flag());
          checkState("pop");
          break;
        }
        case 3: {
          size_t n = s.draw(40);
          for (; n > 0 && c.liveCount > 0; --n) doPop(false);
          checkState("several pops");
          break;
        }
        case 4: {
          if (c.liveCount == 0) break;
          Entry t = q.top();
          checkTrouble();
          checkMax(t, "top");
          PLOG(s, "top -> " << c.rank(EK::key(t)));
          checkState("top");
          break;
        }
        case 5: {
          if (c.liveCount == 0 || !q.hasDecrease) break;
          Entry t = q.top();
          checkTrouble();
          checkMax(t, "top");
          const int k = smallerKey(EK::key(t));
          c.delLive(EK::id(t));
          Entry e = fresh(k);
          PLOG(s, "decreaseTop from rank " << c.rank(EK::key(t)) << " to " << c.rank(k));
          tick();
          q.decreaseTop(e);
          tock("decreaseTop", 2);
          ++pushes; ++pops; ++decreases;
          checkTrouble();
          EK::drop(c, t);
          checkState("decreaseTop");
          break;
        }
        case 6: {
          if (!q.hasClear) break;
          std::vector<Entry> gone;
          if (EK::pointer) collect(gone);
          PLOG(s, "clear");
          q.clear();
          for (size_t i = 0; i < gone.size(); ++i) EK::drop(c, gone[i]);
          for (unsigned i = 0; i < c.live.size(); ++i) if (c.live[i] == 1) c.live[i] = 2;
          c.liveCount = 0; c.ranks.clear();
          checkState("clear");
          ++clears;
          break;
        }
        case 7: {
          if (!q.hasForAll) break;
          PLOG(s, "enumerate");
          enumerate(~size_t(0));
          checkState("enumeration");
          break;
        }
        case 8: {
          if (!q.hasForAll) break;
          const size_t n = 1 + s.draw(c.liveCount + 2);
          PLOG(s, "enumerate, stop after " << n);
          enumerate(n);
          checkState("stopped enumeration");
          break;
        }
        case 9: {
          if (FOCUS == 2 || FOCUS == 4)
            if (q.move()) {
              PLOG(s, "move construction");
              s.label("moved");
              checkState("move construction");
              enumerate(~size_t(0));
            }
          break;
        }
        case 10: {
          if (c.liveCount == 0 || !q.hasDecrease || c.dedupOn) break;
          changeTopInPlace();
          break;
        }
        default: {
          (void)q.memory();
          (void)q.name();
        }
        }
      }
      ties = pushes - std::min<size_t>(pushes, c.ranks.size());
      const size_t beforeDrain = c.liveCount;
      if ((FOCUS == 2 || FOCUS == 4) && q.hasForAll) enumerate(~size_t(0));
      const bool drain = !s.flag(1, 8);
      if (drain) {
        long long last = 0; bool first = true;
        while (c.liveCount > 0) {
          PCHECK(!q.empty(), "the queue claims to be empty while draining, but " << c.liveCount << " elements remain");
          const uint64_t before = c.liveCount;
          (void)before;
          tick();
          Entry e = q.pop();
          tock("pop", 1);
          ++pops;
          checkMax(e, "pop");
          const long long r = c.rank(EK::key(e));
          PCHECK(first || r <= last, "drained rank " << r << " after rank " << last);
          last = r; first = false;
          c.delLive(EK::id(e));
          checkTrouble();
          EK::drop(c, e);
        }
        checkState("draining");
        if (s.flag(1, 3)) { // the drained queue is as good as new
          for (int i = 0; i < 5; ++i) {q.push(fresh(freshKey())); ++pushes;}
          while (c.liveCount > 0) doPop(true);
          checkState("second draining");
        }
      } else if (EK::pointer) {
        std::vector<Entry> left;
        if (q.hasForAll) collect(left);
        toDrop = left;
      }
      if (FOCUS == 3 && q.geoBase != 0) {
        // amortised bound; see DESIGN.md for where it comes from
        double levels = 2;
        for (double cap = q.minBucket; cap < maxSize * q.factor + 1; cap *= q.geoBase) ++levels;
        const double bound = 0.35 * (pushes * (q.minBucket + 3.0 * q.geoBase * q.factor * levels) + pops * (2 * levels + 4)) + 100;
        PCHECK(c.compares <= bound, "history of " << pushes << " pushes and " << pops << " pops, never more than "
          << maxSize << " elements, made " << c.compares << " comparisons; the bound is " << bound);
        if (getenv("PBT_STATS")) {FILE* f = fopen(getenv("PBT_STATS"), "a"); fprintf(f, "%.3f %zu %zu %s\n", c.compares / bound, maxSize, (size_t)c.compares, q.name().c_str()); fclose(f);}
      }
      s.labelIf(maxSize > 16, "more than 16 elements");
      s.labelIf(maxSize > 100, "more than 100 elements");
      s.labelIf(maxSize > 500, "more than 500 elements");
      s.labelIf(maxSize > 10000, "more than 10000 elements");
      s.labelIf(maxSize > 65536, "more than 65536 elements");
      s.labelIf(c.dedups > 0, "entries combined");
      s.labelIf(afterClear > 0, "used after clear");
      s.labelIf(decreases > 0, "top replaced");
      s.labelIf(ties > 0, "ties or removed");
      bool nt;
      if (FOCUS == 1) nt = c.dedups >= 2 && pops >= 2;
      else if (FOCUS == 2) nt = maxSize >= 3 && pushes > 4;
      else if (FOCUS == 3) nt = maxSize >= 32;
      else nt = maxSize >= 4 && pops >= 2;
      (void)beforeDrain;
      if (nt) s.nontrivial();
    }
    void finish() { // after the queue is gone
      for (size_t i = 0; i < toDrop.size(); ++i) EK::drop(c, toDrop[i]);
    }

    int smallerKey(int key) {
      // a key of at most the rank of the given one
      const int k = freshKey();
      if (s.flag(3, 4) && c.rank(k) <= c.rank(key)) return k;
      if (c.orderKind == 0) return key - static_cast<int>(s.small(std::max(1, std::min(key, 1000))) );
      if (c.orderKind == 1) return key < 1999999999 ? key + static_cast<int>(s.small(1000)) : key;
      return c.rank(k) <= c.rank(key) ? k : key;
    }
    void changeTopInPlace();

    pbt::Src& s;
    Ctx& c;
    IQueue<EK>& q;
    unsigned long long keyRange, seq;
    bool bulk; pbt::Bulk rng;
    int pattern;
    size_t maxSize, maxSizeNow, pushes, pops;
    uint64_t opStart;
    std::vector<Entry> toDrop;
  };
  template<class EK> inline void changeImpl(Driver<EK>&) {}
  inline void changeImpl(Driver<Ptr>& d) {
    Item* t = d.q.top();
    d.checkMax(t, "top");
    const int k = d.smallerKey(t->key);
    d.c.delLive(t->id);
    const unsigned id = d.c.newId(k);
    d.c.addLive(id);
    PLOG(d.s, "change top in place from rank " << d.c.rank(t->key) << " to " << d.c.rank(k) << ", then decreaseTop");
    t->key = k; t->id = id;
    d.q.decreaseTop(t);
    ++d.pushes; ++d.pops;
    d.checkState("in-place change of top");
  }
  template<class EK>
  void Driver<EK>::changeTopInPlace() {changeImpl(*this);}

  /// Runs one case on a queue made by Adapter(Ctx*, Src&).
  template<class EK, class Adapter>
  void runQueue(pbt::Src& s) {
    Ctx c;
    std::vector<typename EK::Entry> left;
    {
      Adapter a(&c, s);
      c.dedupOn = a.strictRange;
      Driver<EK> d(s, c, a);
      d.run();
      left = d.toDrop;
      for (size_t i = 0; i < c.cleanup.size(); ++i) c.cleanup[i]();
    }
    for (size_t i = 0; i < left.size(); ++i) EK::drop(c, left[i]);
  }
}
#endif
