// What the hash table costs: key comparisons, hash computations and bins.
#include "pbt.h"
#include "mathic/stdinc.h"
#include "mathic/HashTable.h"
#include <map>

namespace {
  struct Counts {unsigned long long hash, equal;};
  uint64_t mixOf(uint64_t x, uint64_t salt) {
    x += salt * 0x9e3779b97f4a7c15ull + 1;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
  }
  struct Num {
    typedef uint64_t Key;
    typedef int Value;
    Counts* c; uint64_t salt;
    size_t hash(uint64_t k) const {++c->hash; return static_cast<size_t>(mixOf(k, salt));}
    bool keysEqual(uint64_t a, uint64_t b) const {++c->equal; return a == b;}
  };
  struct Big {uint64_t k; char fill[120];};
  struct Fat {
    typedef Big Key;
    typedef char Value;
    Counts* c; uint64_t salt;
    size_t hash(const Big& k) const {++c->hash; return static_cast<size_t>(mixOf(k.k, salt));}
    bool keysEqual(const Big& a, const Big& b) const {++c->equal; return a.k == b.k;}
  };
  void make(uint64_t k, uint64_t& to) {to = k;}
  void make(uint64_t k, Big& to) {memset(&to, 0, sizeof(to)); to.k = k;}

  template<class C> void prop(pbt::Src& s) {
    typedef mathic::HashTable<C> Table;
    typedef typename Table::Handle Handle;
    Counts c = {0, 0};
    C conf;
    conf.c = &c;
    conf.salt = s.draw(1u << 30);
    static const unsigned bits[] = {10, 0, 1, 2, 4, 6, 8, 13};
    const unsigned nbits = bits[s.draw(8)];
    const bool defaultBits = nbits == 10 && s.flag();
    Table t1(conf, nbits), t2(conf);
    Table& table = defaultBits ? t2 : t1;
    const size_t start = size_t(1) << nbits;
    pbt::Bulk r(s.draw(1u << 30));
    // phases of operations on uniformly drawn keys
    uint64_t range = 1000 + s.draw(pbt::huge ? 1000000 : 40000);
    std::map<uint64_t, Handle*> in;
    unsigned long long ops = 0, hits = 0, misses = 0, removals = 0, inserted = 0;
    size_t peak = 0, phases = 0;
    auto check = [&](const char* when) {
      if (peak >= 600) {
        // The table keeps several bins per entry.
        PCHECK(c.equal <= 1.3 * hits + 0.5 * misses + 150, "after " << ops << " operations (" << hits << " found a key, " << misses
          << " did not) " << c.equal << " key comparisons were made, with up to " << peak << " entries" << when);
      }
      PCHECK(c.hash <= ops + 2.5 * inserted + 100, "after " << ops << " operations with " << inserted << " keys inserted "
        << c.hash << " hash values were computed" << when);
      const double bins = 8.0 * (45.0 * peak + 2 * start);
      const double nodes = 2.5 * inserted * sizeof(Handle) + 100000;
      PCHECK(table.memoryUse() <= bins + nodes, table.memoryUse() << " bytes are used for up to " << peak << " entries, " << inserted
        << " inserted in total" << when);
    };
    for (pbt::List l(s, 4, 8, 12); l.next();) {
      const size_t kind = s.draw(5);
      size_t n = 200 + s.draw(pbt::huge ? 300000 : kind == 3 ? 20000 : 6000);
      PLOG(s, "phase " << kind << " of " << n << " keys below " << range);
      ++phases;
      for (size_t i = 0; i < n; ++i) {
        const uint64_t k = r(range);
        typename C::Key key;
        make(k, key);
        const bool known = in.count(k) != 0;
        size_t op = kind;
        if (kind == 3) op = r(2) ? 0 : 2; // churn
        if (kind == 4) op = 1 + r(2);
        if (op == 2 && !known) op = 1;
        if (op == 0) {
          std::pair<bool, Handle*> p = table.insert(key, 1);
          PCHECK(p.first == !known, "insert reports " << p.first);
          if (p.first) {++inserted; in[k] = p.second; peak = std::max(peak, in.size());}
        } else if (op == 1) {
          PCHECK((table.lookup(key) != 0) == known, "lookup is wrong");
        } else {
          Handle* h = in[k];
          const unsigned long long e = c.equal;
          table.remove(h);
          PCHECK(c.equal - e <= 60, "a removal made " << c.equal - e << " key comparisons");
          c.equal = e;
          in.erase(k);
          ++removals;
        }
        ++ops;
        if (op == 2) continue;
        if (known) ++hits; else ++misses;
      }
      check("");
      if (s.draw(8) == 0) {
        if (s.flag()) {
          PLOG(s, "hard reset");
          table.hardReset();
        } else {
          PLOG(s, "removal of all and reset");
          for (auto& x: in) {Handle* h = x.second; table.remove(h); ++ops;}
          table.reset();
        }
        in.clear();
        check(" and a reset");
      }
    }
    s.labelIf(peak > 5000, "more than 5000 entries");
    s.labelIf(peak > 100000, "more than 100000 entries");
    s.labelIf(removals > 1000, "more than 1000 removals");
    s.labelIf(ops > 20000, "more than 20000 operations");
    if (peak >= 600 && hits >= 100 && misses >= 100) s.nontrivial();
  }
}
PBT_VARIANT("hash cost numbers", 3, prop<Num>);
PBT_VARIANT("hash cost large keys", 1, prop<Fat>);
