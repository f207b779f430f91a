// Hash table against a map. FOCUS 0: inserts and lookups; 1: also removal
// and reset; 2: debug build, everything.
#include "pbt.h"
#include "mathic/stdinc.h"
#include "mathic/HashTable.h"
#include <map>

namespace {
  enum {RoomForKeys = 1 << 14};
  int coarseOf(int k, int coarse) {return coarse == 0 ? k : k >> coarse;}
  struct Rule {int hashKind, coarse;};
  size_t hashOf(int k, const Rule& r) {
    const size_t c = static_cast<size_t>(coarseOf(k, r.coarse));
    switch (r.hashKind) {
    case 0: return c;
    case 1: return 0;
    case 2: return c % 3;
    case 3: return c << 12;
    case 4: return c * size_t(0x9e3779b97f4a7c15ull);
    case 5: return ~c;
    case 6: return (c << 40) | (c % 5);
    default: return ~size_t(0);
    }
  }
  struct IntConf {
    typedef int Key;
    typedef long Value;
    Rule r;
    size_t hash(int k) const {return hashOf(k, r);}
    bool keysEqual(int a, int b) const {return coarseOf(a, r.coarse) == coarseOf(b, r.coarse);}
    static int key(int k) {return k;}
    static long value(int v) {return v;}
  };
  struct Text { // a key without resources that is large
    char c[24];
    bool operator==(const Text& t) const {return strcmp(c, t.c) == 0;}
  };
  std::ostream& operator<<(std::ostream& o, const Text& t) {return o << t.c;}
  struct TextConf {
    typedef Text Key;
    typedef const char* Value;
    Rule r;
    size_t hash(const Text& k) const {return hashOf(atoi(k.c), r);}
    bool keysEqual(const Text& a, const Text& b) const {return coarseOf(atoi(a.c), r.coarse) == coarseOf(atoi(b.c), r.coarse);}
    static Text key(int k) {Text t; memset(t.c, 0, sizeof(t.c)); snprintf(t.c, sizeof(t.c), "%d", k); return t;}
    static const char* value(int v) {static char room[1 << 16]; return room + (v & 0xffff);}
  };
  struct CharConf { // the smallest handles
    typedef unsigned char Key;
    typedef unsigned char Value;
    Rule r;
    size_t hash(unsigned char k) const {return hashOf(k, r);}
    bool keysEqual(unsigned char a, unsigned char b) const {return coarseOf(a, r.coarse) == coarseOf(b, r.coarse);}
    static unsigned char key(int k) {return static_cast<unsigned char>(k);}
    static unsigned char value(int v) {return static_cast<unsigned char>(v);}
  };
  struct StringConf {
    typedef std::string Key;
    typedef std::string Value;
    Rule r;
    size_t hash(const std::string& k) const {return hashOf(atoi(k.c_str()), r);}
    bool keysEqual(const std::string& a, const std::string& b) const {return coarseOf(atoi(a.c_str()), r.coarse) == coarseOf(atoi(b.c_str()), r.coarse);}
    static std::string key(int k) {std::ostringstream o; o << k; return o.str();}
    static std::string value(int v) {std::ostringstream o; o << "v" << v; return o.str();}
  };

  template<class C> void prop(pbt::Src& s) {
    typedef mathic::HashTable<C> Table;
    typedef typename Table::Handle Handle;
    struct Known {Handle* h; int key, value;};
    C conf;
    conf.r.hashKind = static_cast<int>(s.draw(8));
    conf.r.coarse = s.draw(4) == 3 ? 1 + static_cast<int>(s.draw(3)) : 0;
    const bool tiny = sizeof(typename C::Key) == 1;
    static const unsigned bits[] = {10, 0, 1, 2, 3, 5, 7, 12};
    const unsigned nbits = bits[s.draw(8)];
    static const int keyRanges[] = {10, 40, 200, 2000, 10000};
    static const int hugeRanges[] = {20000, 150000, 1000000};
    const int keyRange = tiny ? 256 : pbt::huge ? hugeRanges[s.draw(3)] : keyRanges[s.draw(5)];
    // long chains cost quadratic time
    const bool chains = conf.r.hashKind == 1 || conf.r.hashKind == 2 || conf.r.hashKind == 7 || conf.r.hashKind == 3;
    const size_t maxKeys = pbt::huge ? (chains || conf.r.hashKind == 6 ? 1500 : 200000) : chains ? 400 : 3000;
    PLOG(s, "hash " << conf.r.hashKind << " coarse " << conf.r.coarse << " bits " << nbits);
    Table t(conf, nbits);
    const bool defaultBits = nbits == 10 && s.flag();
    Table t2(conf);
    Table& table = defaultBits ? t2 : t;
    PCHECK(table.configuration().r.hashKind == conf.r.hashKind, "the configuration is not the given one");
    std::map<int, Known> model; // by class
    auto cls = [&](int k) {return coarseOf(k, conf.r.coarse);};
    size_t inserted = 0, duplicates = 0, removed = 0, hits = 0, misses = 0, resets = 0, reinserted = 0, maxSize = 0;
    std::map<int, bool> everRemoved;
    auto checkOne = [&](int k, const char* when) {
      Handle* h = table.lookup(C::key(k));
      typename std::map<int, Known>::const_iterator it = model.find(cls(k));
      if (it == model.end()) {
        ++misses;
        PCHECK(h == 0, "lookup finds key " << k << " that is not in the table" << when);
      } else {
        ++hits;
        PCHECK(h != 0, "lookup does not find key " << k << when);
        PCHECK(h == it->second.h, "the entry of key " << k << " changed its address" << when);
        const Handle* ch = h;
        PCHECK(h->key() == C::key(it->second.key), "the key of the entry of " << k << " changed" << when);
        PCHECK(h->value() == C::value(it->second.value) && ch->value() == C::value(it->second.value),
          "the value of the entry of " << k << " changed" << when);
      }
    };
    auto checkAll = [&](const char* when) {
      if (model.size() > 5000) { // a sample
        pbt::Bulk r(s.draw(1u << 30));
        for (size_t i = 0; i < 3000; ++i) {
          typename std::map<int, Known>::const_iterator it = model.lower_bound(cls(static_cast<int>(r(keyRange))));
          if (it != model.end()) checkOne(it->second.key, when);
          checkOne(static_cast<int>(r(keyRange)), when);
        }
        return;
      }
      for (typename std::map<int, Known>::const_iterator it = model.begin(); it != model.end(); ++it) checkOne(it->second.key, when);
      for (size_t i = 0; i < 8; ++i) checkOne(static_cast<int>(s.draw(keyRange)), when);
    };
    auto insert = [&](int k, int v) {
      std::pair<bool, Handle*> r = table.insert(C::key(k), C::value(v));
      PCHECK(r.second != 0, "insert of key " << k << " returns no entry");
      typename std::map<int, Known>::iterator it = model.find(cls(k));
      if (it != model.end()) {
        ++duplicates;
        PCHECK(!r.first, "insert reports key " << k << " as new though it is in the table");
        PCHECK(r.second == it->second.h, "insert of the existing key " << k << " returns another entry");
      } else {
        ++inserted;
        if (everRemoved[cls(k)]) ++reinserted;
        PCHECK(r.first, "insert reports key " << k << " as existing though it is not in the table");
        PCHECK(r.second->key() == C::key(k) && r.second->value() == C::value(v), "insert of key " << k << " stored something else");
        Known n = {r.second, k, v};
        model[cls(k)] = n;
        maxSize = std::max(maxSize, model.size());
      }
      checkOne(k, " after its insertion");
    };
    auto remove = [&](int c) {
      Known n = model[c];
      Handle* p = n.h;
      table.remove(p);
      model.erase(c);
      everRemoved[c] = true;
      ++removed;
      checkOne(n.key, " after its removal");
    };
    auto sweep = [&]() { // every key that there is
      for (typename std::map<int, Known>::const_iterator it = model.begin(); it != model.end(); ++it) checkOne(it->second.key, " in a sweep");
    };
    if (pbt::huge) {
      pbt::Bulk r(s.draw(1u << 30));
      const size_t n = s.draw(maxKeys);
      const bool sequential = s.flag();
      const size_t wRemove = FOCUS >= 1 ? s.draw(4) : 0;
      PLOG(s, "bulk of " << n << (sequential ? " in sequence" : "") << " removals " << wRemove);
      for (size_t i = 0; i < n; ++i) {
        if (wRemove > 0 && r(8) < wRemove && !model.empty()) {
          typename std::map<int, Known>::iterator it = model.lower_bound(cls(static_cast<int>(r(keyRange))));
          if (it == model.end()) it = model.begin();
          remove(it->first);
        } else
          insert(static_cast<int>(sequential ? i % keyRange : r(keyRange)), static_cast<int>(r(100)));
      }
      sweep();
      s.labelIf(maxSize > 10000, "more than 10000 entries");
      s.labelIf(maxSize > 65536, "more than 65536 entries");
    }
    for (pbt::List l(s, 30, 150, 500); l.next();) {
      const size_t op = s.weighted({8, 5, 3, 2, 1, FOCUS >= 1 ? 6u : 0u, FOCUS >= 1 ? 2u : 0u, FOCUS >= 1 ? 1u : 0u});
      const int k = static_cast<int>(s.draw(keyRange));
      switch (op) {
      case 0: {
        if (model.size() >= maxKeys) break;
        const int v = static_cast<int>(s.draw(100));
        PLOG(s, "insert " << k << " -> " << v);
        insert(k, v);
        break;
      }
      case 1:
        PLOG(s, "lookup " << k);
        checkOne(k, "");
        break;
      case 2: // change a value
        if (model.count(cls(k))) {
          const int v = static_cast<int>(s.draw(100));
          PLOG(s, "value of " << k << " = " << v);
          table.lookup(C::key(k))->value() = C::value(v);
          model[cls(k)].value = v;
        }
        break;
      case 3: { // many
        const int n = static_cast<int>(s.small(FOCUS == 2 ? 60 : 500));
        PLOG(s, "insert " << n << " from " << k);
        for (int i = 0; i < n && model.size() < maxKeys; ++i) insert((k + i * 7) % keyRange, i);
        checkAll(" after many insertions");
        break;
      }
      case 4: checkAll(" in the middle"); break;
      case 5:
        if (!model.empty()) {
          typename std::map<int, Known>::iterator it = model.lower_bound(cls(k));
          if (it == model.end()) it = model.begin();
          PLOG(s, "remove " << it->second.key);
          remove(it->first);
          if (s.draw(4) == 0) checkAll(" after a removal");
        }
        break;
      case 6: { // remove many
        const size_t n = s.flag() ? model.size() : s.small(model.size() + 1);
        PLOG(s, "remove " << n);
        for (size_t i = 0; i < n; ++i) {
          typename std::map<int, Known>::iterator it = model.lower_bound(cls(static_cast<int>(s.draw(keyRange))));
          if (it == model.end()) it = model.begin();
          remove(it->first);
        }
        checkAll(" after many removals");
        break;
      }
      case 7:
        if (s.draw(3) == 0) {
          PLOG(s, "hard reset of " << model.size());
          table.hardReset();
        } else {
          PLOG(s, "removal of " << model.size() << " and reset");
          while (!model.empty()) remove(s.flag() ? model.begin()->first : model.rbegin()->first);
          table.reset();
        }
        ++resets;
        { // all are absent
          std::map<int, Known> old;
          old.swap(model);
          for (typename std::map<int, Known>::iterator it = old.begin(); it != old.end(); ++it) checkOne(it->second.key, " after reset");
        }
        checkAll(" after reset");
        break;
      }
    }
    checkAll(" at the end");
    if (pbt::huge) sweep();
    s.labelIf(duplicates > 0, "existing key inserted");
    s.labelIf(maxSize > 100, "more than 100 entries");
    s.labelIf(removed > 0, "removed");
    s.labelIf(reinserted > 0, "reinserted after removal");
    s.labelIf(resets > 0, "reset");
    s.labelIf(conf.r.coarse > 0, "equal keys that differ");
    if (FOCUS == 0 ? inserted >= 3 && duplicates >= 1 && hits > 0 && misses > 0
        : inserted >= 3 && ((removed >= 1 && reinserted >= 1) || resets >= 1)) s.nontrivial();
  }
}
PBT_VARIANT("int keys", 4, prop<IntConf>);
PBT_VARIANT("text keys", 2, prop<TextConf>);
PBT_VARIANT("char keys", 1, prop<CharConf>);
PBT_VARIANT("string keys", 2, prop<StringConf>);
