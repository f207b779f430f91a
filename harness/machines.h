// Every structure as a machine that performs operations drawn at random.
#ifndef MACHINES_H
#define MACHINES_H
#include "pbt.h"
#include "alloc.h"
#include "finder.h"
#include <mathic/Heap.h>
#include <mathic/TourTree.h>
#include <mathic/Geobucket.h>
#include <mathic/StlSet.h>
#include <mathic/BitTriangle.h>
#include <mathic/PairQueue.h>
#include <mathic/HashTable.h>
#include <mathic/ColumnPrinter.h>
#include <mathic/NameFactory.h>
#include <mathic/CliParser.h>
#include <mathic/CliParameter.h>
#include <mathic/IntegerParameter.h>
#include <mathic/BoolParameter.h>
#include <mathic/StringParameter.h>
#include <mathic/Action.h>
#include <mathic/error.h>
#include <mathic/display.h>

namespace {
  struct Machine;
  struct Watched;
  using fh::Watch;
#if FOCUS == 41
  using fh::book;
  bool late = false; // the right options are given later
#else
  const bool late = false;
#endif
  struct Op {unsigned kind; unsigned long long a, b;};
  /// What is seen of one operation.
  struct Seen {
    std::string text;
    Seen& operator<<(long long v) {text += std::to_string(v); text += ' '; return *this;}
    Seen& operator<<(size_t v) {return *this << static_cast<long long>(v);}
    Seen& operator<<(int v) {return *this << static_cast<long long>(v);}
    Seen& operator<<(bool v) {return *this << static_cast<long long>(v);}
    Seen& operator<<(const std::string& s) {text += s; text += ' '; return *this;}
    Seen& operator<<(const char* s) {text += s; text += ' '; return *this;}
  };
  struct Machine {
    std::function<void()> hook; // called by the callbacks
    mutable unsigned long long calls;
    Machine(): calls(0) {}
    virtual ~Machine() {}
    virtual void step(const Op& op, Seen& seen) = 0;
    virtual void probe(Seen&) {}
    virtual const Watch* configuration() {return 0;}
    void called() const {++calls; if (hook) hook();}
  };
  struct Watched: Watch {
    const Machine* m;
    Watched(): m(0) {}
    void used() const {watch(); m->called();}
  };
  template<class S> auto configurationOf(S& s, int) -> decltype(&s.getConfiguration()) {
    const S& cs = s;
    PCHECK(&cs.getConfiguration() == &s.getConfiguration(), "the two configuration accessors return different objects");
    return &s.getConfiguration();
  }
  template<class S> auto configurationOf(S& s, long) -> decltype(&s.configuration()) {
    const S& cs = s;
    PCHECK(&cs.configuration() == &s.configuration(), "the two configuration accessors return different objects");
    return &s.configuration();
  }
  /// Makes a structure from a configuration that goes away afterwards.
  template<class S, class C, class... A> S* built(const C& conf, A... a) {
#if FOCUS == 41
    std::unique_ptr<C> original(new C(conf));
    if (late) original->flip();
    book.begin();
    std::unique_ptr<S> s(new S(*original, a...));
    PCHECK(book.copies == 1, "the configuration is copied " << book.copies << " times when the structure is made");
    PCHECK(configurationOf(*s, 0) != original.get(), "the configuration given is used, not a copy of it");
    original.reset();
    book.begin();
    book.end(configurationOf(*s, 0));
    if (late) configurationOf(*s, 0)->flop();
    return s.release();
#else
    return new S(conf, a...);
#endif
  }

  /// A stream that calls back while it is written to.
  struct Sink: std::streambuf {
    const Machine& m; std::string text;
    explicit Sink(const Machine& m): m(m) {}
    int overflow(int c) {m.called(); if (c != EOF) text += static_cast<char>(c); return 0;}
    std::streamsize xsputn(const char* s, std::streamsize n) {m.called(); text.append(s, static_cast<size_t>(n)); return n;}
  };

  // *** Queues
  struct QCommon: Watched {
    int order;
    QCommon(): order(0) {}
    void flip() {order += 3;}
    void flop() {order -= 3;}
    typedef int Entry;
    typedef int CompareResult;
    int key(int e) const {
      switch (order) {
      case 0: return e >> 8;
      case 1: return -(e >> 8);
      case 2: return (e >> 8) * 7919 % 101;
      default: return 0;
      }
    }
    int compare(int a, int b) const {used(); const int x = key(a), y = key(b); return x < y ? -1 : x > y;}
    bool cmpLessThan(int c) const {used(); return c < 0;}
    bool cmpEqual(int c) const {used(); return c == 0;}
    int deduplicate(int a, int b) const {used(); return (a & ~255) | ((a * 3 + b) & 255);}
  };
  template<bool Dedup> struct QConf: QCommon {static const bool supportDeduplication = Dedup;};
  template<bool Dedup, bool Fast> struct TConf: QConf<Dedup> {static const bool fastIndex = Fast;};
  template<bool Dedup, int Bits> struct GConf: QConf<Dedup> {
    size_t minBucketSize, geoBase;
    GConf(): minBucketSize(2), geoBase(2) {}
    static const size_t insertFactor = 1 + (Bits & 1);
    static const bool trackFront = (Bits & 1) != 0;
    static const bool minBucketBinarySearch = (Bits & 2) != 0;
    static const bool premerge = (Bits & 4) != 0;
    static const bool collectMax = (Bits & 8) != 0;
    static const mathic::GeobucketBucketStorage bucketStorage = static_cast<mathic::GeobucketBucketStorage>(Bits / 16);
  };
  template<class C> void gen(C& c, pbt::Bulk& r) {c.order = static_cast<int>(r(3));}
  template<bool D, int B> void gen(GConf<D, B>& c, pbt::Bulk& r) {c.order = static_cast<int>(r(3)); c.minBucketSize = 1 + r(6); c.geoBase = 2 + r(3);}
  struct Lister {
    Seen& s;
    bool proceed(int e) {s << e; return true;}
  };
  /// Tournament trees print addresses.
  std::string withoutAddresses(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
      if (s[i] == '0' && i + 1 < s.size() && s[i + 1] == 'x') {
        for (i += 2; i < s.size() && isxdigit(static_cast<unsigned char>(s[i]));) ++i;
        r += '@'; --i;
      } else r += s[i];
    }
    return r;
  }
  template<class Q> auto clearOf(Q& q, int) -> decltype(q.clear()) {q.clear();}
  template<class Q> void clearOf(Q& q, long) {while (!q.empty()) q.pop();}
  template<class Q> auto listOf(const Q& q, Seen& s, int) -> decltype(q.forAll(*static_cast<Lister*>(0))) {Lister l = {s}; q.forAll(l);}
  template<class Q> void listOf(const Q&, Seen&, long) {}
  template<class Q> auto lower(Q& q, int e, int) -> decltype(q.decreaseTop(e)) {q.decreaseTop(e);}
  template<class Q> void lower(Q& q, int e, long) {q.pop(); q.push(e);}
  template<class Q> bool moveOf(std::unique_ptr<Q>&) {return false;}
  template<class C> bool moveOf(std::unique_ptr<mathic::Heap<C> >& q) {q.reset(new mathic::Heap<C>(std::move(*q))); return true;}
  template<class Q, class C, bool Dedup> struct QueueMachine: Machine {
    C conf;
    std::unique_ptr<Q> q;
    explicit QueueMachine(pbt::Bulk& r) {gen(conf, r); conf.m = this; q.reset(built<Q>(conf));}
    const Watched* configuration() {return configurationOf(*q, 0);}
    int entry(unsigned long long x) const {return static_cast<int>((x % 200) << 8 | ((x >> 20) & 255));}
    void step(const Op& op, Seen& seen) {
      switch (op.kind % 12) {
      case 0: case 1: case 2: case 3: q->push(entry(op.a)); break;
      case 4: case 5: case 6: if (!q->empty()) seen << q->pop(); break;
      case 7: {
        std::vector<int> v;
        pbt::Bulk r(op.b);
        for (size_t n = op.a % 20 == 0 ? r(80) : r(8); n > 0; --n) v.push_back(entry(r(1ull << 40)));
        std::stable_sort(v.begin(), v.end(), [&](int a, int b) {return conf.key(a) > conf.key(b);});
        if (Dedup) v.erase(std::unique(v.begin(), v.end(), [&](int a, int b) {return conf.key(a) == conf.key(b);}), v.end());
        q->push(v.data(), v.data() + v.size());
        break;
      }
      case 8:
        if (!q->empty()) {
          const int t = q->top(), e = entry(op.a);
          if (conf.key(e) <= conf.key(t)) lower(*q, e, 0); else q->push(e);
        }
        break;
      case 9:
        if (op.a % 12 == 0) clearOf(*q, 0);
        if (op.a % 12 == 1) {
#if FOCUS == 41
          const Watch* const h = book.home;
          book.begin();
          if (!moveOf(q)) {book.home = h; break;}
          PCHECK(book.copies == 1, "the configuration is copied " << book.copies << " times when the heap is moved");
          book.begin();
          book.end(configuration());
#else
          moveOf(q);
#endif
        }
        break;
      case 10: listOf(*q, seen, 0); break;
      default: {Sink sink(*this); std::ostream o(&sink); if (op.a % 3 == 0) q->print(o); seen << withoutAddresses(sink.text) << q->getName();}
      }
    }
    void probe(Seen& seen) {
      seen << q->empty();
      if (!q->empty()) seen << static_cast<int>(q->top());
      seen << q->getMemoryUse();
    }
  };

  // *** Pair queues
  struct PData {
    long long rank; size_t col, row;
  };
  template<bool Retire> struct PConf: Watched {
    typedef PData PairData;
    typedef int CompareResult;
    int kind;
    void flip() {kind += 4;}
    void flop() {kind -= 4;}
    long long rank(size_t col, size_t row) const {
      const long long c = static_cast<long long>(col), r = static_cast<long long>(row);
      switch (kind) {
      case 0: return (c * 7919 + r * 104729 + c * r * 31) % 1009;
      case 1: return c + r;
      case 2: return -(c + 3 * r);
      case 3: return (c * r) % 7;
      default: return 0;
      }
    }
    void computePairData(size_t col, size_t row, PData& d) const {used(); d.rank = rank(col, row); d.col = col; d.row = row; used();}
    int compare(size_t, size_t, const PData& a, size_t, size_t, const PData& b) const {used(); return a.rank < b.rank ? -1 : a.rank > b.rank;}
    bool cmpLessThan(int c) const {used(); return c < 0;}
  };
}
namespace mathic {
  namespace PairQueueNamespace {
    template<> struct SupportRetirement<PConf<false> > {static const bool value = false;};
  }
}
namespace {
  template<class Q> void retire(Q& q, size_t i, std::true_type) {q.retireIndex(i);}
  template<class Q> void retire(Q&, size_t, std::false_type) {}
  template<bool Retire> struct PairMachine: Machine {
    PConf<Retire> conf;
    std::unique_ptr<mathic::PairQueue<PConf<Retire> > > q;
    std::vector<unsigned char> retired;
    const Watched* configuration() {return configurationOf(*q, 0);}
    explicit PairMachine(pbt::Bulk& r) {conf.m = this; conf.kind = static_cast<int>(r(4)); q.reset(built<mathic::PairQueue<PConf<Retire> > >(conf));}
    void step(const Op& op, Seen& seen) {
      pbt::Bulk r(op.b);
      switch (op.kind % 8) {
      case 0: case 1: case 2: {
        std::vector<unsigned> rows;
        const size_t col = retired.size();
        for (size_t j = 0; j < col; ++j) if (!retired[j] && r(3) != 0) rows.push_back(static_cast<unsigned>(j));
        std::stable_sort(rows.begin(), rows.end(), [&](unsigned a, unsigned b) {return conf.rank(col, a) > conf.rank(col, b);});
        q->addColumnDescending(rows.begin(), rows.end());
        retired.push_back(0);
        break;
      }
      case 3: case 4: case 5:
        for (size_t n = 1 + op.a % 5; n > 0 && !q->empty(); --n) {
          const std::pair<size_t, size_t> p = q->topPair();
          q->pop();
          seen << p.first << p.second;
        }
        break;
      case 6:
        if (Retire && op.a % 4 == 0 && !retired.empty()) {
          const size_t i = r(retired.size());
          if (!retired[i]) {retired[i] = 1; retire(*q, i, std::integral_constant<bool, Retire>());}
        }
        break;
      default: seen << q->name() << q->columnCount();
      }
    }
    void probe(Seen& seen) {
      seen << q->empty();
      if (!q->empty()) seen << q->topPair().first << q->topPair().second << static_cast<long long>(q->topPairData().rank);
      seen << q->getMemoryUse();
    }
  };

  // *** Divisor finders
  struct FindMachine: Machine {
    fh::Ctx c;
    const fh::Kind* k;
    std::unique_ptr<fh::IFinder> f;
    std::map<std::vector<fh::Exp>, size_t> present;
    fh::Exp top;
    int id;
    FindMachine(const fh::Kind& kind, pbt::Bulk& r): k(&kind), id(0) {
      c.varCount = 1 + r(5);
      c.orderKind = static_cast<int>(r(2));
      for (size_t v = 0; v < c.varCount; ++v) c.perm.push_back(v);
      fh::Opts o;
      static const double ratios[] = {0.5, 0.25, 1.0, 3.0};
      o.sort = r(2) != 0; o.cache = r(2) != 0; o.autoRebuild = r(2) != 0 && FOCUS != 42; o.ratio = ratios[r(4)]; o.minRebuild = 1 + r(10);
      top = 2 + r(8);
      c.hook = [this]() {called();};
#if FOCUS == 41
      book.begin();
      f.reset(k->make(&c, o));
      PCHECK(book.copies == 1, "the configuration is copied " << book.copies << " times when the finder is made");
      book.begin();
      book.end(f->configuration());
#else
      f.reset(k->make(&c, o));
#endif
    }
    const Watch* configuration() {return f->configuration();}
    int mono(pbt::Bulk& r) {
      std::vector<fh::Exp> e;
      for (size_t v = 0; v < c.varCount; ++v) e.push_back(r(top));
      c.monos.push_back(e);
      return static_cast<int>(c.monos.size() - 1);
    }
    bool room(int m) {return !k->tree || present[c.monos[m]] < 1;}
    void step(const Op& op, Seen& seen) {
      pbt::Bulk r(op.b);
      switch (op.kind % 16) {
      case 0: case 1: case 2: case 3: case 4: {
        const int m = mono(r);
        if (!room(m)) break;
        ++present[c.monos[m]];
        const fh::Ent e(m, id++);
        f->insert(e);
        break;
      }
      case 5: {
        std::vector<fh::Ent> v;
        for (size_t n = r(8); n > 0; --n) {
          const int m = mono(r);
          if (!room(m)) continue;
          ++present[c.monos[m]];
          v.push_back(fh::Ent(m, id++));
        }
        f->insertRange(v, static_cast<int>(op.a % 3));
        break;
      }
      case 6:
        if (k->removals && op.a % 2) {
          const int m = mono(r);
          std::vector<int> out;
          const bool any = f->removeMultiples(m, &out);
          seen << any;
          for (int i: out) seen << i;
          for (auto i = present.begin(); i != present.end();) {
            bool multiple = true;
            for (size_t v = 0; v < c.varCount; ++v) if (i->first[v] < c.monos[m][v]) multiple = false;
            if (multiple) i = present.erase(i); else ++i;
          }
        }
        break;
      case 7: case 8:
        if (k->removals) {
          const int m = mono(r);
          const bool any = f->removeElement(m);
          seen << any;
          if (any && --present[c.monos[m]] == 0) present.erase(c.monos[m]);
        }
        break;
      case 9: case 10: case 11: {
        const int m = mono(r);
        const fh::Ent* e = f->findDivisor(m, op.a & 1);
        if (e) seen << e->id;
        break;
      }
      case 12: {
        const int m = mono(r);
        size_t stop = op.a % 5 == 0 ? 1 + r(4) : ~size_t(0);
        auto visit = [&](const fh::Ent& e) {seen << e.id; c.called(0); return --stop > 0;};
        if (op.a & 1) f->findAllDivisors(m, visit, op.a & 2); else f->findAllMultiples(m, visit, op.a & 2);
        break;
      }
      case 13: f->forAll([&](const fh::Ent& e) {seen << e.id; c.called(0); return true;}, op.a & 1); break;
      case 14: if (op.a % 5 == 0) {if (FOCUS != 42) f->rebuild();} else if (k->tree && op.a % 30 == 1) {f->clear(); present.clear();} break;
      default: seen << f->name();
      }
    }
    void probe(Seen& seen) {seen << f->size() << f->empty() << f->memory();}
  };

  // *** Masks
  struct MConf: Watched {
    typedef short Exponent;
    static const bool UseDivMask = true;
    size_t vars;
    size_t getVarCount() const {used(); return vars;}
    short getExponent(const short* e, size_t v) const {used(); return e[v];}
  };
  struct MaskMachine: Machine {
    MConf conf;
    std::unique_ptr<mathic::DivMask::Calculator<MConf> > calc;
    std::vector<std::vector<short> > monos;
    explicit MaskMachine(pbt::Bulk& r) {conf.m = this; conf.vars = 1 + r(40); 
#if FOCUS == 41
      MConf other(conf);
      book.begin();
      calc.reset(new mathic::DivMask::Calculator<MConf>(other));
      PCHECK(book.copies == 0, "the configuration is copied by the calculator of masks");
      book.end(&conf);
#else
      calc.reset(new mathic::DivMask::Calculator<MConf>(conf));
#endif
    }
    const Watched* configuration() {return &conf;}
    void step(const Op& op, Seen& seen) {
      pbt::Bulk r(op.b);
      switch (op.kind % 8) {
      case 0: case 1: case 2: {
        std::vector<short> v;
        for (size_t i = 0; i < conf.vars; ++i) v.push_back(static_cast<short>(r(40)));
        if (monos.size() < 20) monos.push_back(v); else monos[r(20)] = v;
        break;
      }
      case 3: if (op.a % 3 == 0) calc->rebuildDefault(conf); break;
      case 4: {
        std::vector<const short*> p;
        for (auto& v: monos) p.push_back(v.data());
        calc->rebuild(p.begin(), p.end(), conf);
        break;
      }
      default: {
        std::vector<mathic::DivMask> d;
        for (auto& v: monos) d.push_back(mathic::DivMask(static_cast<const short*>(v.data()), *calc, conf));
        for (auto& x: d) for (auto& y: d) seen.text += x.canDivide(y) ? '1' : '0';
      }
      }
    }
  };

  // *** Hash tables
  struct HConf: Watched {
    typedef int Key; typedef int Value;
    int kind;
    void flip() {kind += 3;}
    void flop() {kind -= 3;}
    size_t hash(int k) const {used(); return kind == 0 ? static_cast<size_t>(k) * size_t(0x9e3779b97f4a7c15ull) : kind == 1 ? static_cast<size_t>(k % 7) : kind == 2 ? static_cast<size_t>(k) << 3 : 0;}
    bool keysEqual(int a, int b) const {used(); return a == b;}
  };
  struct HashMachine: Machine {
    HConf conf;
    typedef mathic::HashTable<HConf> Table;
    std::unique_ptr<Table> t;
    int range;
    const Watched* configuration() {return configurationOf(*t, 0);}
    explicit HashMachine(pbt::Bulk& r) {conf.m = this; conf.kind = static_cast<int>(r(3)); range = static_cast<int>(20 + r(200)); t.reset(built<Table>(conf, static_cast<unsigned>(1 + r(5))));}
    void step(const Op& op, Seen& seen) {
      pbt::Bulk r(op.b);
      const int k = static_cast<int>(r(range));
      switch (op.kind % 8) {
      case 0: case 1: case 2: case 3: {
        const std::pair<bool, Table::Handle*> p = t->insert(k, static_cast<int>(op.a % 1000));
        seen << p.first << p.second->key() << p.second->value();
        break;
      }
      case 4: {
        Table::Handle* h = t->lookup(k);
        if (h) {t->remove(h); seen << "removed";}
        break;
      }
      case 5:
        if (op.a % 10 == 0) {
          for (int i = 0; i < range; ++i) {Table::Handle* h = t->lookup(i); if (h) t->remove(h);}
          t->reset();
        }
        break;
      default: {
        Table::Handle* h = t->lookup(k);
        if (h) seen << h->value(); else seen << "-";
        if (op.a % 30 == 0) seen << t->name();
      }
      }
    }
    void probe(Seen& seen) {seen << t->memoryUse();}
  };

  // *** Bits
  struct BitMachine: Machine {
    mathic::BitTriangle t;
    explicit BitMachine(pbt::Bulk&) {}
    void step(const Op& op, Seen& seen) {
      const size_t n = t.columnCount();
      pbt::Bulk r(op.b);
      switch (op.kind % 6) {
      case 0: for (size_t i = op.a % 40 == 0 ? r(100) : 1; i > 0; --i) t.addColumn(); break;
      case 1: case 2: case 3:
        if (n > 1) {const size_t c = 1 + r(n - 1), row = r(c); if (op.a & 1) t.setBit(c, row, op.a & 6); else t.setBitUnordered(row, c, op.a & 6);}
        break;
      default: {
        if (n > 1) {
          const size_t c = op.a & 1 ? n - 1 : 1 + r(n - 1);
          for (size_t row = 0; row < c; ++row) seen.text += (op.a & 2 ? t.bit(c, row) : t.bitUnordered(row, c)) ? '1' : '0';
        }
      }
      }
    }
    void probe(Seen& seen) {seen << t.columnCount() << t.empty() << t.getMemoryUse();}
  };

  // *** Tables of text
  struct TextMachine: Machine {
    mathic::ColumnPrinter p;
    explicit TextMachine(pbt::Bulk& r): p(r(3)) {}
    void step(const Op& op, Seen& seen) {
      pbt::Bulk r(op.b);
      const size_t n = p.getColumnCount();
      switch (op.kind % 8) {
      case 0: if (n < 6) p.addColumn(op.a & 1, op.a & 2 ? "" : " ", op.a & 4 ? "|" : "") << (op.a & 8 ? "x\n" : ""); break;
      case 1: if (op.a % 5 == 0) p.setPrefix(op.a & 1 ? "* " : ""); break;
      case 2: if (n > 0 && op.a % 4 == 0) p.repeatToEndOfLine('-', r(n)); break;
      case 3: case 4: case 5:
        if (n > 0) {
          std::ostream& o = p[r(n)];
          o << mathic::ColumnPrinter::commafy(r(100000)) << (r(2) ? "\n" : " a\nb\n");
        }
        break;
      case 6:
        seen << mathic::ColumnPrinter::commafy(op.a) << mathic::ColumnPrinter::withSIPrefix(op.a) << mathic::ColumnPrinter::bytesInUnit(op.b)
          << mathic::ColumnPrinter::percentInteger(op.a % 1000, 1 + op.b % 1000) << mathic::ColumnPrinter::ratioInteger(op.a % 1000, 1 + op.b % 1000);
        break;
      default: {Sink sink(*this); std::ostream o(&sink); o << p; seen << sink.text;}
      }
    }
    void probe(Seen& seen) {seen << p.getColumnCount();}
  };

  // *** Command lines
  struct CliMachine;
  PER_THREAD CliMachine* current = 0;
  struct Done: mathic::Action {
    mathic::IntegerParameter number; mathic::BoolParameter flag; mathic::StringParameter text;
    Machine* m;
    std::vector<std::string> direct;
    explicit Done(unsigned def);
    void directOptions(std::vector<std::string> tokens, mathic::CliParser&) {direct = tokens; m->called();}
    void performAction() {}
    const char* description() const {return "d";}
    const char* shortDescription() const {return "s";}
    void pushBackParameters(std::vector<mathic::CliParameter*>& p) {p.push_back(&number); m->called(); p.push_back(&flag); p.push_back(&text); m->called();}
  };
  template<int N> struct DoneN: Done {
    DoneN(): Done(N) {}
    static const char* staticName() {static const char* const n[] = {"list", "listing", "make", "m", "zoo"}; return n[N];}
    const char* name() const {return staticName();}
  };
  struct CliMachine: Machine {
    mathic::CliParser parser;
    std::vector<std::unique_ptr<mathic::Action> > kept;
    unsigned have;
    explicit CliMachine(pbt::Bulk& r): have(0) {add(static_cast<unsigned>(r(5)));}
    void add(unsigned i) {
      if (have & (1u << i)) return;
      have |= 1u << i;
      switch (i) {
      case 0: parser.registerAction<DoneN<0> >(); break;
      case 1: parser.registerAction<DoneN<1> >("listing"); break;
      case 2: parser.registerAction<DoneN<2> >(); break;
      case 3: parser.registerAction<DoneN<3> >(); break;
      default: parser.registerAction<DoneN<4> >("zoo");
      }
    }
    void show(mathic::Action& a, Seen& seen) {
      Done& d = dynamic_cast<Done&>(a);
      seen << d.name() << static_cast<long long>(d.number.value()) << d.flag.value() << d.text.value() << d.number.valueAsString() << d.flag.valueAsString();
      for (auto& t: d.direct) seen << t;
    }
    void step(const Op& op, Seen& seen) {
      CliMachine* const outer = current;
      current = this;
      pbt::Bulk r(op.b);
      switch (op.kind % 8) {
      case 0: add(static_cast<unsigned>(r(5))); break;
      case 1: {std::vector<std::string> v; parser.pushBackRegisteredActionNames(v); for (auto& n: v) seen << n; break;}
      case 2: if (!kept.empty()) show(*kept[r(kept.size())], seen); break;
      case 3: if (!kept.empty() && op.a % 4 == 0) kept.erase(kept.begin()); break;
      default: {
        static const char* const names[] = {"list", "listing", "li", "m", "make", "z", "q", ""};
        static const char* const options[] = {"-number", "-n", "-flag", "-text", "-t", "-x", "word"};
        static const char* const values[] = {"7", "on", "off", "abc", "12x", "4000000000"};
        std::vector<std::string> line;
        line.push_back(names[r(8)]);
        for (size_t n = r(4); n > 0; --n) {line.push_back(options[r(7)]); if (r(5)) line.push_back(values[r(6)]);}
        try {
          std::unique_ptr<mathic::Action> a = parser.parse(line);
          show(*a, seen);
          if (kept.size() < 10) kept.push_back(std::move(a));
        } catch (const mathic::MathicException& e) {seen << e.what();}
      }
      }
      current = outer;
    }
  };
  Done::Done(unsigned def): number("number", "n", def), flag("flag", "f", def & 1), text("text", "t", def & 2 ? "two" : ""), m(current) {
    m->called(); current = static_cast<CliMachine*>(m);
  }

}
namespace fh {
#if FOCUS == 41
  Book book;
#endif
  PER_THREAD Ctx* gCtx = 0;
  std::vector<Kind>& kinds() {static std::vector<Kind> k; return k;}
}
#endif
