// Names tell configurations apart, printed forms show the contents, errors
// have the documented types and texts.
#include "pbt.h"
#include "capture.h"
#include "alloc.h"
#include "mathic/display.h"
#include "finder.h"
#include <mathic/Heap.h>
#include <mathic/TourTree.h>
#include <mathic/Geobucket.h>
#include <mathic/StlSet.h>
#include <mathic/PairQueue.h>
#include <mathic/HashTable.h>
#include <mathic/error.h>
#include "divsim/stdinc.h"
#include "divsim/KDTreeModel.h"
#include "divsim/DivListModel.h"
#include <iomanip>

namespace {
  // ---- queues
  /// An entry that prints as a word of its own.
  struct Word {
    int key, id;
    Word(int key = 0, int id = 0): key(key), id(id) {}
  };
  std::ostream& operator<<(std::ostream& o, const Word& w) {return o << '<' << w.id << '>';}
  template<bool Dedup> struct QConf {
    typedef Word Entry;
    typedef int CompareResult;
    int compare(const Word& a, const Word& b) const {return a.key < b.key ? -1 : a.key > b.key;}
    bool cmpLessThan(int c) const {return c < 0;}
    bool cmpEqual(int c) const {return c == 0;}
    Word deduplicate(const Word& a, const Word&) const {return a;}
    static const bool supportDeduplication = Dedup;
  };
  template<bool Dedup, bool Fast> struct TConf: QConf<Dedup> {static const bool fastIndex = Fast;};
  template<int Bits> struct GConf: QConf<(Bits & 1) != 0> {
    GConf(): minBucketSize(3), geoBase(2) {}
    size_t minBucketSize, geoBase;
    static const size_t insertFactor = 1 + Bits / 96;
    static const bool trackFront = (Bits & 2) != 0;
    static const bool minBucketBinarySearch = (Bits & 4) != 0;
    static const bool premerge = (Bits & 8) != 0;
    static const bool collectMax = (Bits & 16) != 0;
    static const mathic::GeobucketBucketStorage bucketStorage = static_cast<mathic::GeobucketBucketStorage>(Bits / 32 % 3);
  };
  struct Named {
    std::string signature, name;
  };
  /// How often each id is printed.
  std::map<int, int> printed(const std::string& text) {
    std::map<int, int> m;
    for (size_t i = text.find('<'); i != std::string::npos; i = text.find('<', i + 1)) {
      size_t j = i + 1; int v = 0;
      while (j < text.size() && isdigit(static_cast<unsigned char>(text[j]))) v = v * 10 + (text[j++] - '0');
      if (j > i + 1 && j < text.size() && text[j] == '>') ++m[v];
    }
    return m;
  }
  template<class Q> struct Prints {static const int how = 1;}; // 1: all entries
  template<class C> struct Prints<mathic::TourTree<C> > {static const int how = 0;}; // addresses
  template<class C> struct Prints<mathic::Geobucket<C> > {static const int how = 2;}; // some entries
  template<class C> void randomize(C&, pbt::Src&, std::string&) {}
  template<int B> void randomize(GConf<B>& c, pbt::Src& s, std::string& sig) {
    c.minBucketSize = 1 + s.draw(12); c.geoBase = 2 + s.draw(4);
    std::ostringstream o; o << " base " << c.geoBase << " min " << c.minBucketSize;
    sig += o.str();
  }
  template<class Q, class C> Named queueNamed(pbt::Src& s, const char* sig) {
    C conf;
    Named r; r.signature = sig;
    randomize(conf, s, r.signature);
    Q q(conf);
    r.name = q.getName();
    const bool dedup = C::supportDeduplication;
    std::vector<Word> in; // without duplicates in key if those are combined
    int id = 100;
    std::set<int> keys;
    const size_t n = s.small(60);
    for (size_t i = 0; i < n; ++i) {
      const int k = static_cast<int>(s.draw(200));
      if (dedup && !keys.insert(k).second) continue;
      const Word w(k, id++);
      q.push(w); in.push_back(w);
      if (s.draw(6) == 0) {
        const Word t = q.pop();
        for (size_t j = 0; j < in.size(); ++j) if (in[j].id == t.id) {in.erase(in.begin() + j); break;}
        keys.erase(t.key);
      }
    }
    PCHECK(q.getName() == r.name, "the name changed from " << r.name << " to " << q.getName());
    std::ostringstream o1, o2;
    const Q& cq = q;
    cq.print(o1); cq.print(o2);
    const std::string text = o1.str();
    PCHECK(text == o2.str(), "printing " << r.name << " twice gives different text");
    PCHECK(text.compare(0, r.name.size(), r.name) == 0, "the printed form of " << r.name << " does not start with its name: " << text);
    const std::map<int, int> shown = printed(text.substr(r.name.size()));
    for (auto& x: shown) {
      bool there = false;
      for (size_t j = 0; j < in.size(); ++j) there = there || in[j].id == x.first;
      PCHECK(there, "printing " << r.name << " shows entry " << x.first << ", which is not contained");
      PCHECK(x.second == 1, "printing " << r.name << " shows entry " << x.first << " " << x.second << " times");
    }
    if (Prints<Q>::how == 1)
      PCHECK(shown.size() == in.size(), "printing " << r.name << " shows " << shown.size() << " of " << in.size() << " entries:\n" << text);
    if (Prints<Q>::how == 2) {
      PCHECK(in.empty() == shown.empty(), "printing " << r.name << " shows " << shown.size() << " of " << in.size() << " entries:\n" << text);
      // the numbers of entries per bucket add up, allowing for entries kept elsewhere
      size_t sum = 0, lines = 0;
      for (size_t i = text.find(" ["); i != std::string::npos; i = text.find(" [", i + 1)) {
        size_t a = 0, b = 0;
        if (sscanf(text.c_str() + i, " [%zu/%zu]", &a, &b) == 2) {
          sum += a; ++lines;
          PCHECK(a <= b, "a bucket of " << a << " entries has a capacity of " << b);
        }
      }
      PCHECK(sum == in.size(), "the buckets printed for " << r.name << " have " << sum << " entries in total instead of " << in.size() << ":\n" << text);
    }
    PCHECK(q.empty() == in.empty(), "printing " << r.name << " changed whether it is empty");
    std::stable_sort(in.begin(), in.end(), [](const Word& a, const Word& b) {return a.key > b.key;});
    for (size_t j = 0; j < in.size(); ++j) {
      PCHECK(!q.empty(), "printing " << r.name << " lost entries");
      const Word w = q.pop();
      PCHECK(w.key == in[j].key, "after printing " << r.name << " gives key " << w.key << " instead of " << in[j].key);
    }
    PCHECK(q.empty(), "printing " << r.name << " added entries");
    if (in.size() >= 3) s.label("printed with contents");
    return r;
  }
  typedef Named (*MakeQueue)(pbt::Src&, const char*);
  struct QKind {const char* sig; MakeQueue make;};
  std::vector<QKind>& qkinds() {static std::vector<QKind> v; return v;}
  struct AddQ {AddQ(const char* sig, MakeQueue m) {QKind k = {sig, m}; qkinds().push_back(k);}};
#define Q1(...) static AddQ PBT_CAT(aq_, __COUNTER__)(#__VA_ARGS__, &queueNamed<__VA_ARGS__>);
#define HEAP(D, F) Q1(mathic::Heap<TConf<D, F> >, TConf<D, F>)
#define TOUR(F) Q1(mathic::TourTree<TConf<false, F> >, TConf<false, F>)
#define GEO(B) Q1(mathic::Geobucket<GConf<B> >, GConf<B>)
  HEAP(false, false) HEAP(false, true) HEAP(true, false) HEAP(true, true)
  TOUR(false) TOUR(true)
  Q1(mathic::StlSet<QConf<false> >, QConf<false>)
  GEO(0) GEO(1) GEO(2) GEO(4) GEO(8) GEO(16) GEO(32) GEO(64) GEO(31) GEO(95) GEO(96) GEO(96 + 63) GEO(22) GEO(41) GEO(76)

  template<class F> void pairwise(pbt::Src& s, F make) {
    std::vector<Named> all;
    const size_t n = 2 + s.draw(5);
    for (size_t i = 0; i < n; ++i) all.push_back(make());
    size_t same = 0, differ = 0;
    for (size_t i = 0; i < n; ++i) {
      PLOG(s, all[i].name << "   is   " << all[i].signature);
      PCHECK(!all[i].name.empty(), "no name for " << all[i].signature);
      for (size_t j = 0; j < i; ++j) {
        const bool eq = all[i].signature == all[j].signature;
        (eq ? same : differ) += 1;
        PCHECK(eq == (all[i].name == all[j].name), "the configurations\n  " << all[i].signature << "\n  " << all[j].signature
          << "\nhave the names\n  " << all[i].name << "\n  " << all[j].name);
      }
    }
    if (differ > 0) s.nontrivial();
  }
  void queues(pbt::Src& s) {
    pairwise(s, [&]() {const QKind& k = qkinds()[s.draw(qkinds().size())]; return k.make(s, k.sig);});
  }

  // ---- divisor finders
  fh::Opts someOpts(pbt::Src& s) {
    fh::Opts o;
    o.sort = s.flag(); o.cache = s.flag(); o.autoRebuild = s.flag();
    static const double ratios[] = {0, 0.5, 1, 0.25, 2};
    o.ratio = ratios[s.draw(5)]; o.minRebuild = s.draw(4) * 100;
    return o;
  }
  std::string rebuildSig(const fh::Opts& o, bool masks) {
    std::ostringstream out;
    // rebuilds are part of the name where there are masks
    if (masks && o.autoRebuild) out << " rebuild " << o.ratio << '/' << o.minRebuild;
    return out.str();
  }
  void finders(pbt::Src& s) {
    using namespace fh;
    pairwise(s, [&]() {
      Ctx c;
      gCtx = &c;
      c.varCount = 1 + s.draw(3);
      for (size_t v = 0; v < c.varCount; ++v) c.perm.push_back(v);
      const Kind& k = kinds()[s.draw(kinds().size())];
      const Opts o = someOpts(s);
      std::ostringstream sig;
      if (k.tree) sig << "tree packed " << (k.name.find("packed") == 0 ? 1 : 0) << " leaf " << k.leafSize << " masks " << k.udm << k.utdm << " removals " << k.removals << " cache " << o.cache;
      else sig << "list linked " << (k.name.find("linked true") != std::string::npos) << " masks " << k.udm;
      sig << " sort " << o.sort << rebuildSig(o, k.udm);
      std::unique_ptr<IFinder> f(k.make(&c, o));
      Named r;
      r.signature = sig.str();
      r.name = f->name();
      for (size_t i = s.draw(4); i > 0; --i) {
        std::vector<Exp> e(c.varCount, i);
        c.monos.push_back(e);
        const Ent x(static_cast<int>(c.monos.size() - 1), static_cast<int>(i));
        f->insert(x);
      }
      if (s.flag()) f->rebuild();
      PCHECK(f->name() == r.name, "the name changed from " << r.name << " to " << f->name());
      return r;
    });
  }
  /// The finders of the simulation.
  template<class M, bool Tree> Named modelNamed(pbt::Src& s, const char* what, bool masks) {
    const bool mini = s.flag(), sort = s.flag(), third = s.flag() && (Tree || !sort);
    static const double ratios[] = {0, 0.5, 1, 0.25};
    const double ratio = ratios[s.draw(4)];
    const size_t min = s.draw(3) * 50;
    // the list takes: minimize, move to front, sort; the tree: minimize, sort, cache
    M m(3, mini, sort, third, ratio, min);
    std::ostringstream sig;
    sig << what << " mini " << mini << " second " << sort << " third " << third;
    const bool rebuilds = ratio > 0 || min > 0;
    if (masks && rebuilds) sig << " rebuild " << ratio << '/' << min;
    Named r;
    r.signature = sig.str(); r.name = m.getName();
    return r;
  }
  void models(pbt::Src& s) {
    pairwise(s, [&]() {
      switch (s.draw(8)) {
      case 0: return modelNamed<KDTreeModel<1, 1, 1, 1, 1>, true>(s, "11111", true);
      case 1: return modelNamed<KDTreeModel<0, 0, 1, 2, 1>, true>(s, "00121", false);
      case 2: return modelNamed<KDTreeModel<1, 0, 0, 1, 0>, true>(s, "10010", true);
      case 3: return modelNamed<KDTreeModel<1, 1, 0, 3, 1>, true>(s, "11031", true);
      case 4: return modelNamed<DivListModel<0, 0>, false>(s, "list 00", false);
      case 5: return modelNamed<DivListModel<1, 0>, false>(s, "list 10", false);
      case 6: return modelNamed<DivListModel<0, 1>, false>(s, "list 01", true);
      default: return modelNamed<DivListModel<1, 1>, false>(s, "list 11", true);
      }
    });
  }

  // ---- errors
  template<class X> void thrown(pbt::Src& s, const std::string& text) {
    bool caught = false;
    try {
      mathic::throwError<X>(text);
    } catch (const X& e) {
      caught = true;
      PCHECK(std::string(e.what()) == "ERROR: " + text + "\n", "an error with text \"" << text << "\" says \"" << e.what() << '"');
      PCHECK(dynamic_cast<const mathic::MathicException*>(&e) != 0 && dynamic_cast<const std::runtime_error*>(&e) != 0,
        "an error is not a MathicException");
    }
    PCHECK(caught, "throwError does not throw the given type");
    // by base class
    caught = false;
    try {mathic::throwError<X>(text);} catch (const mathic::MathicException&) {caught = true;}
    PCHECK(caught, "an error cannot be caught as a MathicException");
  }
  void errors(pbt::Src& s) {
    size_t kinds = 0;
    for (pbt::List l(s, 4, 6, 8); l.next();) {
      std::string text;
      for (size_t i = s.small(40); i > 0; --i) text += static_cast<char>(s.draw(8) == 0 ? '\n' : ' ' + s.draw(90));
      const size_t k = s.draw(8);
      PLOG(s, "error " << k << " \"" << text << '"');
      ++kinds;
      switch (k) {
      case 0: thrown<mathic::UnknownNameException>(s, text); break;
      case 1: thrown<mathic::AmbiguousNameException>(s, text); break;
      case 2: thrown<mathic::UnsupportedException>(s, text); break;
      case 3: thrown<mathic::MathicException>(s, text); break;
      case 4: {
        std::string got; bool right = false;
        try {mathic::reportError(text);}
        catch (const mathic::MathicException& e) {got = e.what(); right = typeid(e) == typeid(mathic::MathicException);}
        PCHECK(right && got == "ERROR: " + text, "reportError of \"" << text << "\" throws \"" << got << '"');
        break;
      }
      case 5: {
        std::string got; bool right = false;
        try {mathic::reportInternalError(text);}
        catch (const mathic::InternalMathicException& e) {got = e.what(); right = dynamic_cast<const std::logic_error*>(&e) != 0;}
        PCHECK(right && got == "INTERNAL ERROR: " + text, "reportInternalError of \"" << text << "\" throws \"" << got << '"');
        break;
      }
      case 6: { // shown while memory is short
        const mathic::MathicException e(text);
        for (long long fail = 0; ; ++fail) {
          Capture c;
          bool threw = false;
          alloc::failed = 0;
          alloc::failIn = fail;
          try {mathic::displayException(e);} catch (const std::bad_alloc&) {threw = true;}
          alloc::failIn = -1;
          const std::string out = c.stop();
          PCHECK(threw == (alloc::failed != 0), "displaying an error " << (threw ? "ends with an exception although there is enough memory" : "hides that it runs out of memory"));
          if (!threw) break;
          PCHECK(out.size() >= text.size() && out.substr(out.size() - text.size()) == text, "when memory runs out the error \"" << text << "\" is displayed as " << out);
        }
        break;
      }
      default: {
        std::string file; for (size_t i = 1 + s.draw(12); i > 0; --i) file += static_cast<char>('a' + s.draw(26));
        const unsigned line = s.draw(4) == 0 ? 0xffffffffu - static_cast<unsigned>(s.draw(3)) : static_cast<unsigned>(s.draw(100000));
        std::ostringstream number; number << line;
        std::string got; bool right = false;
        try {mathic::reportInternalError(text, file.c_str(), line);}
        catch (const mathic::InternalMathicException& e) {got = e.what(); right = true;}
        PCHECK(right && got.compare(0, 16 + text.size(), "INTERNAL ERROR: " + text) == 0, "reportInternalError of \"" << text << "\" throws \"" << got << '"');
        const std::string rest = got.substr(16 + text.size());
        PCHECK(rest.find(file) != std::string::npos && rest.find(number.str()) != std::string::npos,
          "an internal error in " << file << " on line " << line << " says \"" << got << '"');
        // the macro
        got.clear();
        try {
          using namespace mathic;
          MATHIC_INTERNAL_ERROR(text);
        } catch (const mathic::InternalMathicException& e) {got = e.what();}
        PCHECK(got.find("INTERNAL ERROR: " + text) == 0 && got.find("names.cpp") != std::string::npos, "MATHIC_INTERNAL_ERROR of \"" << text << "\" throws \"" << got << '"');
      }
      }
    }
    if (kinds >= 2) s.nontrivial();
  }

  // ---- the rest
  struct PData {int x;};
  struct PConf {
    typedef PData PairData;
    typedef int CompareResult;
    void computePairData(size_t c, size_t r, PData& d) const {d.x = static_cast<int>(c + r);}
    int compare(size_t, size_t, const PData& a, size_t, size_t, const PData& b) const {return a.x < b.x ? -1 : a.x > b.x;}
    bool cmpLessThan(int c) const {return c < 0;}
  };
  struct HConf {
    typedef int Key; typedef int Value;
    size_t hash(int k) const {return static_cast<size_t>(k);}
    bool keysEqual(int a, int b) const {return a == b;}
  };
  void others(pbt::Src& s) {
    mathic::PairQueue<PConf> q((PConf()));
    const std::string qn = q.name();
    PCHECK(qn.find("PairQueue") != std::string::npos, "a pair queue has the name " << qn);
    PCHECK(qn.find(mathic::TourTree<TConf<false, false> >(TConf<false, false>()).getName()) != std::string::npos,
      "the name of a pair queue, " << qn << ", does not tell what its columns are kept in");
    const size_t columns = s.draw(10);
    for (size_t i = 0; i < columns; ++i) {
      std::vector<int> rows;
      for (size_t j = i; j > 0; --j) rows.push_back(static_cast<int>(j - 1));
      q.addColumnDescending(rows.begin(), rows.end());
    }
    PCHECK(q.name() == qn, "the name changed to " << q.name());
    mathic::HashTable<HConf> t(HConf(), 3);
    const std::string tn = t.name();
    PCHECK(tn.find("HashTable") != std::string::npos, "a hash table has the name " << tn);
    for (size_t i = s.draw(100); i > 0; --i) t.insert(static_cast<int>(i), 0);
    PCHECK(t.name() == tn, "the name changed to " << t.name());
    if (columns > 2) s.nontrivial();
  }
}
namespace fh {
  Ctx* gCtx = 0;
  std::vector<Kind>& kinds() {static std::vector<Kind> k; return k;}
}
PBT_VARIANT("queues", 6, queues);
PBT_VARIANT("finders", 6, finders);
PBT_VARIANT("models", 4, models);
PBT_VARIANT("errors", 4, errors);
PBT_VARIANT("others", 1, others);
