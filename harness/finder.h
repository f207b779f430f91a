// Model-based driver for mathic's divisor finders.
#ifndef FINDER_H
#define FINDER_H
#include "pbt.h"
#include "alloc.h"
#include <mathic.h>
#include <map>
#include <set>
#include <deque>
#include <limits>
#include <memory>

#ifndef FOCUS
#define FOCUS 11
#endif
// FOCUS is the number of the property: 11, 12 lists; 13, 14 trees;
// 15 several finders side by side; 17 minimal generators; 18 lifetimes;
// 30 memory; 32 debug builds; 34 operations that fail.

namespace fh {
#if FOCUS == 41
  /// What happens to configurations.
  struct Watch;
  struct Book {
    const Watch* home;           // the one in use; 0 while a structure is made
    size_t copies; unsigned long long uses;
    Book(): home(0), copies(0), uses(0) {}
    void begin() {home = 0; copies = 0;}
    inline void end(const Watch* h);
    inline void check(const Watch* h) const;
  };
  extern Book book;
  /// Base of configurations.
  struct Watch {
    mutable unsigned long long uses; bool alive;
    Watch(): uses(0), alive(true) {}
    Watch(const Watch& w): uses(w.uses), alive(true) {w.check("copied"); ++book.copies;}
    Watch& operator=(const Watch& w) {w.check("copied"); check("assigned to"); uses = w.uses; ++book.copies; return *this;}
    ~Watch() {check("destroyed"); alive = false;}
    void check(const char* what) const {if (!alive) {fprintf(stderr, "FATAL: a configuration is %s after it was destroyed\n", what); abort();}}
    void watch() const {
      check("called");
      ++uses; ++book.uses;
      if (book.home && this != book.home) throw pbt::Fail("a function of a configuration is called that is not the one of the structure");
    }
  };
  void Book::end(const Watch* h) {home = h; uses = h->uses;}
  void Book::check(const Watch* h) const {
    PCHECK(h == home, "the structure's configuration is another object now");
    PCHECK(copies == 0, "the configuration is copied by an operation");
    PCHECK(uses == h->uses, "the configuration of the structure says that its functions were called " << h->uses << " times; there were " << uses << " calls");
  }
#else
  struct Watch {void watch() const {}};
#endif
  typedef unsigned long long Exp;
  struct Ctx {
    size_t varCount;
    int orderKind;                 // 0 lex, 1 degree then lex
    std::vector<size_t> perm;      // order of variables
    std::vector<std::vector<Exp> > monos;
    long live;                     // entry objects alive
    long serial;
    // For operations that fail: the callback, counted among those that can
    // fail, which throws; negative: none does.
    mutable long long failIn;
    enum {Divides = 1, Exponents = 2, Order = 4, Receiver = 8};
    int canFail;
    struct Boom {};
    Ctx(): varCount(0), orderKind(0), live(0), serial(0), failIn(-1), canFail(0) {}
#if FOCUS >= 40
    mutable unsigned long long calls = 0;
    std::function<void()> hook;
#endif
    void called(int what) const {
#if FOCUS >= 40
      ++calls;
      if (hook) hook();
#endif
#if FOCUS == 34
      if (failIn >= 0 && (canFail & what) && failIn-- == 0) throw Boom();
#endif
    }
    void release() {std::vector<size_t>().swap(perm); std::vector<std::vector<Exp> >().swap(monos);}
    bool divides(int a, int b) const {
      const std::vector<Exp>& x = monos[a]; const std::vector<Exp>& y = monos[b];
      for (size_t v = 0; v < varCount; ++v) if (y[v] < x[v]) return false;
      return true;
    }
    bool equal(int a, int b) const {return a == b || monos[a] == monos[b];}
    bool less(int a, int b) const {
      const std::vector<Exp>& x = monos[a]; const std::vector<Exp>& y = monos[b];
      if (orderKind == 1) {
        unsigned __int128 dx = 0, dy = 0;
        for (size_t v = 0; v < varCount; ++v) {dx += x[v]; dy += y[v];}
        if (dx != dy) return dx < dy;
      }
      for (size_t i = 0; i < varCount; ++i) {
        const size_t v = perm[i];
        if (x[v] != y[v]) return x[v] < y[v];
      }
      return false;
    }
    std::string text(int m) const {
      std::ostringstream o;
      for (size_t v = 0; v < varCount; ++v) o << (v ? "," : "(") << monos[m][v];
      o << ')';
      return o.str();
    }
  };
  extern PER_THREAD Ctx* gCtx;

  enum {Alive = 0x600d5eed, Dead = 0x0dead0ff, Moved = 0x0305ed00};
  /// An entry; it knows whether it is alive.
  struct Ent {
    unsigned state;
    int mono, id;
    Ent* self;
    int mark;
    Ent(): state(Alive), mono(-1), id(-1), self(this), mark(0) {++gCtx->live;}
    Ent(int mono, int id): state(Alive), mono(mono), id(id), self(this), mark(0) {++gCtx->live;}
    Ent(const Ent& e): state(Alive), mono(e.mono), id(e.id), self(this), mark(e.mark) {e.check("copied"); ++gCtx->live;}
    Ent(Ent&& e): state(Alive), mono(e.mono), id(e.id), self(this), mark(e.mark) {
      e.check("moved"); e.state = Moved; e.mono = -2; ++gCtx->live;
    }
    Ent& operator=(const Ent& e) {
      own("assigned to"); e.check("copied");
      state = Alive; mono = e.mono; id = e.id; mark = e.mark;
      return *this;
    }
    Ent& operator=(Ent&& e) {
      own("assigned to"); e.check("moved");
      if (&e == this) return *this;
      state = Alive; mono = e.mono; id = e.id; mark = e.mark;
      e.state = Moved; e.mono = -2;
      return *this;
    }
    ~Ent() {
      if ((state != Alive && state != Moved) || self != this) bad("destroyed");
      state = Dead; self = 0; mono = -3;
      --gCtx->live;
    }
    void own(const char* what) const {
      if ((state != Alive && state != Moved) || self != this) bad(what);
    }
    void check(const char* what) const {
      if (state != Alive || self != this) bad(what);
    }
    void bad(const char* what) const {
      fprintf(stderr, "FATAL: an entry that is %s is %s\n",
        state == Dead ? "destroyed" : state == Moved ? "moved from" : "not an object", what);
      abort();
    }
  };
  struct Mono {int mono;};
  inline int monoOf(const Ent& e) {
    e.check("read");
    if (e.mono < 0) {fprintf(stderr, "FATAL: a default constructed entry is read\n"); abort();}
    return e.mono;
  }
  inline int monoOf(const Mono& m) {return m.mono;}
  inline std::ostream& operator<<(std::ostream& o, const Ent& e) {return o << '#' << e.id;}

  struct Opts {
    bool sort, cache, autoRebuild;
    double ratio; size_t minRebuild;
  };

  template<class E, bool UDM, bool UTDM, bool Packed, size_t LS, bool AR, bool ULL, bool EntryIsMonomial>
  class Conf: public Watch {
  public:
    typedef E Exponent;
    typedef Ent Entry;
    typedef typename std::conditional<EntryIsMonomial, Ent, Mono>::type Monomial;
    Conf(const Ctx* c, const Opts& o): c(c), o(o) {}
    size_t getVarCount() const {watch(); return c->varCount;}
    template<class M>
    Exponent getExponent(const M& m, size_t var) const {
      watch(); c->called(Ctx::Exponents);
      if (var >= c->varCount) throw pbt::Fail("an exponent of a variable that does not exist is asked for");
      return static_cast<Exponent>(c->monos[monoOf(m)][var]);
    }
    template<class A, class B>
    bool divides(const A& a, const B& b) const {watch(); c->called(Ctx::Divides); return c->divides(monoOf(a), monoOf(b));}
    template<class A, class B>
    bool isLessThan(const A& a, const B& b) const {watch(); c->called(Ctx::Order); return c->less(monoOf(a), monoOf(b));}
    bool getSortOnInsert() const {watch(); return o.sort;}
    bool getUseDivisorCache() const {watch(); return o.cache;}
    bool getDoAutomaticRebuilds() const {watch(); return o.autoRebuild;}
    double getRebuildRatio() const {watch(); return o.ratio;}
    size_t getRebuildMin() const {watch(); return o.minRebuild;}
    size_t getLeafSize() const {watch(); return LS;}
    static const bool UseDivMask = UDM;
    static const bool UseTreeDivMask = UTDM;
    static const bool UseLinkedList = ULL;
    static const bool PackedTree = Packed;
    static const size_t LeafSize = LS;
    static const bool AllowRemovals = AR;
  private:
    const Ctx* c;
    Opts o;
  };
  template<class E, bool A, bool B, bool P, size_t LS, bool AR, bool U, bool M>
  const size_t Conf<E, A, B, P, LS, AR, U, M>::LeafSize;

  typedef std::function<bool(const Ent&)> Visit;

  /// What all finders have in common, without their types.
  struct IFinder {
    virtual ~IFinder() {}
    virtual void insert(const Ent& e) = 0;
    virtual void insertRange(std::vector<Ent>& v, int how) = 0;
    virtual bool removeMultiples(int m, std::vector<int>* out) = 0;
    virtual bool removeElement(int m) = 0;
    virtual const Ent* findDivisor(int m, bool asConst) = 0;
    virtual const Ent* findDivisorIterator(int m, size_t& pos) {return 0;}
    virtual void findAllDivisors(int m, Visit f, bool asConst) = 0;
    virtual void findAllMultiples(int m, Visit f, bool asConst) = 0;
    virtual void forAll(Visit f, bool asConst) = 0;
    virtual void markAll(int by) = 0;
    virtual size_t size() = 0;
    virtual bool empty() = 0;
    virtual void clear() {}
    virtual void rebuild() = 0;
    virtual void moveToFront(size_t pos) {}
    virtual void iterate(std::vector<const Ent*>& v, int how) {}
    virtual size_t memory() = 0;
    virtual std::string name() = 0;
    virtual const Watch* configuration() = 0;
    /// Inserts a copy of an entry by a reference to one that is contained,
    /// where entries are monomials; returns false if there is none.
    virtual bool insertOwn(int m, int id) = 0;
    /// Whether the monomials given are contained entries where possible.
    bool useOwn = false;
    size_t ownUsed = 0;
    bool isTree, removals; size_t leafSize; Exp maxExp; bool sort, masks; size_t entrySize;
  };

  struct Out { // for the const interface
    Visit& f;
    bool proceed(const Ent& e) {return f(e);}
  };
  struct OutMutable {
    Visit& f;
    bool proceed(Ent& e) {return f(e);}
  };
  struct Marker {
    int by;
    bool proceed(Ent& e) {e.mark += by; return true;}
  };
  struct Removed {
    std::vector<int>& ids;
    void push_back(const Ent& e) {
      e.check("reported as removed");
      if (FOCUS == 34 && (gCtx->canFail & Ctx::Receiver) && ids.size() == ids.capacity()) throw Ctx::Boom();
      ids.push_back(e.id);
    }
  };
  /// No allocation of the harness's own fails.
  struct Exempt {
    long long failIn;
    Exempt(): failIn(alloc::failIn) {alloc::failIn = -1;}
    ~Exempt() {alloc::failIn = failIn;}
  };

  template<class C> struct MakeMono {
    template<class M> static M* make(int m, M*);
  };
  inline Ent* newMono(int m, Ent*) {return new Ent(m, -7);}
  inline Mono* newMono(int m, Mono*) {Mono* r = new Mono; r->mono = m; return r;}
  /// A query monomial that goes away right after the query.
  template<class M> struct Query {
    M* m; const M* given;
    Query(int mono, const M* own = 0): m(0), given(own) {
      Exempt x;
      if (own == 0) given = m = newMono(mono, static_cast<M*>(0));
    }
    ~Query() {delete m;}
    const M& operator*() const {return *given;}
  };
  struct Locator {
    int mono, id; Ent* found;
    bool proceed(Ent& e) {
      if (id >= 0 ? e.id != id : e.mono != mono) return true;
      found = &e;
      return false;
    }
  };
  inline const Ent* asMono(const Ent* e, const Ent*) {return e;}
  inline const Mono* asMono(const Ent*, const Mono*) {return 0;}

  template<class F>
  class FinderBase: public IFinder {
  public:
    typedef typename F::Monomial M;
    template<class C> FinderBase(const C& c): f(c) {}
    void insert(const Ent& e) {f.insert(e);}
    bool removeMultiples(int m, std::vector<int>* out) {
      Query<M> q(m);
      if (!out) return f.removeMultiples(*q);
      Removed r = {*out};
      return f.removeMultiples(*q, r);
    }
    Ent* locate(int m, int id) {Locator l = {m, id, 0}; f.forAll(l); return l.found;}
    const M* own(int m) {
      if (!useOwn || !std::is_same<M, Ent>::value) return 0;
      Ent* e = locate(m, -1);
      if (e) ++ownUsed;
      return asMono(e, static_cast<const M*>(0));
    }
    bool insertOwn(int m, int id) {
      Ent* e = locate(m, -1);
      if (e == 0) return false;
      const int oldId = e->id, oldMark = e->mark;
      e->id = id; e->mark = 0;
      const auto restore = [&]() {
        Ent* first = locate(m, id);
        PCHECK(first != 0, "an entry is lost that was inserted by a reference to one that is contained");
        first->id = oldId; first->mark = oldMark;
      };
      ++ownUsed;
      try {f.insert(*e);} catch (const std::logic_error&) {restore(); throw;}
      restore();
      return true;
    }
    bool removeElement(int m) {Query<M> q(m, own(m)); return f.removeElement(*q);}
    const Ent* findDivisor(int m, bool asConst) {
      Query<M> q(m, own(m));
      if (!asConst) return f.findDivisor(*q);
      const F& cf = f;
      return cf.findDivisor(*q);
    }
    void findAllDivisors(int m, Visit v, bool asConst) {
      Query<M> q(m, own(m));
      if (asConst) {Out o = {v}; const F& cf = f; cf.findAllDivisors(*q, o);}
      else {OutMutable o = {v}; f.findAllDivisors(*q, o);}
    }
    void findAllMultiples(int m, Visit v, bool asConst) {
      Query<M> q(m, own(m));
      if (asConst) {Out o = {v}; const F& cf = f; cf.findAllMultiples(*q, o);}
      else {OutMutable o = {v}; f.findAllMultiples(*q, o);}
    }
    void forAll(Visit v, bool asConst) {
      if (asConst) {Out o = {v}; const F& cf = f; cf.forAll(o);}
      else {OutMutable o = {v}; f.forAll(o);}
    }
    void markAll(int by) {Marker m = {by}; f.forAll(m);}
    size_t size() {return f.size();}
    bool empty() {return f.empty();}
    void rebuild() {f.rebuild();}
    size_t memory() {return f.getMemoryUse();}
    std::string name() {return f.getName();}
    const Watch* configuration() {const F& cf = f; return &cf.getConfiguration() == &f.getConfiguration() ? &f.getConfiguration() : 0;}
    F f;
  };

  template<class F>
  class TreeFinder: public FinderBase<F> {
  public:
    template<class C> TreeFinder(const C& c): FinderBase<F>(c) {}
    void insertRange(std::vector<Ent>& v, int how) {
      if (how == 0) this->f.insert(v.begin(), v.end());
      else if (how == 2) {std::deque<Ent> l(v.begin(), v.end()); this->f.insert(l.begin(), l.end());}
      else this->f.insert(v.data(), v.data() + v.size());
    }
    void clear() {this->f.clear();}
  };
  template<class F>
  class ListFinder: public FinderBase<F> {
  public:
    template<class C> ListFinder(const C& c): FinderBase<F>(c) {}
    void insertRange(std::vector<Ent>& v, int how) {
      if (how == 0) this->f.insert(v.begin(), v.end());
      else if (how == 1) this->f.insert(v.data(), v.data() + v.size());
      else {std::deque<Ent> l(v.begin(), v.end()); this->f.insert(l.begin(), l.end());}
    }
    const Ent* findDivisorIterator(int m, size_t& pos) {
      Query<typename F::Monomial> q(m, this->own(m));
      typename F::iterator it = this->f.findDivisorIterator(*q);
      pos = 0;
      typename F::iterator i = this->f.begin();
      for (; i != it; ++i) ++pos;
      if (it == this->f.end()) return 0;
      return &*it;
    }
    void moveToFront(size_t pos) {
      typename F::iterator i = this->f.begin();
      for (; pos > 0; --pos) i++;
      this->f.moveToFront(i);
    }
    void iterate(std::vector<const Ent*>& v, int how) {
      F& f = this->f;
      const F& cf = f;
      switch (how) {
      case 0: for (typename F::iterator i = f.begin(); i != f.end(); ++i) v.push_back(&*i); break;
      case 1: for (typename F::const_iterator i = cf.begin(); i != cf.end(); i++) v.push_back(i.operator->()); break;
      case 2: for (typename F::iterator i = f.end(); i != f.begin();) v.push_back(&*--i); std::reverse(v.begin(), v.end()); break;
      case 3: { // both kinds of iterator compared to each other
        typename F::iterator i = f.begin();
        typename F::const_iterator ci = cf.begin();
        const typename F::const_iterator e = cf.end();
        for (; i != e; ++i, ci++) {
          if (!(i == ci) || i == e || !(ci == i) || ci != i || i != ci || !(i != e) || ci == f.end()) v.push_back(0);
          v.push_back(i.operator->());
        }
        if (!(i == e) || i != ci || ci != i) v.push_back(0);
        break;
      }
      case 4: case 5: { // what the postfix operators give
        typename F::iterator i = f.begin();
        typename F::const_iterator ci = cf.begin();
        while (i != f.end()) {
          typename F::iterator old = i;
          typename F::const_iterator cold = ci;
          const Ent* e = &*i++;
          const Ent* ce = &*ci++;
          if (e != ce || e != &*old || e != &*cold || i == old || ci == cold) e = 0;
          v.push_back(e);
        }
        for (size_t n = v.size(); n > 0; --n) {
          if (n == v.size()) {--i; --ci;} // there is no entry at the end
          else {
            const typename F::iterator old = i--;
            const typename F::const_iterator cold = ci--;
            if (&*old != v[n] || &*cold != v[n]) v[n] = 0;
          }
          if (v[n - 1] != &*i || v[n - 1] != &*ci) v[n - 1] = 0;
        }
        if (i != f.begin() || ci != cf.begin()) v.push_back(0);
        break;
      }
      case 6: { // by way of the standard library
        std::for_each(std::reverse_iterator<typename F::iterator>(f.end()), std::reverse_iterator<typename F::iterator>(f.begin()), [&](const Ent& e) {v.push_back(&e);});
        std::reverse(v.begin(), v.end());
        size_t n = 0;
        for (typename F::const_iterator i = cf.begin(); i != cf.end(); std::advance(i, 1), ++n) if (n >= v.size() || v[n] != &*i) {v.assign(1, static_cast<const Ent*>(0)); break;}
        if (static_cast<size_t>(std::distance(f.begin(), f.end())) != v.size()) v.push_back(0);
        break;
      }
      default: for (typename F::const_iterator i = f.end(); i != cf.begin();) {i--; v.push_back(&*i);} std::reverse(v.begin(), v.end());
      }
    }
  };

  typedef IFinder* (*Maker)(const Ctx* c, const Opts& o);
  struct Kind {
    std::string name;
    bool tree, removals, udm, utdm;
    size_t leafSize; Exp maxExp;
    Maker make;
  };
  std::vector<Kind>& kinds();
  struct AddKind {AddKind(const Kind& k) {kinds().push_back(k);}};

  template<class E> const char* expName();
  template<> inline const char* expName<int>() {return "int";}
  template<> inline const char* expName<unsigned>() {return "unsigned";}
  template<> inline const char* expName<short>() {return "short";}
  template<> inline const char* expName<unsigned char>() {return "uchar";}
  template<> inline const char* expName<long long>() {return "llong";}

  template<class E, bool UDM, bool UTDM, bool Packed, size_t LS, bool AR, bool EM>
  IFinder* makeTree(const Ctx* c, const Opts& o) {
    typedef Conf<E, UDM, UTDM, Packed, LS, AR, false, EM> C;
    IFinder* f = new TreeFinder<mathic::KDTree<C> >(C(c, o));
    f->isTree = true; f->removals = AR; f->leafSize = LS; f->sort = o.sort; f->masks = UDM;
    f->maxExp = static_cast<Exp>(std::numeric_limits<E>::max()); f->entrySize = sizeof(Ent);
    return f;
  }
  template<class E, bool UDM, bool ULL, bool EM>
  IFinder* makeList(const Ctx* c, const Opts& o) {
    typedef Conf<E, UDM, false, false, 1, true, ULL, EM> C;
    IFinder* f = new ListFinder<mathic::DivList<C> >(C(c, o));
    f->isTree = false; f->removals = true; f->leafSize = 0; f->sort = o.sort; f->masks = UDM;
    f->maxExp = static_cast<Exp>(std::numeric_limits<E>::max()); f->entrySize = sizeof(Ent);
    return f;
  }

  /// A finder together with the model of what it contains.
  struct Sut {
    std::unique_ptr<IFinder> f;
    std::vector<int> ids;              // contained, in list order for unsorted lists
    Ctx& c;
    const std::vector<int>& monoOfId;
    std::vector<int> marks;            // by id
    std::vector<int> lastQuery;        // exponent classes reported, for comparison between finders
    Sut(Ctx& c, const std::vector<int>& monoOfId): c(c), monoOfId(monoOfId) {}
    int mono(int id) const {return monoOfId[id];}
    mutable std::vector<unsigned char> in;
    /// Call before checking entries.
    void sync() const {
      in.assign(monoOfId.size(), 0);
      for (size_t i = 0; i < ids.size(); ++i) in[ids[i]] = 1;
    }
    bool contains(int id) const {return id >= 0 && id < static_cast<int>(in.size()) && in[id];}
    int markOf(int id) const {return id < static_cast<int>(marks.size()) ? marks[id] : 0;}
    void checkEntry(const Ent& e, const char* what) const {
      e.check(what);
      PCHECK(e.id >= 0 && e.id < static_cast<int>(monoOfId.size()) && monoOfId[e.id] == e.mono,
        what << " gives an entry that was never inserted (id " << e.id << ")");
      PCHECK(contains(e.id), what << " gives entry #" << e.id << " " << c.text(e.mono) << " which is not contained");
      PCHECK(e.mark == markOf(e.id), what << " gives entry #" << e.id << " without the change made to it");
    }
    size_t multiplicity(int m) const {
      size_t n = 0;
      for (size_t i = 0; i < ids.size(); ++i) if (c.equal(mono(ids[i]), m)) ++n;
      return n;
    }
    void checkSizes(const char* after) const {
      PCHECK(f->size() == ids.size(), "size() is " << f->size() << " after " << after << " but " << ids.size() << " entries are contained");
      PCHECK(f->empty() == ids.empty(), "empty() is " << f->empty() << " after " << after << " with " << ids.size() << " entries");
    }
    std::vector<int> listing(const char* what) const {
      std::vector<int> v;
      f->forAll([&](const Ent& e) {e.check(what); v.push_back(e.id); return true;}, true);
      return v;
    }
    // all of the contents
    void checkAll(const char* after, bool asConst = true) const {
      sync();
      std::vector<unsigned char> seen(in.size());
      size_t count = 0;
      f->forAll([&](const Ent& e) {
        checkEntry(e, "forAll");
        PCHECK(!seen[e.id], "forAll visits entry #" << e.id << " twice after " << after);
        seen[e.id] = 1; ++count;
        return true;
      }, asConst);
      PCHECK(count == ids.size(), "forAll visits " << count << " of " << ids.size() << " entries after " << after);
      checkSizes(after);
    }
    void checkOrder(int how, const char* after) const {
      sync();
      std::vector<const Ent*> v;
      f->iterate(v, how);
      PCHECK(v.size() == ids.size(), "iteration visits " << v.size() << " of " << ids.size() << " entries after " << after);
      std::set<int> seen;
      for (size_t i = 0; i < v.size(); ++i) {
        PCHECK(v[i] != 0, "stepping or comparing iterators goes wrong after " << after);
        checkEntry(*v[i], "iteration");
        PCHECK(seen.insert(v[i]->id).second, "iteration visits entry #" << v[i]->id << " twice");
        if (f->sort) {
          if (i > 0) PCHECK(!c.less(v[i]->mono, v[i - 1]->mono), "the sorted list is out of order at position "
            << i << " after " << after << ": " << c.text(v[i - 1]->mono) << " before " << c.text(v[i]->mono));
        } else
          PCHECK(v[i]->id == ids[i], "position " << i << " of the list has entry #" << v[i]->id
            << " where #" << ids[i] << " is expected after " << after);
      }
    }
  };

  class Driver {
  public:
    Driver(pbt::Src& s): s(s), rng(0) {}
    void run();
  private:
    int addMono(const std::vector<Exp>& e) {c.monos.push_back(e); return static_cast<int>(c.monos.size() - 1);}
    Exp someExp(size_t var);
    /// From the tape, or, in the bulk phase of huge cases, not recorded.
    uint64_t draw(uint64_t n) {return rng ? (*rng)(n) : s.draw(n);}
    void bulkPhase(bool minimal, bool canRemove);
    void feed(int m);
    void checkMinimal(bool full);
    int genMono();
    int newId(int mono) {monoOfId.push_back(mono); return static_cast<int>(monoOfId.size() - 1);}
    void doQuery(int m, int what, size_t stopAfter, bool asConst);
    void compareAll(const char* what);
    void lifetimes(const char* after);
    template<class F> bool attempt(long long allocs, int callbacks, long long calls, F f);
    void learn(Sut& t, const std::vector<int>& added, const char* after);
    void faulty(Sut& t);
    size_t failures[4], workAfter;
    pbt::Src& s;
    pbt::Bulk* rng;
    Ctx c;
    std::vector<int> fed; // for minimal generators
    Exp bound;
    int expMode;
    std::vector<int> varMode;
    std::vector<int> monoOfId;
    std::vector<std::unique_ptr<Sut> > suts;
    void body();
    size_t maxSize, divHits, divMisses, removedTotal, refused, rebuilds, clears, bulk, fedCount, ownUsed;
    bool anyTreeUsed, anyListUsed;
  };
}
#endif
