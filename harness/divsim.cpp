// The divisor finder models of the divisor simulation, and the simulation.
#include "pbt.h"
#include "divsim/stdinc.h"
#include "divsim/KDTreeModel.h"
#include "divsim/DivListModel.h"
#include "divsim/Simulation.h"
#include <iostream>
#include <memory>
#include <set>
#include <unistd.h>
#include <sys/wait.h>

namespace {
  typedef std::vector<int> Vec;
  bool divides(const Vec& a, const Vec& b) {
    for (size_t i = 0; i < a.size(); ++i) if (b[i] < a[i]) return false;
    return true;
  }
  std::string text(const Vec& v) {
    std::ostringstream o;
    for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "(") << v[i];
    o << ')';
    return o.str();
  }
  struct Params {size_t varCount; bool minimize, sort, cache, toFront; double ratio; size_t minRebuild;};

  struct IModel {
    virtual ~IModel() {}
    virtual void insert(Vec& v, std::vector<const int*>* removed) = 0;
    virtual const int* findDivisor(Vec& v, bool asConst) = 0;
    virtual void findAllDivisors(Vec& v, std::vector<const int*>& out, bool asConst) = 0;
    virtual void forAll(std::vector<const int*>& out, bool asConst) = 0;
    virtual size_t size() = 0;
    virtual std::string name() = 0;
    virtual const int* front() {return 0;}
    virtual void simulate(Simulation& sim, const Params& p) = 0;
  };
  struct Collect {
    std::vector<const int*>& out;
    bool proceed(const Monomial& m) {out.push_back(m.getPointer()); return true;}
    void push_back(const Monomial& m) {out.push_back(m.getPointer());}
  };
  template<class F> struct Model: IModel {
    template<class... A> Model(A... a): f(a...) {}
    void insert(Vec& v, std::vector<const int*>* removed) {
      Monomial m(v);
      if (removed) {Collect c = {*removed}; f.insert(m, c);}
      else f.insert(m);
    }
    const int* findDivisor(Vec& v, bool asConst) {
      Monomial m(v);
      const F& cf = f;
      const Monomial* e = asConst ? cf.findDivisor(m) : f.findDivisor(m);
      return e ? e->getPointer() : 0;
    }
    void findAllDivisors(Vec& v, std::vector<const int*>& out, bool asConst) {
      Monomial m(v);
      Collect c = {out};
      const F& cf = f;
      if (asConst) cf.findAllDivisors(m, c); else f.findAllDivisors(m, c);
    }
    void forAll(std::vector<const int*>& out, bool asConst) {
      Collect c = {out};
      const F& cf = f;
      if (asConst) cf.forAll(c); else f.forAll(c);
    }
    size_t size() {return f.size();}
    std::string name() {return f.getName();}
    F f;
  };
  template<class F> struct TreeModel: Model<F> {
    TreeModel(const Params& p): Model<F>(p.varCount, p.minimize, p.sort, p.cache, p.ratio, p.minRebuild) {}
    void simulate(Simulation& sim, const Params& p) {sim.run<F>(p.minimize, p.sort, p.cache, p.ratio, p.minRebuild);}
  };
  template<class F> struct ListModel: Model<F> {
    ListModel(const Params& p): Model<F>(p.varCount, p.minimize, p.toFront, p.sort && !p.toFront, p.ratio, p.minRebuild) {}
    void simulate(Simulation& sim, const Params& p) {
      sim.run<F>(p.minimize, p.toFront, p.sort && !p.toFront, p.ratio, p.minRebuild);
    }
    const int* front() {return this->f.begin() == this->f.end() ? 0 : this->f.begin()->getPointer();}
  };
  template<class M> IModel* make(const Params& p) {return new M(p);}
  struct Kind {IModel* (*make)(const Params&); size_t leaf; bool removals, list;};
  const Kind kinds[] = {
    {make<ListModel<DivListModel<0, 0> > >, 0, true, true},
    {make<ListModel<DivListModel<0, 1> > >, 0, true, true},
    {make<ListModel<DivListModel<1, 0> > >, 0, true, true},
    {make<ListModel<DivListModel<1, 1> > >, 0, true, true},
    {make<TreeModel<KDTreeModel<0, 0, 0, 1, 1> > >, 1, true, false},
    {make<TreeModel<KDTreeModel<1, 0, 1, 2, 1> > >, 2, true, false},
    {make<TreeModel<KDTreeModel<1, 1, 0, 3, 1> > >, 3, true, false},
    {make<TreeModel<KDTreeModel<1, 1, 1, 1, 1> > >, 1, true, false},
    {make<TreeModel<KDTreeModel<1, 1, 1, 8, 1> > >, 8, true, false},
    {make<TreeModel<KDTreeModel<1, 1, 0, 4, 0> > >, 4, false, false},
    {make<TreeModel<KDTreeModel<0, 0, 1, 5, 0> > >, 5, false, false},
  };
  const size_t kindCount = sizeof(kinds) / sizeof(kinds[0]);

  Params genParams(pbt::Src& s, size_t varCount, bool minimize) {
    static const double ratios[] = {0, 0.5, 1, 2};
    static const size_t mins[] = {0, 1, 10, 1000};
    Params p;
    p.varCount = varCount;
    p.minimize = minimize;
    p.sort = s.flag(); p.cache = s.flag(); p.toFront = s.flag();
    p.ratio = ratios[s.draw(4)]; p.minRebuild = mins[s.draw(4)];
    return p;
  }

  void models(pbt::Src& s) {
    const size_t varCount = 1 + s.small(12);
    const bool minimize = s.flag(3, 4);
    const int maxExp = s.flag() ? 3 : s.flag() ? 8 : 100;
    std::vector<std::unique_ptr<IModel> > m;
    std::vector<size_t> kind;
    std::vector<Params> ps;
    size_t minLeaf = ~size_t(0);
    for (size_t n = 1 + s.draw(3); n > 0; --n) {
      size_t k = s.draw(kindCount);
      if (minimize && !kinds[k].removals) k = 0;
      kind.push_back(k);
      ps.push_back(genParams(s, varCount, minimize));
      m.push_back(std::unique_ptr<IModel>(kinds[k].make(ps.back())));
      if (kinds[k].leaf) minLeaf = std::min(minLeaf, kinds[k].leaf);
      PLOG(s, m.back()->name());
    }
    std::vector<std::unique_ptr<Vec> > mem; // keeps the exponents
    std::vector<Vec*> fed, in;              // fed, and in the reference set
    size_t maxIn = 0, removedTotal = 0;
    for (pbt::List l(s, 20, 80, 250); l.next();) {
      mem.push_back(std::unique_ptr<Vec>(new Vec(varCount)));
      Vec& v = *mem.back();
      const size_t how = fed.empty() ? 0 : s.draw(5);
      if (how >= 3) v = *fed[s.draw(fed.size())];
      if (how == 4) {
        int& e = v[s.draw(varCount)];
        if (s.flag()) ++e; else if (e > 0) --e;
      }
      if (how < 3) for (size_t i = 0; i < varCount; ++i) v[i] = static_cast<int>(s.draw(maxExp + 1));
      if (s.draw(3) != 2) { // feed
        size_t same = 0;
        for (size_t i = 0; i < in.size(); ++i) if (*in[i] == v) ++same;
        if (!minimize && same >= minLeaf) continue;
        PLOG(s, "feed " << text(v));
        fed.push_back(&v);
        std::multiset<Vec> gone;
        bool redundant = false;
        if (minimize) {
          for (size_t i = 0; i < in.size(); ++i) if (divides(*in[i], v)) redundant = true;
          if (!redundant) for (size_t i = 0; i < in.size();) {
            if (divides(v, *in[i])) {gone.insert(*in[i]); in.erase(in.begin() + i);}
            else ++i;
          }
        }
        if (!redundant) in.push_back(&v);
        removedTotal += gone.size();
        maxIn = std::max(maxIn, in.size());
        for (size_t i = 0; i < m.size(); ++i) {
          std::vector<const int*> out;
          const bool useOut = s.flag(2, 3);
          m[i]->insert(v, useOut ? &out : 0);
          if (useOut) {
            std::multiset<Vec> got;
            for (size_t k = 0; k < out.size(); ++k) got.insert(Vec(out[k], out[k] + varCount));
            PCHECK(got == gone, m[i]->name() << ": feeding " << text(v) << " reports " << got.size()
              << " replaced generators, not exactly the " << gone.size() << " multiples");
          }
          PCHECK(m[i]->size() == in.size(), m[i]->name() << " contains " << m[i]->size() << " after feeding "
            << text(v) << ", " << in.size() << " expected");
        }
      } else {
        PLOG(s, "query " << text(v));
        std::multiset<Vec> want;
        for (size_t i = 0; i < in.size(); ++i) if (divides(*in[i], v)) want.insert(*in[i]);
        for (size_t i = 0; i < m.size(); ++i) {
          const bool asConst = s.flag();
          if (s.flag()) {
            const int* e = m[i]->findDivisor(v, asConst);
            PCHECK((e != 0) == !want.empty(), m[i]->name() << (e ? " finds a divisor of " : " finds no divisor of ")
              << text(v) << " where there are " << want.size());
            if (e) PCHECK(want.count(Vec(e, e + varCount)), m[i]->name() << " finds a wrong divisor of " << text(v));
            if (e && kinds[kind[i]].list && ps[i].toFront)
              PCHECK(m[i]->front() == e, m[i]->name() << ": the divisor that was found was not moved to the front");
          } else {
            std::vector<const int*> out;
            m[i]->findAllDivisors(v, out, asConst);
            std::multiset<Vec> got;
            for (size_t k = 0; k < out.size(); ++k) got.insert(Vec(out[k], out[k] + varCount));
            PCHECK(got == want, m[i]->name() << ": findAllDivisors of " << text(v) << " reports " << got.size()
              << " entries, not exactly the " << want.size() << " divisors");
          }
        }
      }
    }
    std::multiset<Vec> want;
    if (minimize) { // from all that was fed, whatever the order
      for (size_t a = 0; a < fed.size(); ++a) {
        bool keep = true;
        for (size_t b = 0; b < fed.size() && keep; ++b)
          if (a != b && divides(*fed[b], *fed[a]) && (*fed[a] != *fed[b] || b < a)) keep = false;
        if (keep) want.insert(*fed[a]);
      }
    } else
      for (size_t a = 0; a < fed.size(); ++a) want.insert(*fed[a]);
    for (size_t i = 0; i < m.size(); ++i) {
      std::vector<const int*> out;
      m[i]->forAll(out, s.flag());
      std::multiset<Vec> got;
      for (size_t k = 0; k < out.size(); ++k) got.insert(Vec(out[k], out[k] + varCount));
      PCHECK(got == want, m[i]->name() << " ends with " << got.size() << " entries, not exactly the "
        << want.size() << " expected");
    }
    s.labelIf(removedTotal > 0, "generators replaced");
    if (fed.size() >= 4 && maxIn >= 2) s.nontrivial();
  }

  struct Capture {
    explicit Capture(std::ostream& of = std::cout): of(of), old(of.rdbuf(o.rdbuf())) {}
    ~Capture() {of.rdbuf(old);}
    std::ostream& of;
    std::ostringstream o;
    std::streambuf* old;
  };
  std::string squeezed(const std::string& t) { // single blanks between words
    std::istringstream in(t);
    std::string r;
    for (std::string w; in >> w;) r += (r.empty() ? "" : " ") + w;
    return r;
  }
  // a line "name number ms number eqs" with a blank before the units or not
  bool statsLine(const std::string& line, const std::string& name, std::string& eqs) {
    if (line.substr(0, name.size() + 1) != name + " ") return false;
    std::string t, rest = squeezed(line.substr(name.size() + 1));
    for (size_t i = 0; i < rest.size(); ++i) if (!(rest[i] == ' ' && i + 1 < rest.size() && !isdigit(rest[i + 1]))) t += rest[i];
    const size_t ms = t.find("ms "), end = t.size() < 3 ? 0 : t.size() - 3;
    if (ms == std::string::npos || ms == 0 || end < ms + 4 || t.substr(end) != "eqs") return false;
    for (size_t i = 0; i < end; ++i) if (i < ms || i >= ms + 3) if (!isdigit(t[i]) && t[i] != ',') return false;
    eqs = t.substr(ms + 3, end - ms - 3);
    return true;
  }

  void simulation(pbt::Src& s) {
    const size_t varCount = 2 + s.small(9);
    const size_t inserts = 1 + (s.draw(4) == 3 ? s.draw(400) : s.draw(50));
    const size_t queries = s.draw(100);
    const bool findAll = s.flag(), minimize = s.flag(2, 3);
    PLOG(s, "simulation of " << varCount << " variables, " << inserts << " inserts, " << queries << " queries"
      << (findAll ? " for all divisors" : "") << (minimize ? " minimizing" : ""));
    const bool partial = s.flag(1, 3);
    Simulation sim(1, partial);
    sim.makeStandard(varCount, inserts, queries, findAll);
    std::string first;
    std::vector<std::string> partialEqs;
    std::vector<std::string> names;
    for (size_t n = 2 + s.draw(5); n > 0; --n) {
      size_t k = s.draw(kindCount);
      if (minimize && !kinds[k].removals) k = 4;
      if (!minimize && kinds[k].leaf == 1) k = 8; // two identical monomials may be generated
      const Params p = genParams(s, varCount, minimize);
      std::unique_ptr<IModel> m(kinds[k].make(p));
      PLOG(s, "run " << m->name());
      names.push_back(m->name());
      std::string out;
      {
        Capture c, e(std::cerr);
        m->simulate(sim, p);
        out = c.o.str();
        partialEqs.push_back("");
        const std::string part = e.o.str();
        if (!partial) PCHECK(part.empty(), "the simulation printed \"" << part << "\" to the error stream");
        else PCHECK(!part.empty() && part.find('\n') == part.size() - 1 && statsLine(part.substr(0, part.size() - 1), m->name(), partialEqs.back()),
          "the outcome of " << m->name() << " is printed as \"" << part << "\"");
      }
      std::istringstream in(out);
      size_t count = 0; std::string rest;
      PCHECK((in >> count) && !(in >> rest), "the simulation printed \"" << out << "\" instead of a number");
      PCHECK(count > 0, "the simulation ends without entries");
      if (first.empty()) first = out;
      PCHECK(out == first, m->name() << " ends with " << out << " entries, the first finder with " << first);
    }
    std::ostringstream o;
    sim.printData(o);
    std::vector<std::string> lines;
    std::istringstream in(o.str());
    std::string line;
    std::getline(in, line);
    while (std::getline(in, line)) {
      line.erase(0, std::min(line.size(), line.find_first_not_of(" ")));
      if (!line.empty()) lines.push_back(line);
    }
    PCHECK(lines.size() == names.size(), "printData prints " << lines.size() << " lines for " << names.size() << " runs");
    for (size_t i = 0; i < names.size(); ++i) {
      std::vector<std::string>::iterator it = lines.begin();
      std::string eqs;
      while (it != lines.end() && !(statsLine(*it, names[i], eqs) && (!partial || eqs == partialEqs[i]))) ++it;
      PCHECK(it != lines.end(), "printData does not mention " << names[i] << (partial ? " with " + partialEqs[i] + " queries for exponents" : "") << ": " << o.str());
      lines.erase(it);
    }
    s.labelIf(partial, "partial data printed");
    if (inserts >= 5 && queries >= 5) s.nontrivial();
    s.label("simulation");
  }

  // Answers like a list but one answer is wrong.
  struct Wrong {
    typedef Monomial Entry;
    // kind 0: a wrong answer to a query; 1: an insertion reports one more removed entry, 2: one less
    Wrong(size_t varCount, bool minimize, int kind, size_t at): f(varCount, minimize, false, false, 0.0, 0), kind(kind), left(at) {}
    static bool wrongDone;
    DivListModel<0, 0> f; int kind; size_t left;
    bool now() const {size_t& l = const_cast<size_t&>(left); return kind == 0 && l-- == 0;}
    template<class O> struct Less {
      O& o; size_t skipped;
      void push_back(const Entry& e) {proceed(e);}
      bool proceed(const Entry& e) {if (skipped == 0) {++skipped; return true;} return o.proceed(e);}
    };
    template<class O> void insert(const Entry& e, O& o) {
      if (kind == 0 || left-- != 0) {f.insert(e, o); return;}
      if (kind == 1) {wrongDone = true; f.insert(e, o); o.proceed(e); return;}
      Less<O> less = {o, 0};
      f.insert(e, less);
      if (less.skipped) wrongDone = true;
    }
    void insert(const Entry& e) {f.insert(e);}
    Entry* findDivisor(const Monomial& m) {
      Entry* e = f.findDivisor(m);
      if (!now()) return e;
      wrongDone = true;
      if (e) return 0;
      static Monomial any;
      return f.size() ? &*f.begin() : &any;
    }
    template<class O> void findAllDivisors(const Monomial& m, O& o) const {
      if (now()) {wrongDone = true; o.proceed(m);}
      f.findAllDivisors(m, o);
    }
    template<class O> void forAll(O& o) {f.forAll(o);}
    size_t size() const {return f.size();}
    std::string getName() const {return "wrong";}
    unsigned long long getExpQueryCount() const {return 0;}
  };
  bool Wrong::wrongDone = false;

  void rejection(pbt::Src& s) {
#ifdef PBT_FUZZ
    throw pbt::Discard(); // ends processes
#endif
    const size_t varCount = 1 + s.small(5);
    const size_t inserts = s.draw(30), queries = 1 + s.draw(40);
    const bool findAll = s.flag();
    const int kind = s.draw(2) == 0 ? 0 : 1 + static_cast<int>(s.draw(2));
    const bool minimize = kind != 0;
    const size_t at = s.draw(kind == 0 ? queries : inserts + 1);
    PLOG(s, "simulation of " << varCount << " variables, " << inserts << " inserts, " << queries << " queries"
      << (kind == 0 ? ", wrong answer " : kind == 1 ? ", one more removal reported by insertion " : ", one less removal reported by insertion ") << at);
    // the number of insertions that makeStandard makes is not relied on
    fflush(0);
    int fd[2];
    if (pipe(fd) != 0) throw pbt::Discard();
    const pid_t pid = fork();
    if (pid == 0) {
      setenv("PBT_CHILD", "1", 1);
      Capture c;
      std::cerr.rdbuf(0);
      Simulation sim(1, false);
      sim.makeStandard(varCount, inserts, queries, findAll);
      sim.run<DivListModel<0, 0> >(minimize, false, false, 0.0, 0);
      std::atexit([]() {_exit(Wrong::wrongDone ? 17 : 18);});
      sim.run<Wrong>(minimize, kind, at);
      _exit(Wrong::wrongDone ? 19 : 20);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    close(fd[0]); close(fd[1]);
    PCHECK(WIFEXITED(status), "the simulation crashed");
    const int rc = WEXITSTATUS(status);
    PCHECK(rc == 17 || rc == 20, (rc == 18 ? "the simulation ends with failure although all answers are right" :
      rc == 19 ? "the simulation accepts a finder that gave a wrong answer" : "the simulation ended unexpectedly"));
    s.label(rc == 17 ? "wrong finder rejected" : "wrong answer not reached");
    if (rc == 17) s.nontrivial();
  }
}
PBT_VARIANT("models", 20, models);
PBT_VARIANT("simulation", 2, simulation);
#ifndef DEBUG // there it ends with an assertion
PBT_VARIANT("rejection", 1, rejection);
#endif
