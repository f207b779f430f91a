// The queue simulator: its event histories against a reference queue, the
// library's queues under it, and queues that are wrong on purpose.
#define main pqProgramMain // the program, too; it includes stdinc.h
#include "pqsim/pqMain.cpp"
#undef main
#include "pbt.h"
#include "capture.h"
#include "pqsim/Simulator.h"
#include "pqsim/StlSetModel.h"
#include "pqsim/HeapModel.h"
#include "pqsim/GeobucketModel.h"
#include "pqsim/TourTreeModel.h"
#include <set>
#include <map>
#include <memory>
#include <unistd.h>
#include <sys/wait.h>

// The simulator calls rand(): this one makes equal numbers common when asked to.
static unsigned long long gRandState = 1;
static unsigned gRandRange = 0;
extern "C" int rand() {
  gRandState = gRandState * 6364136223846793005ull + 1442695040888963407ull;
  const unsigned r = static_cast<unsigned>(gRandState >> 33);
  return static_cast<int>(gRandRange ? r % gRandRange : r);
}
extern "C" void srand(unsigned s) {gRandState = s * 2862933555777941757ull + 3037000493ull;}

namespace {
  struct Plan {
    int kind; size_t a, b, c, d, repeats; unsigned seed, range;
    void make(Simulator& sim) const {
      srand(seed);
      gRandRange = range;
      switch (kind) {
      case 0: sim.dupSpans(a, b, c, d); break;
      case 1: sim.orderSpans(a, b, c); break;
      default: sim.randomSpans(a, b, c); break;
      }
      gRandRange = 0;
    }
    std::string text() const {
      std::ostringstream o;
      o << (kind == 0 ? "dupSpans(" : kind == 1 ? "orderSpans(" : "randomSpans(") << a << ", " << b << ", " << c;
      if (kind == 0) o << ", " << d;
      o << ") repeats " << repeats << " seed " << seed << " rand range " << range;
      return o.str();
    }
  };
  Plan genPlan(pbt::Src& s) {
    Plan p;
    p.kind = static_cast<int>(s.draw(3));
    p.repeats = 1 + (s.draw(3) == 2 ? s.draw(3) : 0);
    p.seed = static_cast<unsigned>(s.draw(100000));
    p.d = 0;
    p.range = 0;
    if (p.kind == 0) {
      p.a = 1 + s.small(200); p.b = 1 + s.draw(s.flag() ? 3 : 20); p.c = s.small(25); p.d = s.draw(101);
      p.range = s.draw(3) == 2 ? 5000 : 0;
    } else if (p.kind == 1) {
      p.a = 1 + s.small(30); p.b = 1 + s.small(15); p.c = 1 + s.small(30);
    } else {
      p.a = 1 + s.small(30); p.b = 1 + s.small(20); p.c = 1 + s.small(40);
      p.range = s.draw(2) == 1 ? static_cast<unsigned>(2 * (p.b + p.c)) : 0; // more than a span has
    }
    return p;
  }

  struct Event {bool push; std::vector<Value> v;};
  /// What printEvents says.
  std::vector<Event> events(const Simulator& sim) {
    std::ostringstream o;
    sim.printEvents(o);
    std::istringstream in(o.str());
    std::vector<Event> r;
    std::string line;
    std::getline(in, line);
    size_t n = 0;
    PCHECK(sscanf(line.c_str(), "*** The %zu events are", &n) == 1, "printEvents starts with " << line);
    while (std::getline(in, line)) {
      std::istringstream li(line);
      std::string w; li >> w;
      PCHECK(w == "Pop" || w == "Insert", "printEvents says " << line);
      Event e; e.push = w == "Insert";
      Value v;
      while (li >> v) e.v.push_back(v);
      PCHECK(e.push ? !e.v.empty() : e.v.size() == 1, "printEvents says " << line);
      r.push_back(e);
    }
    PCHECK(r.size() == n, "printEvents announces " << n << " events and prints " << r.size());
    return r;
  }

  std::string commas(unsigned long long n) {
    std::string d = std::to_string(n), r;
    for (size_t i = 0; i < d.size(); ++i) {r += d[i]; if (i + 1 < d.size() && (d.size() - 1 - i) % 3 == 0) r += ',';}
    return r;
  }
  struct Cerr {
    Cerr(): old(std::cerr.rdbuf(o.rdbuf())) {}
    ~Cerr() {std::cerr.rdbuf(old);}
    std::ostringstream o;
    std::streambuf* old;
  };

  /// What one run of a queue reported.
  struct Report {std::string name; unsigned long long cmps, kb;};
  typedef std::function<Report(Simulator&, bool)> Runner;
  template<class M> Report runModel(M& m, Simulator& sim, bool states) {
    Report r;
    std::string line;
    {
      Cerr c;
      sim.run(m, true, states);
      line = c.o.str();
    }
    r.name = m.getName();
    r.cmps = m.getComparisons();
    r.kb = m.getMemoryUse() / 1024;
    PCHECK(m.empty(), r.name << " is not empty after the simulation");
    const std::string want = " cmps " + commas(r.kb) + " kb\n";
    PCHECK(line.size() > want.size() && line.substr(line.size() - want.size()) == want
      && line.find(" ms " + commas(r.cmps) + " cmps ") != std::string::npos,
      "the run of " << r.name << " with " << r.cmps << " comparisons, " << r.kb << " kb is reported as " << line);
    const size_t nl = states ? line.rfind('\n', line.size() - 2) : std::string::npos;
    PCHECK(line.compare(nl == std::string::npos ? 0 : nl + 1, r.name.size() + 1, r.name + " ") == 0,
      "the run of " << r.name << " is reported as " << line);
    return r;
  }
  template<class M> void add(std::vector<Runner>& v) {
    v.push_back([](Simulator& sim, bool st) {M m; return runModel(m, sim, st);});
  }
  template<class M> void addGeo(std::vector<Runner>& v, size_t base, size_t least) {
    v.push_back([=](Simulator& sim, bool st) {M m(base, least); return runModel(m, sim, st);});
  }
  std::vector<Runner> runners() {
    std::vector<Runner> v;
    add<StlSetModel<0> >(v); add<StlSetModel<1> >(v);
    add<HeapModel<0, 0, 0> >(v); add<HeapModel<1, 0, 0> >(v); add<HeapModel<0, 1, 0> >(v); add<HeapModel<1, 1, 0> >(v);
    add<HeapModel<0, 0, 1> >(v); add<HeapModel<1, 0, 1> >(v); add<HeapModel<0, 1, 1> >(v); add<HeapModel<1, 1, 1> >(v);
    add<TourTreeModel<0, 0> >(v); add<TourTreeModel<1, 0> >(v); add<TourTreeModel<0, 1> >(v); add<TourTreeModel<1, 1> >(v);
    addGeo<GeobucketModel<0, 0, 0, 0, 0, 0, 0> >(v, 4, 32);
    addGeo<GeobucketModel<0, 0, 0, 0, 0, 0, 0> >(v, 2, 1);
    addGeo<GeobucketModel<0, 0, 0, 1, 0, 0, 0> >(v, 4, 3);
    addGeo<GeobucketModel<1, 0, 0, 0, 0, 0, 0> >(v, 2, 2);
    addGeo<GeobucketModel<0, 1, 1, 0, 1, 0, 1, 2> >(v, 3, 4);
    addGeo<GeobucketModel<1, 1, 0, 1, 1, 1, 2> >(v, 2, 8);
    addGeo<GeobucketModel<0, 0, 1, 1, 0, 1, 1> >(v, 2, 2);
    addGeo<GeobucketModel<0, 1, 0, 0, 0, 1, 2, 3> >(v, 5, 1);
    return v;
  }

  // ---- the histories
  void histories(pbt::Src& s) {
    const Plan p = genPlan(s);
    PLOG(s, p.text());
    Simulator sim(p.repeats);
    p.make(sim);
    const std::vector<Event> ev = events(sim);
    std::multiset<Value> q;
    unsigned long long pushes = 0, traffic = 0, liveSum = 0, dups = 0, most = 0;
    for (size_t i = 0; i < ev.size(); ++i) {
      liveSum += q.size();
      if (ev[i].push) {
        ++pushes; traffic += ev[i].v.size();
        std::multiset<Value> before(q);
        for (size_t k = 0; k < ev[i].v.size(); ++k) {
          PCHECK(k == 0 || ev[i].v[k - 1] > ev[i].v[k], "event " << i << " inserts " << ev[i].v[k] << " after " << ev[i].v[k - 1]);
          if (before.count(ev[i].v[k])) ++dups;
          q.insert(ev[i].v[k]);
        }
      } else {
        PCHECK(!q.empty(), "event " << i << " pops from an empty queue");
        const Value v = *q.rbegin();
        PCHECK(v == ev[i].v[0], "event " << i << " pops " << ev[i].v[0] << " but the maximum is " << v);
        q.erase(v);
      }
      most = std::max<unsigned long long>(most, q.size());
    }
    PCHECK(q.empty(), "the history leaves " << q.size() << " elements in the queue");
    if (p.kind != 0) {
      PCHECK(pushes == p.a, p.text() << " makes " << pushes << " spans");
      const size_t want = p.kind == 1 ? p.a * p.b : p.c + (p.a - 1) * p.b;
      PCHECK(traffic == want, p.text() << " inserts " << traffic << " elements instead of " << want);
    } else
      PCHECK(traffic >= p.a, p.text() << " inserts only " << traffic << " elements");
    std::ostringstream o, want;
    sim.printEventSummary(o);
    want << "*** Simulation \"" << (p.kind == 0 ? "dup spans" : p.kind == 1 ? "ordered spans" : "random spans") << "\"\n " << pushes
      << " spans\n " << traffic / pushes << " per span on average\n " << liveSum / ev.size()
      << " elements in queue on average\n " << traffic << " entries popped in total.\n " << dups * 100 / traffic
      << "% duplicates\n " << p.repeats << " repeats.\n\n";
    PCHECK(o.str() == want.str(), "the summary is\n" << o.str() << "instead of\n" << want.str());
    Simulator again(p.repeats);
    p.make(again);
    std::ostringstream e1, e2;
    sim.printEvents(e1); again.printEvents(e2);
    PCHECK(e1.str() == e2.str(), "the same random seed gives another history");
    s.labelIf(dups > 0, "duplicates");
    s.label("history");
    if (ev.size() >= 6 && most >= 3) s.nontrivial();
  }

  // ---- right queues
  void right(pbt::Src& s) {
    const Plan p = genPlan(s);
    PLOG(s, p.text());
    static const std::vector<Runner> all = runners();
    Simulator sim(p.repeats), again(p.repeats);
    p.make(sim); p.make(again);
    std::multimap<std::string, Report> ran;
    std::atexit([]() {});
    for (size_t n = 1 + s.draw(4); n > 0; --n) {
      const size_t k = s.draw(all.size());
      const bool states = s.draw(12) == 11;
      Report a = all[k](sim, states);
      PLOG(s, "ran " << a.name << ": " << a.cmps << " comparisons");
      Report b = all[k](again, false);
      PCHECK(a.cmps == b.cmps && a.kb == b.kb, a.name << " has " << a.cmps << " comparisons, " << a.kb
        << " kb and for the same random seed " << b.cmps << " comparisons, " << b.kb << " kb");
      ran.insert(std::make_pair(a.name, a));
    }
    std::ostringstream o;
    sim.printData(o);
    std::istringstream in(o.str());
    std::string line;
    std::getline(in, line);
    size_t lines = 0;
    while (std::getline(in, line)) {
      if (line.find_first_not_of(' ') == std::string::npos) continue;
      ++lines;
      bool found = false;
      for (std::multimap<std::string, Report>::iterator it = ran.begin(); it != ran.end() && !found; ++it) {
        const std::string tail = commas(it->second.cmps) + "cmps ", tail2 = commas(it->second.kb) + "kb";
        const size_t at = line.find_first_not_of(' ');
        if (line.compare(at, it->first.size() + 1, it->first + " ") == 0
          && (line.find(" " + tail) != std::string::npos) && line.size() >= tail2.size()
          && line.substr(line.size() - tail2.size()) == tail2) {found = true; ran.erase(it); break;}
      }
      PCHECK(found, "printData has the line " << line << " that was not reported by a run");
    }
    PCHECK(ran.empty(), "printData leaves out the run of " << ran.begin()->first << ": " << o.str());
    s.labelIf(p.range != 0, "few different numbers");
    s.label("right queues");
    if (p.a >= 3) s.nontrivial();
  }

  // ---- the program
  struct Cout {
    Cout(): old(std::cout.rdbuf(o.rdbuf())) {}
    ~Cout() {std::cout.rdbuf(old);}
    std::ostringstream o;
    std::streambuf* old;
  };
  int program(const std::vector<std::string>& args, std::string& out, std::string& err) {
    std::vector<const char*> a;
    for (size_t i = 0; i < args.size(); ++i) a.push_back(args[i].c_str());
    const int count = static_cast<int>(a.size());
    a.push_back(0);
    Cerr e; Cout o;
    const int rc = pqProgramMain(count, &a[0]);
    out = o.o.str(); err = e.o.str();
    return rc;
  }
  void wholeProgram(pbt::Src& s) {
    gRandRange = 0;
    const size_t given = s.draw(8) == 7 ? s.draw(3) : 3 + s.draw(2);
    const size_t elements = 1 + s.small(25), span = 1 + s.draw(s.flag() ? 3 : 12), avg = s.small(12);
    const size_t dups = given == 4 ? s.draw(101) : 30;
    const size_t all[] = {elements, span, avg, dups};
    std::vector<std::string> args(1, "pqsim");
    std::string line = "pqsim";
    for (size_t i = 0; i < given; ++i) {args.push_back(std::to_string(all[i])); line += ' ' + args.back();}
    PLOG(s, line);
    std::string out, err;
    const int rc = program(args, out, err);
    PCHECK(rc == 0, line << " ends with status " << rc);
    if (given < 3) {
      PCHECK(out.empty() && err.find("usage:") != std::string::npos, line << " does not tell its usage: " << err << out);
      return;
    }
    // the same history with the same number of repeats
    const size_t rep = err.find(" repeats.");
    PCHECK(rep != std::string::npos, line << " does not tell what it simulates: " << err);
    size_t from = rep;
    while (from > 0 && isdigit(static_cast<unsigned char>(err[from - 1]))) --from;
    const size_t repeats = strtoull(err.c_str() + from, 0, 10);
    PCHECK(repeats > 0 && repeats <= 100000, line << " makes " << repeats << " repeats");
    Simulator sim(repeats);
    srand(0);
    sim.dupSpans(elements, span, avg, dups);
    std::ostringstream summary;
    sim.printEventSummary(summary);
    PCHECK(err.find(summary.str()) != std::string::npos, line << " simulates\n" << err << "instead of\n" << summary.str());
    static const std::vector<Runner> known = runners();
    std::vector<Runner> mine(known);
    addGeo<GeobucketModel<0, 0, 0, 0, 0, 0, 0> >(mine, 4, 32);
    addGeo<GeobucketModel<0, 0, 0, 0, 0, 0, 0> >(mine, 2, 32);
    addGeo<GeobucketModel<0, 0, 0, 1, 0, 0, 0> >(mine, 4, 32);
    std::map<std::string, Report> want;
    std::map<std::string, size_t> shown;
    std::istringstream in(out);
    std::string l;
    size_t lines = 0;
    std::getline(in, l);
    std::vector<std::string> table;
    while (std::getline(in, l)) if (l.find_first_not_of(' ') != std::string::npos) table.push_back(l);
    for (size_t i = 0; i < mine.size(); ++i) {
      // only what is mentioned
      Simulator none(0);
      none.dupSpans(1, 1, 1, 0);
      const std::string name = mine[i](none, false).name;
      bool there = false;
      for (size_t k = 0; k < table.size(); ++k) {
        const size_t at = table[k].find_first_not_of(' ');
        there = there || table[k].compare(at, name.size() + 1, name + " ") == 0;
      }
      if (there && !want.count(name)) want[name] = mine[i](sim, false);
    }
    srand(0);
    for (size_t k = 0; k < table.size(); ++k) {
      const std::string& row = table[k];
      const size_t at = row.find_first_not_of(' ');
      std::map<std::string, Report>::iterator it = want.begin();
      // the longest name that fits
      std::map<std::string, Report>::iterator best = want.end();
      for (; it != want.end(); ++it)
        if (row.compare(at, it->first.size() + 1, it->first + " ") == 0 && (best == want.end() || it->first.size() > best->first.size())) best = it;
      PCHECK(best != want.end(), line << " reports on an unknown queue: " << row);
      ++shown[best->first];
      const std::string tail = commas(best->second.cmps) + "cmps ", tail2 = " " + commas(best->second.kb) + "kb";
      PCHECK(row.find(" " + tail) != std::string::npos && row.size() > tail2.size()
        && row.substr(row.size() - tail2.size()) == tail2, line << " reports\n" << row << "\nof a queue with "
        << commas(best->second.cmps) << " comparisons and " << commas(best->second.kb) << " kb");
      // the run itself was reported, too
      PCHECK(err.find(" " + commas(best->second.cmps) + " cmps " + commas(best->second.kb) + " kb\n") != std::string::npos,
        line << " did not report the run of " << best->first << ": " << err);
      ++lines;
    }
    PCHECK(lines >= 2, line << " reports on " << lines << " queues: " << out);
    for (std::map<std::string, size_t>::iterator it = shown.begin(); it != shown.end(); ++it)
      PCHECK(it->second == 1, line << " reports " << it->second << " times on " << it->first);
    s.label("program");
    if (elements >= 3) s.nontrivial();
  }

  // ---- wrong queues
  enum Fault {None, Lose, Invent, WrongMax, Second, KeepTop, NumFaults};
  /// Keeps a right queue beside the wrong one, to know whether an answer is wrong.
  struct WrongQ {
    std::multiset<Value> q, right; Fault f; size_t at, pushesDone, popsDone; bool* did;
    WrongQ(Fault f, size_t at, bool* did): f(f), at(at), pushesDone(0), popsDone(0), did(did) {}
    std::string getName() const {return "wrong";}
    size_t getComparisons() const {return 0;}
    size_t getMemoryUse() const {return 0;}
    void print(std::ostream&) const {}
    bool empty() const {return q.empty();}
    void push(const Value* b, const Value* e) {
      q.insert(b, e); right.insert(b, e);
      if (pushesDone++ != at) return;
      if (f == Lose) q.erase(q.find(*b));
      else if (f == Invent) q.insert(*b / 2 + 1);
    }
    Value pop() {
      const Value w = wrongPop();
      const Value v = *right.rbegin();
      right.erase(v);
      if (w != v) *did = true;
      return w;
    }
    Value wrongPop() {
      if (q.empty()) return 4711; // what it should contain was lost
      const Value v = *q.rbegin();
      if (popsDone++ == at) {
        if (f == WrongMax) {q.erase(v); return v + 1;}
        if (f == Second && *q.begin() != v) {
          std::multiset<Value>::iterator it = q.lower_bound(v);
          --it;
          const Value w = *it;
          q.erase(w);
          return w;
        }
        if (f == KeepTop) return v; // pops nothing
      }
      q.erase(v);
      return v;
    }
  };
  bool gDid = false;
  void wrong(pbt::Src& s) {
#ifdef PBT_FUZZ
    throw pbt::Discard(); // ends processes
#endif
    const Plan p = genPlan(s);
    const Fault f = static_cast<Fault>(s.draw(NumFaults));
    const size_t at = s.small(20);
    const bool silent = s.flag();
    static const char* names[] = {"no", "lost element", "invented element", "wrong maximum", "second largest", "repeated maximum"};
    PLOG(s, p.text() << " fault: " << names[f] << " at " << at);
    Simulator sim(p.repeats);
    p.make(sim);
    const std::vector<Event> ev = events(sim);
    fflush(0);
    int fd[2];
    if (pipe(fd) != 0) throw pbt::Discard();
    const pid_t pid = fork();
    if (pid == 0) {
      setenv("PBT_CHILD", "1", 1);
      close(fd[0]);
      static std::ostringstream err;
      static int out = fd[1];
      std::cerr.rdbuf(err.rdbuf());
      gDid = false;
      std::atexit([]() {
        const bool said = err.str().find("ERROR: queue wrong gave incorrect value") != std::string::npos;
        char c = said ? 'E' : 'e';
        (void)!write(out, &c, 1);
        c = gDid ? 'D' : 'd';
        (void)!write(out, &c, 1);
      });
      WrongQ q(f, at, &gDid);
      sim.run(q, !silent, false);
      // the last elements may be those that are wrong: also then the events differ
      char c = q.empty() ? 'R' : 'L';
      (void)!write(fd[1], &c, 1);
      c = gDid ? 'D' : 'd';
      (void)!write(fd[1], &c, 1);
      _exit(0);
    }
    close(fd[1]);
    std::string said;
    char c;
    while (read(fd[0], &c, 1) == 1) said += c;
    close(fd[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    PCHECK(WIFEXITED(status), "the simulation of a wrong queue (" << names[f] << ") crashed");
    const int rc = WEXITSTATUS(status);
    PLOG(s, "exit status " << rc << ", " << said);
    if (rc != 0) {
      PCHECK(said == "ED", "the simulation ended with status " << rc << (said.size() && said[0] == 'E' ? "" : " without reporting an error")
        << (said.size() > 1 && said[1] == 'D' ? "" : " though no answer was wrong") << " (fault: " << names[f] << ")");
    } else
      PCHECK(said == "Rd" || said == "Ld", "the simulation accepts a queue that was wrong (fault: " << names[f] << " at " << at
        << ") in " << ev.size() << " events");
    // left-over elements are only possible for an element below all others
    PCHECK(said != "Ld" || f == Invent || f == KeepTop, "a " << names[f] << " leaves elements behind");
    s.label(rc != 0 ? "wrong queue rejected" : said == "Ld" ? "left over" : "no fault reached");
    s.label(names[f]);
    if (rc != 0) s.nontrivial();
  }
}
PBT_VARIANT("histories", 40, histories);
PBT_VARIANT("right queues", 32, right);
PBT_VARIANT("wrong queues", 16, wrong);
PBT_VARIANT("program", 1, wholeProgram);
