#include "finder.h"

namespace fh {
  Ctx* gCtx = 0;
  /// Whether arguments are also references to contained entries.
  static bool ownToo() {return FOCUS <= 15 || FOCUS == 18 || FOCUS == 32;}
  struct Own {
    IFinder& f;
    Own(IFinder& f, bool use): f(f) {f.useOwn = use;}
    ~Own() {f.useOwn = false;}
  };
  std::vector<Kind>& kinds() {static std::vector<Kind> v; return v;}

  Exp Driver::someExp(size_t var) {
    switch (varMode[var]) {
    case 1: return 0;
    case 2: return bound - draw(std::min<Exp>(bound, 3) + 1);
    case 3: return draw(bound) + draw(2);
    default: break;
    }
    switch (expMode) {
    case 0: return draw(std::min<Exp>(bound, 2) + 1);
    case 1: return draw(std::min<Exp>(bound, 5) + 1);
    case 2: return draw(std::min<Exp>(bound, 60) + 1);
    case 3: return draw(bound) + draw(2);
    default: return draw(8) == 0 ? draw(std::min<Exp>(bound, 100000) + 1) : draw(std::min<Exp>(bound, 3) + 1);
    }
  }

  int Driver::genMono() {
    std::vector<Exp> e(c.varCount);
    static const unsigned char hows[16] = {0, 0, 0, 0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 4};
    const size_t how = monoOfId.empty() ? 0 : hows[draw(16)];
    if (how == 0) {
      for (size_t v = 0; v < c.varCount; ++v) e[v] = someExp(v);
      return addMono(e);
    }
    const int base = monoOfId[draw(monoOfId.size())];
    e = c.monos[base];
    if (how == 1) return base; // identical
    const size_t changes = 1 + draw(3);
    for (size_t i = 0; i < changes; ++i) {
      const size_t v = draw(c.varCount);
      const Exp d = draw(4) == 3 ? draw(bound) : 1 + draw(2);
      const bool up = how == 2 || (how == 4 && draw(2) == 1);
      if (up) e[v] = bound - e[v] < d ? bound : e[v] + d;
      else e[v] = e[v] < d ? 0 : e[v] - d;
    }
    return addMono(e);
  }

  void Driver::lifetimes(const char* after) {
    long expect = 0;
    for (size_t i = 0; i < suts.size(); ++i) expect += static_cast<long>(suts[i]->ids.size());
    PCHECK(c.live == expect, c.live << " copies of entries are alive after " << after
      << " where " << expect << " entries are contained");
  }

  void Driver::doQuery(int m, int what, size_t stopAfter, bool asConst) {
    for (size_t i = 0; i < suts.size(); ++i) {
      Sut& t = *suts[i];
      t.sync();
      std::vector<int> expect;
      for (size_t k = 0; k < t.ids.size(); ++k) {
        const int em = t.mono(t.ids[k]);
        if (what <= 2 ? c.divides(em, m) : c.divides(m, em)) expect.push_back(t.ids[k]);
      }
      if (what <= 1) {
        size_t pos = 0;
        const Ent* e = what == 0 || t.f->isTree ? t.f->findDivisor(m, asConst) : t.f->findDivisorIterator(m, pos);
        if (e == 0) {
          ++divMisses;
          PCHECK(expect.empty(), t.f->name() << ": no divisor of " << c.text(m) << " found although entry #"
            << expect[0] << " " << c.text(t.mono(expect[0])) << " divides it");
          if (what == 1 && !t.f->isTree) PCHECK(pos == t.ids.size(), "findDivisorIterator does not return end() for no divisor");
        } else {
          ++divHits;
          t.checkEntry(*e, "findDivisor");
          PCHECK(c.divides(e->mono, m), t.f->name() << ": entry #" << e->id << " " << c.text(e->mono)
            << " was returned as a divisor of " << c.text(m));
          PCHECK(!expect.empty(), "a divisor that should not exist");
          if (what == 1 && !t.f->isTree && !t.f->sort)
            PCHECK(pos < t.ids.size() && t.ids[pos] == e->id, "findDivisorIterator points to the wrong position");
        }
      } else {
        std::set<int> seen;
        bool stopped = false;
        const char* name = what == 2 ? "findAllDivisors" : "findAllMultiples";
        Visit v = [&](const Ent& e) {
          PCHECK(!stopped, t.f->name() << ": " << name << " went on after the callback asked to stop");
          t.checkEntry(e, name);
          PCHECK(what == 2 ? c.divides(e.mono, m) : c.divides(m, e.mono), t.f->name() << ": " << name << " of "
            << c.text(m) << " reports #" << e.id << " " << c.text(e.mono));
          PCHECK(seen.insert(e.id).second, name << " reports entry #" << e.id << " twice");
          if (seen.size() >= stopAfter) {stopped = true; return false;}
          return true;
        };
        if (what == 2) t.f->findAllDivisors(m, v, asConst);
        else t.f->findAllMultiples(m, v, asConst);
        const size_t want = std::min(expect.size(), stopAfter);
        PCHECK(seen.size() == want, t.f->name() << ": " << name << " of " << c.text(m) << " reports " << seen.size()
          << " entries, " << want << " expected");
        if (!expect.empty()) ++divHits; else ++divMisses;
      }
    }
  }

  void Driver::feed(int m) {
    fed.push_back(m);
    const int id = newId(m);
    for (size_t i = 0; i < suts.size(); ++i) {
      Sut& t = *suts[i];
      const Ent* d = t.f->findDivisor(m, draw(2) == 1);
      if (d != 0) continue;
      std::vector<int> out;
      const bool useOut = draw(2) == 1;
      const bool any = t.f->removeMultiples(m, useOut ? &out : 0);
      if (useOut) PCHECK(any == !out.empty(), "removeMultiples reports " << any << " but removed " << out.size());
      t.f->insert(Ent(m, id));
    }
  }

  void Driver::checkMinimal(bool full) {
    std::vector<int> mins;
    for (size_t a = 0; a < fed.size() && full; ++a) {
      bool keep = true;
      for (size_t b = 0; b < fed.size() && keep; ++b)
        if (b != a && c.divides(fed[b], fed[a]) && (!c.divides(fed[a], fed[b]) || b < a)) keep = false;
      if (keep) mins.push_back(fed[a]);
    }
    for (size_t i = 0; i < suts.size(); ++i) {
      Sut& t = *suts[i];
      t.ids.clear();
      std::vector<int> left;
      t.f->forAll([&](const Ent& e) {
        e.check("forAll");
        left.push_back(e.mono);
        t.ids.push_back(e.id);
        return true;
      }, true);
      t.checkSizes("feeding");
      maxSize = std::max(maxSize, t.ids.size());
      if (!full) continue;
      PCHECK(left.size() == mins.size(), t.f->name() << " contains " << left.size() << " generators, "
        << mins.size() << " are minimal");
      for (size_t k = 0; k < mins.size(); ++k) {
        size_t n = 0;
        for (size_t j = 0; j < left.size(); ++j) if (c.equal(left[j], mins[k])) ++n;
        PCHECK(n == 1, t.f->name() << " contains the minimal generator " << c.text(mins[k]) << " " << n << " times");
      }
    }
  }

  /// Runs f with some allocations or callbacks that succeed before one fails;
  /// negative: all do.
  template<class F> bool Driver::attempt(long long allocs, int callbacks, long long calls, F f) {
    const long long failed = alloc::failed;
    bool oom = false, boom = false, refusal = false;
    c.canFail = callbacks; c.failIn = callbacks ? calls : -1;
    alloc::failIn = allocs;
    try {f();}
    catch (const std::bad_alloc&) {oom = true;}
    catch (const Ctx::Boom&) {boom = true;}
    catch (const std::logic_error&) {refusal = true;}
    catch (...) {alloc::failIn = -1; c.failIn = -1; c.canFail = 0; throw;}
    alloc::failIn = -1; c.failIn = -1; c.canFail = 0;
    if (oom) {PLOG(s, "  out of memory"); ++failures[0];}
    if (boom) {PLOG(s, "  a callback threw"); ++failures[1];}
    if (refusal) {PLOG(s, "  refused"); ++failures[2];}
    PCHECK(!oom || alloc::failed > failed, "out of memory without having asked for any");
    if (failures[0] + failures[1] + failures[2]) ++workAfter;
    return !oom && !boom && !refusal;
  }

  /// What is contained, where each of the added ones may or may not be.
  void Driver::learn(Sut& t, const std::vector<int>& added, const char* after) {
    std::vector<int> now = t.listing("forAll");
    std::map<int, int> state; // 1 must be there, 2 may be there
    for (size_t i = 0; i < t.ids.size(); ++i) state[t.ids[i]] = 1;
    for (size_t i = 0; i < added.size(); ++i) state[added[i]] = 2;
    size_t kept = 0;
    for (size_t i = 0; i < now.size(); ++i) {
      int& st = state[now[i]];
      PCHECK(st != 0, t.f->name() << ": entry #" << now[i] << " is visited which is not contained or was visited already, after " << after);
      if (st == 1) ++kept;
      st = 0;
    }
    PCHECK(kept == t.ids.size(), t.f->name() << ": " << t.ids.size() - kept << " of " << t.ids.size() << " entries are lost by " << after);
    PCHECK(now.size() <= t.ids.size() + added.size(), "too many entries after " << after);
    if (!t.f->isTree && !t.f->sort)
      for (size_t i = 0; i < t.ids.size(); ++i)
        PCHECK(now[i] == t.ids[i], "the order of the list changed by " << after);
    t.ids.swap(now);
    t.checkAll(after);
    if (!t.f->isTree) t.checkOrder(static_cast<int>(s.draw(8)), after);
  }

  // One operation that may fail.
  void Driver::faulty(Sut& t) {
    IFinder& f = *t.f;
    const long long in = static_cast<long long>(s.flag(2, 3) ? s.small(6) : s.draw(3 + 3 * t.ids.size()));
    const int m = genMono();
    const int all = Ctx::Divides | Ctx::Exponents | Ctx::Order;
    switch (s.weighted({6, 3, 3, 3, 2, 3, 2, 2, 1})) {
    case 0: case 1: { // read only
      const size_t how = s.draw(3), what = s.draw(5), stop = s.flag(1, 3) ? s.draw(5) : ~size_t(0);
      const bool asConst = s.flag();
      const bool throwing = how == 2;
      PLOG(s, "query " << what << " " << c.text(m) << (how == 0 ? " where a callback" : how == 1 ? " where an allocation" : " where the receiver") << " fails after " << in);
      size_t n = 0;
      struct State {size_t& n; size_t stop, in; bool throwing;} st = {n, stop, static_cast<size_t>(in), throwing};
      State* sp = &st;
      Visit v = [sp](const Ent& e) {
        e.check("visited");
        ++sp->n;
        if (sp->throwing && sp->n > sp->in) throw Ctx::Boom();
        return sp->n < sp->stop;
      };
      attempt(how == 1 ? in : -1, how == 0 ? all : 0, in, [&]() {
        size_t pos;
        if (what == 0 && f.isTree) f.findDivisor(m, asConst);
        else if (what == 0) f.findDivisorIterator(m, pos);
        else if (what == 1) f.findDivisor(m, asConst);
        else if (what == 2) f.findAllDivisors(m, v, asConst);
        else if (what == 3) f.findAllMultiples(m, v, asConst);
        else f.forAll(v, asConst);
      });
      if (s.flag()) t.checkAll("a query that may have failed");
      break;
    }
    case 2: {
      const int id = newId(m);
      PLOG(s, "insert #" << id << " " << c.text(m) << " with " << in << " allocations");
      Ent e(m, id);
      const bool doubtful = f.isTree && t.multiplicity(m) >= f.leafSize;
      const size_t refusals = failures[2];
      if (attempt(in, 0, -1, [&]() {f.insert(e);})) t.ids.push_back(id);
      else {
        PCHECK(doubtful || failures[2] == refusals, "an entry that fits is refused");
        learn(t, std::vector<int>(failures[2] == refusals ? 1 : 0, id), "an insertion that failed");
      }
      break;
    }
    case 3: {
      std::vector<Ent> v;
      std::vector<int> ids;
      const bool overfill = s.flag(1, 3);
      if (f.isTree && t.f->size() > 0 && s.flag()) {f.clear(); t.ids.clear();} // so that it is built as a whole
      for (size_t n = s.draw(4) == 3 ? s.draw(70) : s.draw(10); n > 0; --n) {
        const int k = genMono();
        for (size_t rep = overfill && s.flag(1, 3) ? 1 + s.draw(10) : 1; rep > 0; --rep) {
          size_t mult = t.multiplicity(k);
          for (size_t j = 0; j < v.size(); ++j) if (c.equal(v[j].mono, k)) ++mult;
          if (f.isTree && !overfill && mult >= f.leafSize) continue;
          const int id = newId(k);
          v.push_back(Ent(k, id));
          ids.push_back(id);
          PLOG(s, "  #" << id << " " << c.text(k));
        }
      }
      const long long allocs = s.flag(2, 3) ? in : -1;
      PLOG(s, "insert range of " << v.size() << " with " << allocs << " allocations");
      const int how = static_cast<int>(s.draw(2));
      const size_t refusals = failures[2];
      if (attempt(allocs, 0, -1, [&]() {f.insertRange(v, how);})) {
        t.ids.insert(t.ids.end(), ids.begin(), ids.end());
        t.checkAll("inserting a range");
      } else {
        PCHECK((f.isTree && overfill) || failures[2] == refusals, "entries that fit are refused");
        std::vector<Ent>().swap(v);
        learn(t, ids, "a range insertion that failed");
      }
      break;
    }
    case 4: case 5: { // remove multiples
      if (!f.removals) break;
      std::vector<int> keep, gone, out;
      for (size_t k = 0; k < t.ids.size(); ++k)
        (c.divides(m, t.mono(t.ids[k])) ? gone : keep).push_back(t.ids[k]);
      out.reserve(t.ids.size() + 1);
      const size_t how = s.draw(3);
      if (how == 2) {std::vector<int> o; o.reserve(std::min(static_cast<size_t>(in), gone.size())); out.swap(o);}
      PLOG(s, "remove multiples of " << c.text(m) << (how == 0 ? " where divides" : how == 1 ? " where an allocation" : " where the receiver") << " fails after " << in);
      bool any = false;
      if (attempt(how == 1 ? in : -1, how == 0 ? Ctx::Divides : how == 2 ? Ctx::Receiver : 0, in, [&]() {any = f.removeMultiples(m, &out);})) {
        PCHECK(any == !gone.empty(), f.name() << ": removeMultiples returns " << any << " with " << gone.size() << " multiples");
        PCHECK(out.size() == gone.size(), f.name() << ": removeMultiples reports " << out.size() << " of " << gone.size() << " multiples");
      }
      std::set<int> reported(out.begin(), out.end());
      PCHECK(reported.size() == out.size(), "an entry is reported as removed twice");
      for (size_t k = 0; k < out.size(); ++k)
        PCHECK(std::find(gone.begin(), gone.end(), out[k]) != gone.end(), "entry #" << out[k] << " is reported as removed but not a multiple");
      std::vector<int> left;
      for (size_t k = 0; k < t.ids.size(); ++k) if (!reported.count(t.ids[k])) left.push_back(t.ids[k]);
      t.ids.swap(left);
      removedTotal += out.size();
      t.checkAll("removing multiples, which may have failed");
      if (!f.isTree) t.checkOrder(static_cast<int>(s.draw(8)), "removing multiples, which may have failed");
      break;
    }
    case 6: {
      if (!f.removals) break;
      const size_t mult = t.multiplicity(m);
      PLOG(s, "remove element " << c.text(m) << " with " << in << " exponents");
      bool any = false;
      // a removal that triggers a rebuild gets all exponents
      const bool may = mult == 0 || !f.isTree;
      if (attempt(-1, may ? Ctx::Exponents : 0, in, [&]() {any = f.removeElement(m);})) {
        PCHECK(any == (mult > 0), "removeElement returns " << any << " with " << mult << " such entries");
        if (any) {
          std::vector<int> now = t.listing("forAll");
          PCHECK(now.size() + 1 == t.ids.size(), "removeElement removes " << t.ids.size() - now.size() << " entries");
          std::vector<int> sorted(now);
          std::sort(sorted.begin(), sorted.end());
          for (size_t k = 0; k < t.ids.size(); ++k) if (!std::binary_search(sorted.begin(), sorted.end(), t.ids[k]))
            PCHECK(c.equal(t.mono(t.ids[k]), m), "removeElement removed the wrong entry");
          std::vector<int> left;
          for (size_t k = 0; k < t.ids.size(); ++k) if (std::binary_search(sorted.begin(), sorted.end(), t.ids[k])) left.push_back(t.ids[k]);
          t.ids.swap(left);
          ++removedTotal;
        }
      }
      t.checkAll("removing an element, which may have failed");
      break;
    }
    case 7: {
      PLOG(s, "rebuild with " << in << " allocations");
      ++rebuilds;
      if (!attempt(in, 0, -1, [&]() {f.rebuild();})) learn(t, std::vector<int>(), "a rebuild that failed");
      else t.checkAll("rebuild");
      break;
    }
    default: {
      if (!f.isTree) break;
      PLOG(s, "clear without memory");
      const bool done = attempt(0, 0, -1, [&]() {f.clear();});
      PCHECK(done, "clear() needs memory");
      t.ids.clear();
      t.checkAll("clear");
    }
    }
    t.checkSizes("an operation that may have failed");
  }

  // Thousands of entries.
  void Driver::bulkPhase(bool minimal, bool canRemove) {
    pbt::Bulk r(s.draw(1u << 30));
    bool allTree = true;
    for (size_t i = 0; i < suts.size(); ++i) allTree = allTree && suts[i]->f->isTree;
    const bool giant = !minimal && FOCUS >= 11 && FOCUS <= 14 && c.varCount < 9 && s.draw(6) == 5; // beyond 16 bits
    const size_t n = minimal ? 200 + s.draw(3000) : giant ? (allTree ? 200 : 30) + s.draw(30) : 500 + s.draw(allTree ? 10000 : 2500);
    const size_t wRange = s.draw(3), wRemove = s.draw(3);
    PLOG(s, "bulk of " << n << " ranges " << wRange << " removals " << wRemove);
    rng = &r;
    std::map<std::vector<Exp>, size_t> mult;
    size_t limit = ~size_t(0);
    for (size_t i = 0; i < suts.size(); ++i) if (suts[i]->f->isTree) limit = std::min(limit, suts[i]->f->leafSize);
    for (size_t step = 0; step < n; ++step) {
      if (minimal) {feed(genMono()); continue;}
      const size_t queries = suts[0]->ids.size() > 2000 ? 80 : 20;
      if (r(queries) == 0 && !(giant && step == 0)) doQuery(genMono(), static_cast<int>(r(4)), r(3) == 0 ? 1 + r(4) : ~size_t(0), r(2) == 0);
      else if (wRemove > 0 && !(giant && step == 0) && r(wRemove == 1 ? 1000 : 100) == 0) {
        const int m = genMono();
        if (!canRemove) continue;
        for (size_t i = 0; i < suts.size(); ++i) {
          Sut& t = *suts[i];
          std::vector<int> keep, gone, out;
          for (size_t k = 0; k < t.ids.size(); ++k)
            (c.divides(m, t.mono(t.ids[k])) ? gone : keep).push_back(t.ids[k]);
          const bool any = t.f->removeMultiples(m, &out);
          PCHECK(any == !gone.empty(), t.f->name() << ": removeMultiples of " << c.text(m) << " returns " << any
            << " but " << gone.size() << " entries are multiples");
          std::sort(out.begin(), out.end());
          std::sort(gone.begin(), gone.end());
          PCHECK(out == gone, t.f->name() << ": removeMultiples of " << c.text(m) << " reports " << out.size()
            << " removed entries, not exactly the " << gone.size() << " multiples");
          t.ids.swap(keep);
          removedTotal += gone.size();
          t.checkSizes("removing multiples");
          if (i == 0) for (size_t k = 0; k < gone.size(); ++k) --mult[c.monos[t.mono(gone[k])]];
        }
      } else {
        const size_t many = giant && step == 0 ? 90000 + r(1000) : wRange > 0 && r(wRange == 1 ? 500 : 50) == 0 ? r(500) : 1;
        std::vector<Ent> v;
        std::vector<int> ids;
        for (size_t k = 0; k < many; ++k) {
          const int m = genMono();
          size_t& count = mult[c.monos[m]];
          if (count >= limit) continue;
          ++count;
          const int id = newId(m);
          v.push_back(Ent(m, id));
          ids.push_back(id);
        }
        for (size_t i = 0; i < suts.size(); ++i) {
          Sut& t = *suts[i];
          if (many == 1 && !v.empty()) t.f->insert(v.front());
          else if (many != 1) {std::vector<Ent> copy(v); t.f->insertRange(copy, static_cast<int>(step % 3));}
          t.ids.insert(t.ids.end(), ids.begin(), ids.end());
          t.checkSizes("inserting");
          maxSize = std::max(maxSize, t.ids.size());
        }
      }
    }
    if (!minimal) for (size_t i = 0; i < suts.size(); ++i) suts[i]->checkAll("the bulk");
    for (size_t k = 0; k < 16 && !minimal; ++k) doQuery(genMono(), static_cast<int>(k % 4), ~size_t(0), r(2) == 0);
    rng = 0;
    if (minimal) checkMinimal(true);
    lifetimes("the bulk");
  }

  void Driver::body() {
    gCtx = &c;
    c.live = 0;
    maxSize = divHits = divMisses = removedTotal = 0;
    std::vector<size_t> eligible;
    for (size_t i = 0; i < kinds().size(); ++i) {
      const Kind& k = kinds()[i];
      if ((FOCUS == 11 || FOCUS == 12) && k.tree) continue;
      if ((FOCUS == 13 || FOCUS == 14) && !k.tree) continue;
      if (FOCUS == 17 && !k.removals) continue;
      eligible.push_back(i);
    }
    size_t many = 1;
    if (FOCUS == 15) many = 2 + s.draw(3);
    if (FOCUS == 17) many = 1 + s.draw(3);
    static const size_t varCounts[] = {1, 2, 3, 4, 2, 3, 5, 8, 16, 31, 32, 33, 40, 64, 70};
    static const size_t hugeVars[] = {3, 2, 4, 5, 8, 12, 33, 3, 300};
    c.varCount = pbt::huge ? hugeVars[s.draw(FOCUS == 13 || FOCUS == 14 ? 9 : 8)] : varCounts[s.small(15)];
    c.orderKind = static_cast<int>(s.draw(2));
    for (size_t v = 0; v < c.varCount; ++v) c.perm.push_back(v);
    if (s.draw(2) == 1) for (size_t v = c.varCount; v > 1; --v) std::swap(c.perm[v - 1], c.perm[s.draw(v)]);
    bound = ~Exp(0);
    bool allTree = true, anyNoRemovals = false;
    size_t minLeaf = ~size_t(0);
    std::vector<std::pair<size_t, Opts> > chosen;
    for (size_t i = 0; i < many; ++i) {
      const size_t k = eligible[s.draw(eligible.size())];
      Opts o;
      o.sort = s.flag();
      o.cache = s.flag();
      o.autoRebuild = s.flag();
      static const double ratios[] = {0.5, 0.1, 1.0, 3.0, 0.0};
      static const size_t mins[] = {5, 1, 20, 0, 100};
      o.ratio = ratios[s.draw(5)];
      o.minRebuild = mins[s.draw(5)];
      if (pbt::huge && o.ratio < 0.1) o.ratio = 0.2; // rebuilding at every change would be quadratic
      if (pbt::huge && o.minRebuild < 20) o.minRebuild = 20;
      chosen.push_back(std::make_pair(k, o));
      bound = std::min(bound, kinds()[k].maxExp);
    }
    // which multiplicities the trees can take
    for (size_t i = 0; i < chosen.size(); ++i) {
      const Kind& k = kinds()[chosen[i].first];
      if (k.tree) minLeaf = std::min(minLeaf, k.leafSize);
      if (!k.removals) anyNoRemovals = true;
      allTree = allTree && k.tree;
    }
    if (s.draw(3) != 2) bound = std::min<Exp>(bound, 1000);
    expMode = static_cast<int>(pbt::huge ? 2 + s.draw(3) : s.draw(5));
    const bool oddVars = s.draw(3) == 2;
    if (c.varCount == 300) { // most variables do not occur
      const size_t first = s.draw(299), last = first + 1 + s.draw(3);
      for (size_t v = 0; v < c.varCount; ++v) varMode.push_back(v >= first && v <= last ? 0 : 1);
    } else
      for (size_t v = 0; v < c.varCount; ++v) varMode.push_back(oddVars ? static_cast<int>(s.draw(4)) : 0);
    for (size_t i = 0; i < chosen.size(); ++i) {
      const Kind& k = kinds()[chosen[i].first];
      suts.emplace_back(new Sut(c, monoOfId));
      suts.back()->f.reset(k.make(&c, chosen[i].second));
      const Opts& o = chosen[i].second;
      PLOG(s, "finder " << k.name << " (" << suts.back()->f->name() << ")" << (o.sort ? " sort" : "")
        << (o.cache ? " cache" : "") << (o.autoRebuild ? " auto" : "") << " ratio " << o.ratio << " min " << o.minRebuild
        << " vars " << c.varCount << " order " << c.orderKind);
      (k.tree ? anyTreeUsed : anyListUsed) = true;
    }
    // the exponents must fit the smallest type
    const bool anyTree = minLeaf != ~size_t(0);
    const bool canRemove = !anyNoRemovals;
    const unsigned wRemove = canRemove ? (FOCUS == 12 || FOCUS == 14 || FOCUS == 18 ? 4 : 2) : (FOCUS == 32 ? 0 : 1);
    const unsigned wQuery = FOCUS == 12 || FOCUS == 14 ? 2 : 5;
    const unsigned wGrow = 4 + 8 * static_cast<unsigned>(s.draw(3));
    const bool minimal = FOCUS == 17;
    refused = rebuilds = clears = bulk = 0;
    failures[0] = failures[1] = failures[2] = workAfter = 0;

    if (pbt::huge) bulkPhase(minimal, canRemove);
    const size_t longest = minimal && pbt::huge ? 20 : maxSize > 60000 ? 12 : pbt::huge ? 60 : FOCUS == 32 ? 120 : 320;
    for (pbt::List l(s, std::min<size_t>(18, longest), std::min<size_t>(90, longest), longest); l.next();) {
      const size_t op = minimal ? (s.draw(5) == 4 ? 5 + s.draw(4) : s.draw(8) == 7 ? 10 : 20) :
        s.weighted({wGrow * 2, 3, wRemove, wRemove, 2 * wQuery, wQuery, wQuery, wQuery, wQuery, 2, 2,
          !anyTree ? 2u : 0u, 1, allTree ? 1u : 0u, 1, 1, FOCUS == 34 ? wGrow * 2 : 0u});
      if (op == 20) { // minimal generators
        const int m = genMono();
        PLOG(s, "feed " << c.text(m));
        feed(m);
        // oracle: independent of the order
        const bool full = l.count() % 8 == 0 || l.count() <= (pbt::huge ? 1 : 12);
        checkMinimal(full);
        continue;
      }
      switch (op) {
      case 16: faulty(*suts[0]); break;
      case 0: { // insert one
        const int m = genMono();
        bool doubtful = false;
        for (size_t i = 0; i < suts.size(); ++i)
          if (suts[i]->f->isTree && suts[i]->multiplicity(m) >= suts[i]->f->leafSize) doubtful = true;
        if (doubtful && (FOCUS == 32 || suts.size() > 1)) break;
        const int id = newId(m);
        PLOG(s, "insert #" << id << " " << c.text(m));
        const bool byOwn = ownToo() && s.draw(8) == 7;
        for (size_t i = 0; i < suts.size(); ++i) {
          Sut& t = *suts[i];
          Ent e(m, id);
          bool in = true;
          if (byOwn && !doubtful && t.f->insertOwn(m, id)) {
            PLOG(s, "  by a reference to an entry");
            t.ids.push_back(id);
            t.checkSizes("insert");
            continue;
          }
          if (doubtful) {
            try {t.f->insert(e);} catch (const std::logic_error&) {in = false; ++refused; PLOG(s, "  refused");}
          } else
            t.f->insert(e);
          if (in) t.ids.push_back(id);
          t.checkSizes("insert");
          if (!in) t.checkAll("a refused insert");
        }
        break;
      }
      case 1: { // insert range
        const size_t n = s.draw(4) == 3 ? s.draw(70) : s.draw(8);
        std::vector<Ent> v;
        std::vector<int> ids;
        for (size_t i = 0; i < n; ++i) {
          const int m = genMono();
          bool fits = true;
          for (size_t k = 0; k < suts.size(); ++k) if (suts[k]->f->isTree) {
            size_t mult = suts[k]->multiplicity(m);
            for (size_t j = 0; j < v.size(); ++j) if (c.equal(v[j].mono, m)) ++mult;
            if (mult >= suts[k]->f->leafSize) fits = false;
          }
          if (!fits) continue;
          const int id = newId(m);
          v.push_back(Ent(m, id));
          ids.push_back(id);
          PLOG(s, "  #" << id << " " << c.text(m));
        }
        const int how = static_cast<int>(s.draw(3));
        PLOG(s, "insert range of " << v.size());
        if (v.size() > 1) ++bulk;
        for (size_t i = 0; i < suts.size(); ++i) {
          Sut& t = *suts[i];
          std::vector<Ent> copy(v);
          t.f->insertRange(copy, how);
          t.ids.insert(t.ids.end(), ids.begin(), ids.end());
          t.checkAll("inserting a range", s.flag());
        }
        break;
      }
      case 2: { // remove multiples
        const int m = genMono();
        const bool useOut = s.flag(2, 3);
        PLOG(s, "remove multiples of " << c.text(m));
        for (size_t i = 0; i < suts.size(); ++i) {
          Sut& t = *suts[i];
          if (!t.f->removals) {
            bool refusedIt = false;
            std::vector<int> out;
            try {t.f->removeMultiples(m, useOut ? &out : 0);} catch (const std::logic_error&) {refusedIt = true;}
            PCHECK(refusedIt, t.f->name() << ": a removal request is not refused");
            t.checkAll("a refused removal");
            continue;
          }
          std::vector<int> keep, gone, out;
          for (size_t k = 0; k < t.ids.size(); ++k)
            (c.divides(m, t.mono(t.ids[k])) ? gone : keep).push_back(t.ids[k]);
          const bool any = t.f->removeMultiples(m, useOut ? &out : 0);
          PCHECK(any == !gone.empty(), t.f->name() << ": removeMultiples of " << c.text(m) << " returns " << any
            << " but " << gone.size() << " entries are multiples");
          if (useOut) {
            std::sort(out.begin(), out.end());
            std::vector<int> want(gone);
            std::sort(want.begin(), want.end());
            PCHECK(out == want, t.f->name() << ": removeMultiples of " << c.text(m) << " reports " << out.size()
              << " removed entries, not exactly the " << want.size() << " multiples");
          }
          t.ids.swap(keep);
          removedTotal += gone.size();
          t.checkAll("removing multiples");
        }
        break;
      }
      case 3: { // remove element
        const int m = genMono();
        const bool byOwn = ownToo() && s.draw(4) == 3;
        PLOG(s, "remove element " << c.text(m) << (byOwn ? " by a reference to an entry" : ""));
        for (size_t i = 0; i < suts.size(); ++i) {
          Sut& t = *suts[i];
          Own own(*t.f, byOwn);
          if (!t.f->removals) {
            bool refusedIt = false;
            try {t.f->removeElement(m);} catch (const std::logic_error&) {refusedIt = true;}
            PCHECK(refusedIt, t.f->name() << ": a removal request is not refused");
            t.checkAll("a refused removal");
            continue;
          }
          const size_t mult = t.multiplicity(m);
          const bool any = t.f->removeElement(m);
          PCHECK(any == (mult > 0), t.f->name() << ": removeElement of " << c.text(m) << " returns " << any
            << " where " << mult << " such entries are contained");
          if (any) {
            std::vector<int> now = t.listing("removeElement");
            std::sort(now.begin(), now.end());
            std::vector<int> keep;
            size_t gone = 0;
            for (size_t k = 0; k < t.ids.size(); ++k) {
              if (std::binary_search(now.begin(), now.end(), t.ids[k])) keep.push_back(t.ids[k]);
              else {
                ++gone;
                PCHECK(c.equal(t.mono(t.ids[k]), m), t.f->name() << ": removeElement of " << c.text(m)
                  << " removed entry #" << t.ids[k] << " " << c.text(t.mono(t.ids[k])));
              }
            }
            PCHECK(gone == 1, t.f->name() << ": removeElement of " << c.text(m) << " removed " << gone << " entries");
            t.ids.swap(keep);
            ++removedTotal;
          }
          t.checkAll("removing an element");
        }
        break;
      }
      case 4: case 5: case 6: case 7: case 8: {
        const int m = genMono();
        const int what = op == 4 ? 0 : static_cast<int>(op) - 5;
        const size_t stop = what >= 2 && s.draw(3) == 2 ? 1 + s.draw(4) : ~size_t(0);
        const bool byOwn = ownToo() && s.draw(8) == 7;
        PLOG(s, "query " << what << " " << c.text(m) << (byOwn ? " by a reference to an entry" : ""));
        for (size_t i = 0; i < suts.size(); ++i) suts[i]->f->useOwn = byOwn;
        doQuery(m, what, stop, s.flag());
        for (size_t i = 0; i < suts.size(); ++i) suts[i]->f->useOwn = false;
        break;
      }
      case 9: { // enumerate, maybe stop
        const size_t stop = s.draw(2) ? 1 + s.draw(4) : ~size_t(0);
        const bool asConst = s.flag();
        PLOG(s, "forAll");
        for (size_t i = 0; i < suts.size(); ++i) {
          Sut& t = *suts[i];
          size_t n = 0;
          bool stopped = false;
          std::set<int> seen;
          t.sync();
          t.f->forAll([&](const Ent& e) {
            PCHECK(!stopped, t.f->name() << ": forAll went on after the callback asked to stop");
            t.checkEntry(e, "forAll");
            PCHECK(seen.insert(e.id).second, "forAll visits entry #" << e.id << " twice");
            if (++n >= stop) {stopped = true; return false;}
            return true;
          }, asConst);
          PCHECK(n == std::min(stop, t.ids.size()), t.f->name() << ": forAll visits " << n << " of " << t.ids.size() << " entries");
        }
        break;
      }
      case 10: { // rebuild one of them
        const size_t i = s.draw(suts.size());
        PLOG(s, "rebuild finder " << i);
        suts[i]->f->rebuild();
        ++rebuilds;
        suts[i]->checkAll("rebuild");
        break;
      }
      case 11: { // move to front
        for (size_t i = 0; i < suts.size(); ++i) {
          Sut& t = *suts[i];
          if (t.ids.empty() || t.f->sort || t.f->isTree) continue;
          const size_t pos = s.draw(t.ids.size());
          PLOG(s, "move position " << pos << " to front");
          t.f->moveToFront(pos);
          const int id = t.ids[pos];
          t.ids.erase(t.ids.begin() + pos);
          t.ids.insert(t.ids.begin(), id);
          t.checkOrder(static_cast<int>(s.draw(8)), "moving an entry to the front");
        }
        break;
      }
      case 12: { // change all entries in a way that is allowed
        const int by = 1 + static_cast<int>(s.draw(3));
        PLOG(s, "mark by " << by);
        for (size_t i = 0; i < suts.size(); ++i) {
          Sut& t = *suts[i];
          t.f->markAll(by);
          t.marks.resize(monoOfId.size());
          for (size_t k = 0; k < t.ids.size(); ++k) t.marks[t.ids[k]] += by;
        }
        break;
      }
      case 13:
        if (s.draw(3) != 2) break;
        PLOG(s, "clear");
        ++clears;
        for (size_t i = 0; i < suts.size(); ++i) {
          suts[i]->f->clear();
          suts[i]->ids.clear();
          suts[i]->checkAll("clear");
        }
        break;
      case 14: { // many queries on one finder only: they must not matter
        const size_t i = s.draw(suts.size());
        const size_t n = 1 + s.draw(6);
        for (size_t k = 0; k < n; ++k) {
          const int m = genMono();
          suts[i]->f->findDivisor(m, s.flag());
          if (s.draw(3) == 2) {size_t seen = 0; suts[i]->f->findAllDivisors(m, [&](const Ent&) {return ++seen < 2;}, false);}
          if (s.draw(3) == 2) {size_t seen = 0; suts[i]->f->findAllMultiples(m, [&](const Ent&) {return ++seen < 2;}, false);}
        }
        break;
      }
      case 15: {
        for (size_t i = 0; i < suts.size(); ++i) {
          Sut& t = *suts[i];
          if (!t.f->isTree) t.checkOrder(static_cast<int>(s.draw(8)), "the history");
          else t.checkAll("the history", false);
        }
        break;
      }
      }
      if (!minimal) for (size_t i = 0; i < suts.size(); ++i) {
        PCHECK(suts[i]->f->size() == suts[i]->ids.size(), "size() is " << suts[i]->f->size() << " but "
          << suts[i]->ids.size() << " entries are contained");
        maxSize = std::max(maxSize, suts[i]->ids.size());
      }
      lifetimes("an operation");
    }
    for (size_t i = 0; i < suts.size(); ++i) {
      Sut& t = *suts[i];
      t.checkAll("the history");
      if (!t.f->isTree && !minimal) t.checkOrder(static_cast<int>(s.draw(8)), "the history");
    }
    ownUsed = 0;
    for (size_t i = 0; i < suts.size(); ++i) ownUsed += suts[i]->f->ownUsed;
    if (FOCUS == 34) alloc::failIn = 0; // destroying needs no memory
    suts.clear();
    alloc::failIn = -1;
    lifetimes("destroying the finders");
    fedCount = fed.size();
    std::vector<int>().swap(fed);
  }

  void Driver::run() {
    { // the arena grows to this size once, so that it does not look like a leak
      memt::Arena& arena = memt::Arena::getArena();
      arena.freeTop(arena.alloc(pbt::huge ? 1 << 24 : 1 << 20));
    }
    const long long before = alloc::liveBytes;
    anyTreeUsed = anyListUsed = false;
    ownUsed = 0;
    body();
    std::vector<int>().swap(monoOfId);
    std::vector<int>().swap(varMode);
    std::vector<std::unique_ptr<Sut> >().swap(suts);
    const size_t varCount = c.varCount;
    c.release();
    const long long after = alloc::liveBytes;
    PCHECK(after == before, (after - before) << " bytes are still allocated after the finders were destroyed");
    s.labelIf(anyTreeUsed, "tree");
    s.labelIf(anyListUsed, "list");
    s.labelIf(ownUsed > 0, "arguments that are contained entries");
    s.labelIf(refused > 0, "insert refused");
    s.labelIf(rebuilds > 0, "rebuilt");
    s.labelIf(clears > 0, "cleared");
    s.labelIf(bulk > 0, "bulk insert");
    s.labelIf(removedTotal > 0, "entries removed");
    s.labelIf(maxSize >= 20, "20 entries or more");
    s.labelIf(maxSize > 1000, "more than 1000 entries");
    s.labelIf(maxSize > 5000, "more than 5000 entries");
    s.labelIf(varCount > 32, "more variables than mask bits");
    s.labelIf(FOCUS == 34 && failures[0] > 0, "ran out of memory");
    s.labelIf(FOCUS == 34 && failures[1] > 0, "a callback threw");
    if (FOCUS == 34) {
      if (failures[0] + failures[1] + failures[2] > 0 && maxSize >= 3 && workAfter >= 3) s.nontrivial();
    } else if (FOCUS == 12 || FOCUS == 14 || FOCUS == 18) {
      if (maxSize >= 3 && (removedTotal >= 1 || clears >= 1 || rebuilds >= 1)) s.nontrivial();
    } else if (FOCUS == 17) {
      if (maxSize >= 2 && fedCount >= 4) s.nontrivial();
    } else if (maxSize >= 3 && divHits >= 1 && divMisses >= 1) s.nontrivial();
  }

  static void prop(pbt::Src& s) {
    {Driver d(s); d.run();}
    gCtx = 0;
  }
}
PBT_VARIANT("finder", 1, fh::prop);
