// Different instances are used by different threads at the same time.
#include "machines.h"
#include <thread>
#include <atomic>

namespace alloc {
  PER_THREAD long long liveBytes = 0, liveBlocks = 0, totalBytes = 0, peakBytes = 0;
  PER_THREAD long long failIn = -1, failed = 0;
  int fill = -1;
}
namespace {
  typedef std::function<Machine*(pbt::Bulk&)> Make;
  template<class T> Machine* make(pbt::Bulk& r) {return new T(r);}

  /// What one thread does, from making the structure to destroying it.
  struct Job {
    Make make; uint64_t seed; std::vector<Op> ops;
    std::vector<std::string> seen;
    std::string error; bool bad;
    Job(): seed(0), bad(false) {}
    void run(bool verify) {
      fh::Ctx lifetimes;
      fh::gCtx = &lifetimes;
      current = 0;
      try {
        pbt::Bulk r(seed);
        std::unique_ptr<Machine> m(make(r));
        for (size_t i = 0; i < ops.size(); ++i) {
          Seen s;
          m->step(ops[i], s);
          if (i % 4 == 0 || i + 1 == ops.size()) m->probe(s);
          s << static_cast<long long>(m->calls);
          if (!verify) seen.push_back(s.text);
          else if (s.text != seen[i]) {
            error = "operation " + std::to_string(i + 1) + " (kind " + std::to_string(ops[i].kind) + ") gives \"" + s.text
              + "\" while other threads use other instances, and \"" + seen[i] + "\" when there are none";
            break;
          }
        }
      } catch (const pbt::Fail& f) {error = f.msg; bad = true;}
      catch (const std::exception& e) {error = std::string("an exception is thrown: ") + e.what(); bad = true;}
      fh::gCtx = 0;
    }
  };

  void threads(pbt::Src& s, std::vector<Make> makers) {
    const size_t n = 2 + s.draw(3);
    std::vector<Job> jobs(n);
    std::vector<Op> ops;
    for (pbt::List l(s, 25, 80, 250); l.next();) {
      Op op;
      op.kind = static_cast<unsigned>(s.draw(48)); op.a = s.draw(1u << 24); op.b = s.draw(1u << 30);
      ops.push_back(op);
    }
    for (size_t i = 0; i < n; ++i) {
      Job& j = jobs[i];
      j.make = makers[i % makers.size()];
      j.seed = s.draw(1u << 30);
      j.ops = ops;
      if (i > 0 && !ops.empty()) switch (s.draw(3)) { // the same, from another place on, or others
      case 0: break;
      case 1: std::rotate(j.ops.begin(), j.ops.begin() + s.draw(ops.size()), j.ops.end()); break;
      default: {pbt::Bulk r(j.seed); for (auto& op: j.ops) {op.kind = static_cast<unsigned>(r(48)); op.a = r(1u << 24); op.b = r(1u << 30);}}
      }
      PLOG(s, "thread " << i << " with " << j.ops.size() << " operations, seed " << j.seed);
      j.run(false);
      if (j.bad) throw pbt::Fail("alone: " + j.error);
    }
    std::atomic<size_t> ready(0);
    std::vector<std::thread> ts;
    for (size_t i = 0; i < n; ++i) ts.emplace_back([&jobs, &ready, i, n]() {
      ++ready;
      while (ready < n) std::this_thread::yield();
      jobs[i].run(true);
    });
    for (auto& t: ts) t.join();
    for (size_t i = 0; i < n; ++i) PCHECK(jobs[i].error.empty(), "thread " << i << ": " << jobs[i].error);
    s.labelIf(n > 2, "more than two threads");
    if (ops.size() >= 10) s.nontrivial();
  }
  template<class T> void same(pbt::Src& s) {threads(s, {make<T>});}
  void finders(pbt::Src& s) {
    std::vector<Make> m;
    for (size_t i = 0; i < 2; ++i) {
      const fh::Kind& k = fh::kinds()[s.draw(fh::kinds().size())];
      PLOG(s, k.name);
      m.push_back([&k](pbt::Bulk& r) {return new FindMachine(k, r);});
      if (s.draw(4) != 3) break; // all of one kind
    }
    threads(s, m);
  }
}
#define HV(D) \
  PBT_VARIANT("heap " #D, 2, (same<QueueMachine<mathic::Heap<TConf<D, false> >, TConf<D, false>, D> >)); \
  PBT_VARIANT("fast heap " #D, 1, (same<QueueMachine<mathic::Heap<TConf<D, true> >, TConf<D, true>, D> >)); \
  PBT_VARIANT("tournament tree " #D, 2, (same<QueueMachine<mathic::TourTree<TConf<D, false> >, TConf<D, false>, D> >)); \
  PBT_VARIANT("fast tournament tree " #D, 1, (same<QueueMachine<mathic::TourTree<TConf<D, true> >, TConf<D, true>, D> >)); \
  PBT_VARIANT("set " #D, 1, (same<QueueMachine<mathic::StlSet<QConf<D> >, QConf<D>, D> >))
HV(false);
HV(true);
#define GV(D, B) PBT_VARIANT("geobucket " #D " " #B, 2, (same<QueueMachine<mathic::Geobucket<GConf<D, B> >, GConf<D, B>, D> >))
GV(false, 0); GV(true, 1); GV(false, 14); GV(true, 16); GV(false, 17); GV(true, 27); GV(false, 32); GV(true, 33); GV(false, 47); GV(true, 47); GV(true, 10); GV(false, 21);
PBT_VARIANT("pair queue", 5, same<PairMachine<true> >);
PBT_VARIANT("pair queue without retirement", 2, same<PairMachine<false> >);
PBT_VARIANT("finders", 24, finders);
PBT_VARIANT("masks", 4, same<MaskMachine>);
PBT_VARIANT("hash table", 4, same<HashMachine>);
PBT_VARIANT("bit triangle", 2, same<BitMachine>);
PBT_VARIANT("column printer", 6, same<TextMachine>);
PBT_VARIANT("command line", 6, same<CliMachine>);
