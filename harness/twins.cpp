// The same history gives the same results: from a structure that is alone
// and from one that is used in turns with another one, which is used also
// while callbacks of the first one run.
#include "machines.h"

namespace {
  typedef std::function<Machine*(pbt::Bulk&)> Make;
  template<class T> Machine* make(pbt::Bulk& r) {return new T(r);}
  fh::Ctx lifetimes;

  void twins(pbt::Src& s, Make makeIt, Make makeOther) {
    fh::gCtx = &lifetimes;
    current = 0;
    const uint64_t seed = s.draw(1u << 30), noiseSeed = s.draw(1u << 30);
    std::vector<Op> ops;
    for (pbt::List l(s, 25, 80, 250); l.next();) {
      Op op;
      op.kind = static_cast<unsigned>(s.draw(48)); op.a = s.draw(1u << 24); op.b = s.draw(1u << 30);
      ops.push_back(op);
    }
    static const unsigned between[] = {2, 1, 6, 0}, inside[] = {40, 8, 200, 0};
    const unsigned every = between[s.draw(4)], within = inside[s.draw(4)], renew = static_cast<unsigned>(s.draw(3));
    const int fills[] = {0xa5, 0xff, 0x00};
    const int fill = fills[s.draw(3)];
    auto run = [&](Machine& m, size_t i, bool last) {
      Seen seen;
      m.step(ops[i], seen);
      if (i % 4 == 0 || last) m.probe(seen);
      seen << static_cast<long long>(m.calls);
      return seen.text;
    };
    struct Unfill {~Unfill() {alloc::fill = -1;}} unfill;
    // alone
    std::vector<std::string> seen;
    {
      alloc::fill = 0;
      pbt::Bulk r(seed);
      std::unique_ptr<Machine> m(makeIt(r));
      for (size_t i = 0; i < ops.size(); ++i) seen.push_back(run(*m, i, i + 1 == ops.size()));
    }
    // in company
    size_t turns = 0, nested = 0;
    {
      alloc::fill = fill;
      pbt::Bulk r(seed), nr(noiseSeed);
      std::unique_ptr<Machine> noise(makeOther(nr));
      std::unique_ptr<Machine> m(makeIt(r));
      auto other = [&]() {
        if (renew > 0 && nr(20 * renew) == 0) {noise.reset(); noise.reset(makeOther(nr));}
        const Op op = {static_cast<unsigned>(nr(48)), nr(1u << 24), nr(1u << 30)};
        Seen ignored;
        noise->step(op, ignored);
      };
      size_t budget = 0;
      bool in = false;
      if (within > 0) m->hook = [&]() {
        if (in || budget == 0 || nr(within) != 0) return;
        in = true; --budget; ++nested;
        other();
        in = false;
      };
      for (size_t i = 0; i < ops.size(); ++i) {
        if (every > 0 && nr(every) == 0) for (size_t n = 1 + nr(4); n > 0; --n) {++turns; other();}
        budget = 6;
        const std::string now = run(*m, i, i + 1 == ops.size());
        PLOG(s, i << ": kind " << ops[i].kind << " gives " << now);
        PCHECK(now == seen[i], "operation " << i + 1 << " (kind " << ops[i].kind << ") gives \"" << now << "\" while another instance is in use, and \""
          << seen[i] << "\" when there is none");
      }
      m->hook = nullptr;
    }
    s.labelIf(nested > 0, "the other instance is used during callbacks");
    s.labelIf(turns > 0, "the other instance is used between operations");
    if (ops.size() >= 10 && turns + nested > 5) s.nontrivial();
  }
  template<class T> void same(pbt::Src& s) {twins(s, make<T>, make<T>);}
  void finders(pbt::Src& s) {
    const fh::Kind& k = fh::kinds()[s.draw(fh::kinds().size())];
    const fh::Kind& k2 = s.draw(4) == 3 ? fh::kinds()[s.draw(fh::kinds().size())] : k;
    PLOG(s, k.name << " and " << k2.name);
    twins(s, [&](pbt::Bulk& r) {return new FindMachine(k, r);}, [&](pbt::Bulk& r) {return new FindMachine(k2, r);});
  }
}
#define HV(D) \
  PBT_VARIANT("heap " #D, 2, (same<QueueMachine<mathic::Heap<TConf<D, false> >, TConf<D, false>, D> >)); \
  PBT_VARIANT("fast heap " #D, 1, (same<QueueMachine<mathic::Heap<TConf<D, true> >, TConf<D, true>, D> >)); \
  PBT_VARIANT("tournament tree " #D, 2, (same<QueueMachine<mathic::TourTree<TConf<D, false> >, TConf<D, false>, D> >)); \
  PBT_VARIANT("fast tournament tree " #D, 1, (same<QueueMachine<mathic::TourTree<TConf<D, true> >, TConf<D, true>, D> >)); \
  PBT_VARIANT("set " #D, 1, (same<QueueMachine<mathic::StlSet<QConf<D> >, QConf<D>, D> >))
HV(false);
HV(true);
#define GV(D, B) PBT_VARIANT("geobucket " #D " " #B, 2, (same<QueueMachine<mathic::Geobucket<GConf<D, B> >, GConf<D, B>, D> >))
GV(false, 0); GV(true, 1); GV(false, 14); GV(true, 16); GV(false, 17); GV(true, 27); GV(false, 32); GV(true, 33); GV(false, 47); GV(true, 47); GV(true, 10); GV(false, 21);
PBT_VARIANT("pair queue", 5, same<PairMachine<true> >);
PBT_VARIANT("pair queue without retirement", 2, same<PairMachine<false> >);
PBT_VARIANT("finders", 24, finders);
PBT_VARIANT("masks", 3, same<MaskMachine>);
PBT_VARIANT("hash table", 4, same<HashMachine>);
PBT_VARIANT("bit triangle", 2, same<BitMachine>);
PBT_VARIANT("column printer", 3, same<TextMachine>);
PBT_VARIANT("command line", 4, same<CliMachine>);
