// A structure uses its own copy of the configuration it is given, and only that.
#include "machines.h"

namespace {
  fh::Ctx lifetimes;
  template<class F> void watched(pbt::Src& s, F makeIt, bool canBeLate) {
    fh::gCtx = &lifetimes;
    current = 0;
    const uint64_t seed = s.draw(1u << 30);
    const bool setLater = canBeLate && s.draw(2);
    std::vector<Op> ops;
    for (pbt::List l(s, 25, 80, 250); l.next();) {
      Op op;
      op.kind = static_cast<unsigned>(s.draw(48)); op.a = s.draw(1u << 24); op.b = s.draw(1u << 30);
      ops.push_back(op);
    }
    std::vector<std::string> seen;
    unsigned long long uses = 0;
    auto run = [&](bool first) {
      pbt::Bulk r(seed);
      std::unique_ptr<Machine> m(makeIt(r));
      for (size_t i = 0; i < ops.size(); ++i) {
        Seen now;
        m->step(ops[i], now);
        m->probe(now);
        PLOG(s, i << ": kind " << ops[i].kind << " gives " << now.text);
        book.check(m->configuration());
        if (first) seen.push_back(now.text);
        else PCHECK(now.text == seen[i], "operation " << i + 1 << " gives \"" << now.text << "\", and \"" << seen[i] << "\" when the structure got the right options at once");
      }
      uses = book.uses;
      book.home = 0;
    };
    late = false;
    run(true);
    if (setLater) {
      late = true;
      run(false);
      late = false;
      s.labelIf(true, "options set through the accessor");
    }
    if (ops.size() >= 8 && uses > 20) s.nontrivial();
  }
  template<class T> void same(pbt::Src& s) {watched(s, [](pbt::Bulk& r) {return new T(r);}, true);}
  void masks(pbt::Src& s) {watched(s, [](pbt::Bulk& r) {return new MaskMachine(r);}, false);}
  void finders(pbt::Src& s) {
    const fh::Kind& k = fh::kinds()[s.draw(fh::kinds().size())];
    PLOG(s, k.name);
    watched(s, [&](pbt::Bulk& r) {return new FindMachine(k, r);}, false);
  }
}
#define HV(D) \
  PBT_VARIANT("heap " #D, 2, (same<QueueMachine<mathic::Heap<TConf<D, false> >, TConf<D, false>, D> >)); \
  PBT_VARIANT("fast heap " #D, 1, (same<QueueMachine<mathic::Heap<TConf<D, true> >, TConf<D, true>, D> >)); \
  PBT_VARIANT("tournament tree " #D, 2, (same<QueueMachine<mathic::TourTree<TConf<D, false> >, TConf<D, false>, D> >)); \
  PBT_VARIANT("fast tournament tree " #D, 1, (same<QueueMachine<mathic::TourTree<TConf<D, true> >, TConf<D, true>, D> >)); \
  PBT_VARIANT("set " #D, 1, (same<QueueMachine<mathic::StlSet<QConf<D> >, QConf<D>, D> >))
HV(false);
HV(true);
#define GV(D, B) PBT_VARIANT("geobucket " #D " " #B, 2, (same<QueueMachine<mathic::Geobucket<GConf<D, B> >, GConf<D, B>, D> >))
GV(false, 0); GV(true, 1); GV(false, 14); GV(true, 16); GV(false, 17); GV(true, 27); GV(false, 32); GV(true, 33); GV(false, 47); GV(true, 47); GV(true, 10); GV(false, 21);
PBT_VARIANT("pair queue", 5, same<PairMachine<true> >);
PBT_VARIANT("pair queue without retirement", 2, same<PairMachine<false> >);
PBT_VARIANT("finders", 24, finders);
PBT_VARIANT("masks", 3, masks);
PBT_VARIANT("hash table", 4, same<HashMachine>);
