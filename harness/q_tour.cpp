#include "queues.h"
#include <mathic/TourTree.h>
using namespace qh;
template<class EK, bool Fast>
struct TourConf: ConfBase<EK, false> {
  TourConf(Ctx* c): ConfBase<EK, false>(c) {}
  static const bool fastIndex = Fast;
};
template<class EK, bool Fast>
struct TourQ: IQueue<EK> {
  typedef typename EK::Entry Entry;
  typedef mathic::TourTree<TourConf<EK, Fast> > Q;
  std::unique_ptr<Q> q;
  bool flip;
  TourQ(Ctx* c, pbt::Src& s): q(new Q(TourConf<EK, Fast>(c))), flip(false) {
    this->geoBase = 0; this->hasSize = false;
  }
  void push(const Entry& e) {q->push(e);}
  void pushRange(const std::vector<Entry>& e, int how) {
    if (how == 0) q->push(e.begin(), e.end());
    else if (how == 1) q->push(e.data(), e.data() + e.size());
    else {std::deque<Entry> d(e.begin(), e.end()); q->push(d.begin(), d.end());}
  }
  Entry pop() {return q->pop();}
  Entry top() {return q->top();}
  bool empty() {return q->empty();}
  size_t size() {return 0;}
  void decreaseTop(const Entry& e) {q->decreaseTop(e);}
  void clear() {q->clear();}
  void forAll(std::function<bool(const Entry&)> f) {
    Visitor<Entry> v(f);
    flip = !flip;
    if (flip) q->forAll(v);
    else static_cast<const Q&>(*q).forAll(v);
  }
  size_t memory() {return q->getMemoryUse();}
  std::string name() {return q->getName();}
};
template<class EK, bool Fast> void go(pbt::Src& s) {runQueue<EK, TourQ<EK, Fast> >(s);}
#define V(EK, F) PBT_VARIANT("tour tree " #EK " fast=" #F, 3, (go<EK, F>))
V(V8, false); V(V8, true); V(V12, false); V(Ptr, true); V(Ptr, false); V(Fat, false);
