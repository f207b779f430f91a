#include "queues.h"
#include <mathic/StlSet.h>
using namespace qh;
template<class EK>
struct SetConf: ConfBase<EK, false> {
  SetConf(Ctx* c): ConfBase<EK, false>(c) {}
};
template<class EK>
struct SetQ: IQueue<EK> {
  typedef typename EK::Entry Entry;
  typedef mathic::StlSet<SetConf<EK> > Q;
  std::unique_ptr<Q> q;
  SetQ(Ctx* c, pbt::Src& s): q(new Q(SetConf<EK>(c))) {
    this->geoBase = 0; this->hasSize = false; this->hasClear = false; this->hasForAll = false;
    this->hasDecrease = false;
  }
  void push(const Entry& e) {q->push(e);}
  void pushRange(const std::vector<Entry>& e, int how) {q->push(e.data(), e.data() + e.size());}
  Entry pop() {return q->pop();}
  Entry top() {return q->top();}
  bool empty() {return q->empty();}
  size_t size() {return 0;}
  void decreaseTop(const Entry& e) {}
  void clear() {}
  void forAll(std::function<bool(const Entry&)> f) {}
  size_t memory() {return q->getMemoryUse();}
  std::string name() {return q->getName();}
};
template<class EK> void go(pbt::Src& s) {runQueue<EK, SetQ<EK> >(s);}
#define V(EK) PBT_VARIANT("set queue " #EK, 3, (go<EK>))
V(V8); V(V12); V(Ptr); V(Fat);
