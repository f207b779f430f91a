#include "queues.h"
#include <mathic/Heap.h>
using namespace qh;
template<class EK, bool Fast, bool Dedup>
struct HeapConf: ConfBase<EK, Dedup> {
  HeapConf(Ctx* c): ConfBase<EK, Dedup>(c) {}
  static const bool fastIndex = Fast;
};
template<class EK, bool Fast, bool Dedup>
struct HeapQ: IQueue<EK> {
  typedef typename EK::Entry Entry;
  typedef mathic::Heap<HeapConf<EK, Fast, Dedup> > Q;
  std::unique_ptr<Q> q;
  HeapQ(Ctx* c, pbt::Src& s): q(new Q(HeapConf<EK, Fast, Dedup>(c))) {
    this->geoBase = 0; this->strictRange = Dedup;
  }
  void push(const Entry& e) {q->push(e);}
  void pushRange(const std::vector<Entry>& e, int how) {
    if (how == 0) q->push(e.begin(), e.end());
    else if (how == 1) q->push(e.data(), e.data() + e.size());
    else {std::deque<Entry> d(e.begin(), e.end()); q->push(d.begin(), d.end());}
  }
  Entry pop() {return q->pop();}
  Entry top() {return q->top();}
  bool empty() {return q->empty();}
  size_t size() {return q->size();}
  void decreaseTop(const Entry& e) {q->decreaseTop(e);}
  void clear() {q->clear();}
  void forAll(std::function<bool(const Entry&)> f) {Visitor<Entry> v(f); q->forAll(v);}
  bool move() {
    std::unique_ptr<Q> n(new Q(std::move(*q)));
    PCHECK(q->empty() && q->size() == 0, "a heap that was moved from still claims to contain elements");
    q.swap(n);
    return true;
  }
  size_t memory() {return q->getMemoryUse();}
  std::string name() {return q->getName();}
};
template<class EK, bool Fast, bool Dedup> void go(pbt::Src& s) {runQueue<EK, HeapQ<EK, Fast, Dedup> >(s);}
#define V(EK, F, D) PBT_VARIANT("heap " #EK " fast=" #F " dedup=" #D, 3, (go<EK, F, D>))
#if FOCUS == 1
V(V8, false, true); V(V8, true, true); V(V12, false, true); V(Ptr, true, true); V(Ptr, false, true); V(Fat, false, true);
#else
V(V8, false, false); V(V8, true, false); V(V12, false, false); V(Ptr, true, false); V(Ptr, false, false); V(Fat, false, false);
#if FOCUS == 2 || FOCUS == 4
V(V8, false, true); V(Ptr, true, true);
#endif
#endif
