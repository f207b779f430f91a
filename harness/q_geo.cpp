#include "queues.h"
#include <mathic/Geobucket.h>
#ifndef PART
#define PART 0
#endif
#ifndef PARTS
#define PARTS 1
#endif
using namespace qh;
// option bits: 1 trackFront, 2 binary search, 4 premerge, 8 collectMax; storage = (bits / 16) % 3
template<class EK, bool Dedup, int Bits>
struct GeoConf: ConfBase<EK, Dedup> {
  GeoConf(Ctx* c, size_t m, size_t b): ConfBase<EK, Dedup>(c), minBucketSize(m), geoBase(b) {}
  size_t minBucketSize, geoBase;
  static const size_t insertFactor = 1 + (Bits * 7 / 5) % 3;
  static const bool trackFront = (Bits & 1) != 0;
  static const bool minBucketBinarySearch = (Bits & 2) != 0;
  static const bool premerge = (Bits & 4) != 0;
  static const bool collectMax = (Bits & 8) != 0;
  static const mathic::GeobucketBucketStorage bucketStorage =
    static_cast<mathic::GeobucketBucketStorage>(Bits / 16);
};
template<class EK, bool Dedup, int Bits>
struct GeoQ: IQueue<EK> {
  typedef typename EK::Entry Entry;
  typedef GeoConf<EK, Dedup, Bits> Conf;
  typedef mathic::Geobucket<Conf> Q;
  std::unique_ptr<Q> q;
  GeoQ(Ctx* c, pbt::Src& s) {
    const size_t m = s.flag(1, 4) ? 1 + s.draw(40) : 1 + s.draw(4);
    const size_t b = 2 + s.draw(s.flag(1, 4) ? 7 : 2);
    q.reset(new Q(Conf(c, m, b)));
    this->geoBase = b; this->minBucket = m; this->factor = Conf::insertFactor;
    this->sortedRange = true; this->strictRange = Dedup;
  }
  void push(const Entry& e) {q->push(e);}
  void pushRange(const std::vector<Entry>& e, int how) {
    if (how == 0) q->push(e.begin(), e.end());
    else if (how == 1) q->push(e.data(), e.data() + e.size());
    else {std::deque<Entry> d(e.begin(), e.end()); q->push(d.begin(), d.end());}
  }
  Entry pop() {return q->pop();}
  Entry top() {return q->top();}
  bool empty() {return q->empty();}
  size_t size() {return q->size();}
  void decreaseTop(const Entry& e) {q->decreaseTop(e);}
  void clear() {q->clear();}
  void forAll(std::function<bool(const Entry&)> f) {Visitor<Entry> v(f); q->forAll(v);}
  size_t memory() {return q->getMemoryUse();}
  std::string name() {return q->getName();}
};
template<class EK, bool Dedup, int Bits> void go(pbt::Src& s) {runQueue<EK, GeoQ<EK, Dedup, Bits> >(s);}

template<class EK, bool Dedup, int Bits, int End, int Step, bool More = (Bits < End)>
struct Reg {
  static void all() {
    std::ostringstream n;
    n << "geobucket " << EK::name() << " options=" << Bits << " dedup=" << Dedup;
    pbt::Register r(n.str(), 1, go<EK, Dedup, Bits>);
    Reg<EK, Dedup, Bits + Step, End, Step>::all();
  }
};
template<class EK, bool Dedup, int Bits, int End, int Step>
struct Reg<EK, Dedup, Bits, End, Step, false> {static void all() {}};
namespace {
struct Init {
  Init() {
#if FOCUS == 4
    Reg<V8, false, PART * 3, 48, PARTS * 3>::all();
    Reg<V8, true, PART * 3 + 1, 48, PARTS * 3>::all();
#elif FOCUS == 3
    Reg<V8, false, PART, 48, PARTS>::all();
#elif FOCUS == 2
    Reg<V8, false, PART, 48, PARTS>::all();
    Reg<Ptr, false, PART * 5, 48, PARTS * 5>::all();
    Reg<V8, true, PART * 5 + 2, 48, PARTS * 5>::all();
#else
    Reg<V8, FOCUS == 1, PART, 48, PARTS>::all();
    Reg<Ptr, FOCUS == 1, PART * 5, 48, PARTS * 5>::all();
    Reg<Fat, FOCUS == 1, PART * 7, 48, PARTS * 7>::all();
#endif
  }
} init;
}
