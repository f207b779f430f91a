// What the pair queue costs: pair data computed and kept, comparisons, memory.
#include "pbt.h"
#include <mathic/PairQueue.h>
#include <map>
#include <cmath>

namespace {
  struct Ctx {
    unsigned long long computed, compared;
    long live, mostLive;
    std::vector<std::vector<unsigned char> > times; // computations by column and row
    unsigned worst; size_t worstCol, worstRow;
    int kind; long long mod;
    Ctx(): computed(0), compared(0), live(0), mostLive(0), worst(0), worstCol(0), worstRow(0), kind(0), mod(1) {}
    long long rank(size_t col, size_t row) const {
      const long long c = static_cast<long long>(col), r = static_cast<long long>(row);
      switch (kind) {
      case 0: return (c * 7919 + r * 104729 + c * r * 31) % mod;
      case 1: return c + r;
      case 2: return -(c + 3 * r);
      default: return r % mod;
      }
    }
  };
  Ctx* g = 0;
  struct Data {
    long long rank;
    Data(): rank(0) {++g->live; g->mostLive = std::max(g->mostLive, g->live);}
    Data(const Data& d): rank(d.rank) {++g->live; g->mostLive = std::max(g->mostLive, g->live);}
    ~Data() {--g->live;}
  };
  template<bool Retire>
  struct Conf {
    typedef Data PairData;
    typedef int CompareResult;
    void computePairData(size_t col, size_t row, Data& d) const {
      ++g->computed;
      d.rank = g->rank(col, row);
      if (col >= g->times.size()) g->times.resize(col + 1);
      std::vector<unsigned char>& v = g->times[col];
      if (row >= v.size()) v.resize(col);
      if (++v[row] > g->worst) {g->worst = v[row]; g->worstCol = col; g->worstRow = row;}
    }
    int compare(size_t, size_t, const Data& a, size_t, size_t, const Data& b) const {
      ++g->compared;
      return a.rank < b.rank ? -1 : a.rank > b.rank;
    }
    bool cmpLessThan(int c) const {return c < 0;}
  };
}
namespace mathic {
  namespace PairQueueNamespace {
    template<> struct SupportRetirement<Conf<false> > {static const bool value = false;};
  }
}
namespace {
  template<bool Retire> void prop(pbt::Src& s) {
    Ctx c;
    g = &c;
    c.kind = static_cast<int>(s.draw(4));
    static const long long mods[] = {1000003, 50, 3, 1};
    c.mod = mods[s.draw(4)];
    size_t columns = 0, pairs = 0, pops = 0, retires = 0, adds = 0, addedPairs = 0;
    std::vector<unsigned char> retired;
    {
      mathic::PairQueue<Conf<Retire> > q((Conf<Retire>()));
      pbt::Bulk r(s.draw(1u << 30));
      auto check = [&](const char* after) {
        const double lg = std::log2(static_cast<double>(adds) + 2);
        PCHECK(c.worst <= 2, "the pair data of (" << c.worstCol << ',' << c.worstRow << ") is computed for the " << c.worst << "th time after " << after);
        PCHECK(c.live <= static_cast<long>(adds) + 1, c.live << " pair data objects are kept for " << adds << " columns after " << after);
        PCHECK(c.computed <= 2 * (adds + pops + retires) + (retires ? addedPairs : 0), c.computed << " pair data were computed for " << adds << " columns and "
          << pops << " pops after " << after);
        PCHECK(c.compared <= (retires ? addedPairs : adds + pops) * (2.5 * lg + 4) + 50, c.compared << " comparisons were made for " << adds << " columns and "
          << pops << " pops of " << pairs << " pairs after " << after);
        const size_t wide = columns > 65535 ? 4 : 2;
        PCHECK(q.getMemoryUse() <= 2.4 * wide * addedPairs + adds * 180.0 + 20000, q.getMemoryUse() << " bytes are used for " << addedPairs << " pairs in "
          << adds << " columns after " << after);
      };
      for (pbt::List l(s, 8, 20, 40); l.next();) {
        const size_t kind = s.weighted({4, 3, 3, Retire ? 1u : 0u, 1});
        switch (kind) {
        case 0: { // columns
          const size_t n = s.draw(40) == 39 ? 300 + s.draw(pbt::huge ? 2500 : 1200) : 1 + s.draw(60);
          const size_t shape = s.draw(4);
          PLOG(s, "add " << n << " columns of shape " << shape);
          for (size_t i = 0; i < n; ++i) {
            const size_t col = columns;
            std::vector<unsigned> rows;
            for (size_t j = 0; j < col; ++j)
              if ((shape == 0 || (shape == 1 ? r(3) == 0 : shape == 2 ? r(20) == 0 : j + 5 > col)) && !retired[j]) rows.push_back(static_cast<unsigned>(j));
            std::stable_sort(rows.begin(), rows.end(), [&](unsigned a, unsigned b) {return c.rank(col, a) > c.rank(col, b);});
            const unsigned long long before = c.computed, compared = c.compared;
            q.addColumnDescending(rows.begin(), rows.end());
            ++columns; retired.push_back(0);
            if (!rows.empty()) ++adds;
            pairs += rows.size(); addedPairs += rows.size();
            PCHECK(c.computed - before <= 2, "adding a column of " << rows.size() << " pairs computed " << c.computed - before << " pair data");
            PCHECK(c.compared - compared <= 2.5 * std::log2(static_cast<double>(adds) + 2) + 4, "adding a column to " << adds - 1 << " made "
              << c.compared - compared << " comparisons");
          }
          check("adding columns");
          break;
        }
        case 1: case 2: {
          size_t n = s.draw(kind == 1 ? 20 : 3000);
          PLOG(s, "pop " << n);
          for (; n > 0 && !q.empty(); --n) {
            const unsigned long long before = c.computed, compared = c.compared;
            q.pop(); ++pops; if (pairs > 0) --pairs;
            if (retires == 0) {
              PCHECK(c.computed - before <= 2, "a pop computed " << c.computed - before << " pair data");
              PCHECK(c.compared - compared <= 2.5 * std::log2(static_cast<double>(adds) + 2) + 4, "a pop made " << c.compared - compared
                << " comparisons with " << adds << " columns");
            }
          }
          check("pops");
          break;
        }
        case 3: {
          if (columns == 0) break;
          const size_t i = s.draw(columns);
          if (retired[i]) break;
          PLOG(s, "retire " << i);
          retired[i] = 1; ++retires;
          q.retireIndex(i);
          check("retiring");
          break;
        }
        default: { // reading costs nothing
          const unsigned long long before = c.computed, compared = c.compared;
          (void)q.pairCount(); (void)q.columnCount(); (void)q.getMemoryUse();
          if (!q.empty()) {(void)q.topPair(); (void)q.topPairData();}
          PCHECK(c.computed == before && c.compared == compared, "reading the queue computes pair data or compares");
        }
        }
      }
      check("everything");
    }
    g = 0;
    s.labelIf(adds > 100, "more than 100 columns");
    s.labelIf(addedPairs > 5000, "more than 5000 pairs");
    s.labelIf(retires > 0, "retired");
    if (adds >= 10 && pops >= 20) s.nontrivial();
  }
}
PBT_VARIANT("pair queue cost", 2, prop<true>);
PBT_VARIANT("pair queue cost without retirement", 1, prop<false>);
