// Counts what operator new hands out.
#ifndef ALLOC_H
#define ALLOC_H
#include <cstddef>
#if FOCUS == 42
#define PER_THREAD thread_local
#else
#define PER_THREAD
#endif
namespace alloc {
  extern PER_THREAD long long liveBytes, liveBlocks, totalBytes, peakBytes;
  /// How many more allocations succeed until one fails; negative: all do.
  extern PER_THREAD long long failIn, failed;
  /// What new memory is filled with; negative: it is left as it is.
  extern int fill;
  /// Forget the peak; it restarts at what is live now.
  inline void resetPeak() {peakBytes = liveBytes;}
}
#endif
