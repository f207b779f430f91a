#include "alloc.h"
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <new>
#include <dlfcn.h>
namespace alloc {
  long long liveBytes = 0, liveBlocks = 0, totalBytes = 0, peakBytes = 0;
  long long failIn = -1, failed = 0;
  int fill = -1;
}
namespace {
  struct Header {size_t size; size_t pad;};
  /// Memtailor, which is not part of Mathic, gets what it asks for: its
  /// blocks are broken after they run out of memory.
  bool mayFail(void* caller) {
    Dl_info info;
    return !dladdr(caller, &info) || !info.dli_fname || !std::strstr(info.dli_fname, "memtailor");
  }
  void* get(size_t n, void* caller) {
    if (n > (size_t(1) << 40)) throw std::bad_alloc();
    if (alloc::failIn >= 0 && mayFail(caller) && alloc::failIn-- == 0) {++alloc::failed; throw std::bad_alloc();}
    Header* h = static_cast<Header*>(std::malloc(n + sizeof(Header)));
    if (!h) throw std::bad_alloc();
    h->size = n;
    if (alloc::fill >= 0) std::memset(h + 1, alloc::fill, n);
    alloc::liveBytes += n; ++alloc::liveBlocks; alloc::totalBytes += n;
    if (alloc::liveBytes > alloc::peakBytes) alloc::peakBytes = alloc::liveBytes;
    return h + 1;
  }
  void put(void* p) {
    if (!p) return;
    Header* h = static_cast<Header*>(p) - 1;
    alloc::liveBytes -= h->size; --alloc::liveBlocks;
    if (alloc::fill >= 0) std::memset(p, ~alloc::fill, h->size);
    std::free(h);
  }
}
void* operator new(size_t n) {return get(n, __builtin_return_address(0));}
void* operator new[](size_t n) {return get(n, __builtin_return_address(0));}
void* operator new(size_t n, const std::nothrow_t&) noexcept {try {return get(n, __builtin_return_address(0));} catch (...) {return 0;}}
void* operator new[](size_t n, const std::nothrow_t&) noexcept {try {return get(n, __builtin_return_address(0));} catch (...) {return 0;}}
void operator delete(void* p) noexcept {put(p);}
void operator delete[](void* p) noexcept {put(p);}
void operator delete(void* p, size_t) noexcept {put(p);}
void operator delete[](void* p, size_t) noexcept {put(p);}
