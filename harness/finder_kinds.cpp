// Instantiations of the divisor finders, spread over several objects.
#include "finder.h"
using namespace fh;
#define TREE(N, E, UDM, UTDM, P, LS, AR, EM) \
  static AddKind PBT_CAT(k_, __COUNTER__)(Kind{std::string(#P " leaf " #LS " dmask " #UDM #UTDM " removals " #AR " ") + expName<E>(), \
    true, AR, UDM, UTDM, LS, static_cast<Exp>(std::numeric_limits<E>::max()), &makeTree<E, UDM, UTDM, P, LS, AR, EM>});
#define LISTK(E, UDM, ULL, EM) \
  static AddKind PBT_CAT(k_, __COUNTER__)(Kind{std::string("list linked " #ULL " dmask " #UDM " ") + expName<E>(), \
    false, true, UDM, false, 0, static_cast<Exp>(std::numeric_limits<E>::max()), &makeList<E, UDM, ULL, EM>});
#ifndef PARTS
#define PART 0
#define PARTS 1
#endif
#define ON(n) ((n) % PARTS == PART)
#define binary false
#define packed true
#if FOCUS != 11 && FOCUS != 12
#if ON(0)
TREE(0, int, true, true, binary, 1, true, true)
TREE(0, unsigned char, true, true, binary, 3, true, false)
TREE(0, long long, true, true, binary, 2, false, true)
#endif
#if ON(1)
TREE(1, int, true, true, packed, 1, true, false)
TREE(1, short, true, true, packed, 3, true, true)
TREE(1, unsigned, true, true, packed, 2, false, false)
#endif
#if ON(2)
TREE(2, int, true, false, binary, 1, false, false)
TREE(2, unsigned, true, false, binary, 4, true, true)
TREE(2, short, false, false, binary, 2, true, false)
#endif
#if ON(3)
TREE(3, int, true, false, packed, 1, false, true)
TREE(3, long long, true, false, packed, 4, true, false)
TREE(3, unsigned char, false, false, packed, 2, true, true)
#endif
#if ON(4)
TREE(4, int, false, false, binary, 1, true, true)
TREE(4, int, true, true, binary, 8, true, true)
#endif
#if ON(5)
TREE(5, int, false, false, packed, 1, true, false)
TREE(5, int, true, true, packed, 8, true, false)
#endif
#endif
#if FOCUS != 13 && FOCUS != 14
#if ON(6)
LISTK(int, true, true, true)
LISTK(unsigned, false, true, false)
LISTK(short, true, true, false)
LISTK(long long, false, true, true)
#endif
#if ON(7)
LISTK(int, true, false, false)
LISTK(unsigned char, false, false, true)
LISTK(long long, true, false, true)
LISTK(int, false, false, true)
#endif
#endif
