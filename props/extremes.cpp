#include "../harness/wide.hpp"
using namespace vf;
#define X(T) reg_extremes<T, std::less>("intervals/" #T)
#define G(T) reg_extremes<T, std::greater>("intervals/greater/" #T)
#define XW(T, q) reg_wides<T, std::less>("whole range/" #T, q)
#define GW(T, q) reg_wides<T, std::greater>("whole range/greater/" #T, q)
static bool init = [] {
#if TU == 0
    X(unsigned char); X(signed char); X(int); X(unsigned);
#elif TU == 1
    X(long long); X(unsigned long long); X(short); X(unsigned short); X(char);
#elif TU == 2
    G(unsigned char); G(int); G(unsigned); G(long long);
#elif TU == 3
    XW(unsigned char, 400);
#elif TU == 4
    XW(signed char, 300);
#elif TU == 5
    XW(int, 300);
#elif TU == 6
    XW(unsigned, 300);
#elif TU == 7
    XW(long long, 250);
#elif TU == 8
    XW(unsigned long long, 250);
#elif TU == 9
    GW(unsigned char, 300);
#elif TU == 10
    GW(int, 300);
#elif TU == 11
    GW(unsigned, 300);
#endif
    return true;
}();
VF_MAIN
