#if TU == 9 || TU == 10
#include "../harness/domains_ext.hpp"
#endif
#include "../harness/mapmachine.hpp"
using namespace vf;
#define R(D, K, q) reg_maps<D, K, PROP>(#D, q, q * 20)
static bool init = [] {
#if TU == 0
    R(D_int, KPlus<int>, 700);
#elif TU == 1
    R(D_int_ro, KSet, 400);
#elif TU == 2
    R(D_dbl, KPlus<unsigned>, 400);
#elif TU == 3
    R(D_int_cl, KMax<int>, 500); R(D_int_lo, KMin<int>, 500);
#elif TU == 4
    R(D_str, KOr, 300);
#elif TU == 5
    R(D_int_op, KXor, 500);
#elif TU == 6
    R(D_int, KString, 400);
#elif TU == 7
    R(D_dbl_ro, KDouble, 500);
#elif TU == 8
    R(G_int, KISet, 300);
#elif TU == 9
    R(D_date, KAnd, 150); R(D_user, KIdent, 250);
#elif TU == 10
    R(D_rat, KSetEt, 200); R(D_ptr, KStar, 300);
#elif TU == 11
    R(D_dbl_lo, KSet, 300);
#endif
    return true;
}();
VF_MAIN
