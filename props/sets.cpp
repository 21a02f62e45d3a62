#if TU == 3 || TU == 4
#include "../harness/domains_ext.hpp"
#endif
#include "../harness/setmachine.hpp"
using namespace vf;
#define VIEW (PROP == 4 ? V_COV : V_CUT)
#define R(D, q) reg_sets<D, VIEW>(#D, q, q * 20)
static bool init = [] {
#if TU == 0
    R(D_int, 3000); R(D_int_ro, 1500);
#elif TU == 1
    R(D_dbl, 2000); R(D_dbl_ro, 1000); 
#elif TU == 2
    R(D_str, 1000); R(D_uns, 1000);
#elif TU == 3
    R(D_date, 300); R(D_rat, 500);
#elif TU == 4
    R(D_ptr, 800); R(D_user, 800);
#elif TU == 5
    R(G_int, 1500); R(G_dbl, 1000);
#elif TU == 6
    R(D_int_lo, 1500); R(D_int_cl, 1500);
#elif TU == 7
    R(D_int_op, 1500); R(D_dbl_lo, 1000);
#endif
    return true;
}();
VF_MAIN
