#include "../harness/intervals.hpp"
using namespace vf;
#define R(D) reg_interval<PROP, D>(#D)
#define RG(D) reg_interval<PROP, D>(#D)
static bool init = [] {
#if TU == 0
    R(D_int); R(D_int_ro); R(D_int_lo); R(D_int_cl); R(D_int_op);
#elif TU == 1
    R(D_dbl); R(D_dbl_ro); R(D_dbl_lo); R(D_flt); R(D_rat); R(D_rat_ro);
#elif TU == 2
    R(D_str); R(D_str_ro); R(D_uns); R(D_uc); R(D_ch); R(D_sh); R(D_ll); R(D_us_cl);
#elif TU == 3
    R(D_date); R(D_date_cl); R(D_datedur); R(D_ptime); R(D_tdur);
#elif TU == 4
    R(D_chr); R(D_chrd); R(D_ptr); R(D_user); R(D_user_ro);
#elif TU == 5
    R(G_int); R(G_int_ro); R(G_int_lo); R(G_int_cl); R(G_int_op); R(G_dbl); R(G_dbl_ro); R(G_str);
#endif
    return true;
}();
VF_MAIN
