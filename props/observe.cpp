#include "../harness/observe2.hpp"
using namespace vf;
#if PROP == 10
#define SOBS SetPred
#define MOBS MapPred
#elif PROP == 11
#define SOBS SetOrd
#define MOBS MapOrd
#elif PROP == 12
#define SOBS SetFind
#define MOBS MapFind
#elif PROP == 13
#define SOBS SetSize
#define MOBS MapSize
#elif PROP == 14
#define SOBS SetIter
#define MOBS MapIter
#endif
template <class D> void RS_(const char* d, int q) {
    std::string n = std::string("set/") + d + "/";
    reg(n + "join", q, q * 20, SOBS<D, JOIN>::run); reg(n + "sep", q, q * 20, SOBS<D, SEP>::run); reg(n + "split", q, q * 20, SOBS<D, SPLIT>::run);
}
template <class D, class K, class Tr> void RM_(const char* d, const char* t, int q) {
    std::string n = std::string("map/") + d + "/" + K::name + "/" + t + "/";
    reg(n + "join", q, q * 20, MOBS<D, K, Tr, MJOIN>::run); reg(n + "split", q, q * 20, MOBS<D, K, Tr, MSPLIT>::run);
}
#define RS(D, q) RS_<D>(#D, q)
#define RM(D, K, Tr, q) RM_<D, K, icl::Tr>(#D, #Tr, q)
static bool init = [] {
#if TU == 0
    RS(D_int, 1200); RS(D_int_ro, 600); RM(D_int, KPlus<int>, partial_absorber, 800); 
#elif TU == 1
    RS(D_int_cl, 600); RS(D_int_lo, 600); RS(D_int_op, 600); RM(D_int_cl, KPlus<int>, partial_enricher, 600);
#elif TU == 2
    RS(D_dbl, 800); RM(D_dbl, KPlus<int>, partial_enricher, 500); RM(D_dbl, KString, partial_absorber, 400);
#elif TU == 3
    RS(D_dbl_ro, 600); RS(D_dbl_lo, 600); RM(D_dbl_ro, KPlus<int>, partial_absorber, 500); RM(D_dbl_lo, KPlus<int>, total_enricher, 300);
#elif TU == 4
    RS(D_str, 500); RS(D_uns, 500); RM(D_str, KPlus<int>, partial_enricher, 400); 
#elif TU == 5
    RS(D_date, 150); RS(D_rat, 300); RM(D_rat, KPlus<int>, partial_absorber, 300);
#elif TU == 6
    RS(D_ptr, 400); RS(D_chr, 400); RM(D_ptr, KString, partial_enricher, 400);
#elif TU == 7
    RS(G_int, 800); RS(G_dbl, 500); RM(G_int, KPlus<int>, partial_absorber, 600);
#elif TU == 8
    RM(D_int_op, KPlus<int>, total_absorber, 400); RM(D_int_lo, KPlus<int>, total_enricher, 400); RM(G_int_cl, KPlus<int>, partial_enricher, 400);
#elif TU == 9
    RS(G_int_ro, 500); RS(G_dbl_ro, 400); RS(D_uc, 400); RM(D_uns, KMax<int>, partial_enricher, 400);
#endif
    return true;
}();
VF_MAIN
