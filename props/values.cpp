#include "../harness/values.hpp"
using namespace vf;
#if PROP == 15
#define SOBS SetHint
#define MOBS MapHint
#elif PROP == 16
#define SOBS SetValue
#define MOBS MapValue
#endif
template <class D> void RS_(const char* d, int q) {
    std::string n = std::string("set/") + d + "/";
    reg(n + "join", q, q * 20, SOBS<D, JOIN>::run); reg(n + "sep", q, q * 20, SOBS<D, SEP>::run); reg(n + "split", q, q * 20, SOBS<D, SPLIT>::run);
}
template <class D, class K, class Tr> void RM_(const char* d, const char* t, int q) {
    std::string n = std::string("map/") + d + "/" + K::name + "/" + t + "/";
    reg(n + "join", q, q * 20, MOBS<D, K, Tr, MJOIN>::run); reg(n + "split", q, q * 20, MOBS<D, K, Tr, MSPLIT>::run);
}
#define RS(D, q) RS_<D>(#D, q)
#define RM(D, K, Tr, q) RM_<D, K, icl::Tr>(#D, #Tr, q)
static bool init = [] {
#if TU == 0
    RS(D_int, 400); RM(D_int, KPlus<int>, partial_absorber, 300);
#elif TU == 1
    RS(D_dbl, 300); RM(D_int, KPlus<int>, partial_enricher, 300);
#elif TU == 2
    RS(D_str, 200); RM(D_str, KString, partial_absorber, 200);
#elif TU == 3
    RM(D_int_ro, KSet, partial_absorber, 150); RM(D_dbl, KSet, partial_enricher, 150);
#elif TU == 4
    RS(G_int, 300); RM(D_int, KPlus<int>, total_absorber, 200);
#elif TU == 5
    RS(D_dbl_ro, 300); RM(D_dbl_ro, KPlus<int>, total_enricher, 200);
#elif TU == 6
    RM(D_int_cl, KMax<int>, partial_absorber, 250); RM(D_dbl, KPlus<unsigned>, partial_absorber, 200);
#elif TU == 7
    RS(D_int_cl, 300); RM(D_str, KISet, partial_enricher, 100);
#endif
    return true;
}();
VF_MAIN
