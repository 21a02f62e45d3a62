#if TU == 3
#include <boost/icl/set.hpp> // before the interval containers: comparing std::set codomains needs its overloads declared first
#endif
#include "../harness/laws.hpp"
using namespace vf;
template <class D> void RS_(const char* d, int q) {
    std::string n = std::string("set/") + d + "/";
    reg(n + "join", q, q * 20, SetLaws<D, JOIN>::run); reg(n + "sep", q, q * 20, SetLaws<D, SEP>::run); reg(n + "split", q, q * 20, SetLaws<D, SPLIT>::run);
}
template <class D, class K, class Tr> void RM_(const char* d, const char* t, int q) {
    std::string n = std::string("map/") + d + "/" + K::name + "/" + t + "/";
    reg(n + "join", q, q * 20, MapLaws<D, K, Tr, MJOIN>::run); reg(n + "split", q, q * 20, MapLaws<D, K, Tr, MSPLIT>::run);
}
#define RS(D, q) RS_<D>(#D, q)
#define RM(D, K, Tr, q) RM_<D, K, icl::Tr>(#D, #Tr, q)
static bool init = [] {
#if TU == 0
    RS(D_int, 2000); RM(D_int, KPlus<int>, partial_absorber, 1500);
#elif TU == 1
    RS(D_dbl, 1500); RM(D_int, KPlus<int>, partial_enricher, 1500);
#elif TU == 2
    RS(D_str, 800); RM(D_int_cl, KPlus<int>, total_absorber, 1500);
#elif TU == 3
    RM(D_int_ro, KSet, partial_absorber, 600); RM(D_dbl, KSet, partial_enricher, 600);
#elif TU == 4
    RS(G_int, 1500); RM(D_int, KPlus<int>, total_enricher, 1500);
#elif TU == 5
    RS(D_dbl_ro, 1500); RM(D_dbl_ro, KPlus<unsigned>, partial_absorber, 1200);
#elif TU == 6
    RS(D_int_cl, 1500); RM(D_str, KPlus<unsigned>, partial_enricher, 800);
#elif TU == 7
    RS(D_int_op, 1500); RM(D_int, KISet, partial_absorber, 400); RM(G_int, KISet, partial_enricher, 400);
#endif
    return true;
}();
VF_MAIN
