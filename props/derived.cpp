#if TU == 4
#include <boost/icl/set.hpp>
#endif
#include "../harness/domains_ext.hpp"
#include "../harness/derived.hpp"
using namespace vf;
#define DS(D, q) reg("set/" #D "/join", q, q * 25, SetDerived<D, JOIN>::run); reg("set/" #D "/sep", q, q * 25, SetDerived<D, SEP>::run); reg("set/" #D "/split", q, q * 25, SetDerived<D, SPLIT>::run);
#define DM(D, K, Tr, q) reg("map/" #D "/" #K "/" #Tr "/join", q, q * 25, MapDerived<D, K, icl::Tr, MJOIN>::run); reg("map/" #D "/" #K "/" #Tr "/split", q, q * 25, MapDerived<D, K, icl::Tr, MSPLIT>::run);
static bool init = [] {
#if TU == 0
    DS(D_int, 4000) DS(D_int_ro, 3200) DS(D_int_cl, 3200) DS(D_int_lo, 3200) DS(D_int_op, 3200)
#elif TU == 1
    DS(D_dbl, 4000) DS(D_str, 3200) DS(G_int, 3200) DS(D_date, 1200) DS(D_rat_ro, 3200)
#elif TU == 2
    DM(D_int, KPlus<int>, partial_absorber, 5600) DM(D_int_ro, KPlus<int>, partial_enricher, 5600)
#elif TU == 3
    DM(D_dbl, KPlus<int>, partial_enricher, 5600) DM(D_str, KString, partial_enricher, 5600)
#elif TU == 4
    DM(D_int, KSet, partial_absorber, 4800) DM(D_int_cl, KMax<int>, partial_enricher, 5600)
#elif TU == 5
    DM(D_int_lo, KPlus<int>, total_enricher, 5600) DM(D_int_op, KPlus<int>, total_absorber, 5600)
#elif TU == 6
    DM(G_int, KPlus<int>, partial_enricher, 5600) DM(D_dbl_ro, KXor, partial_absorber, 5600)
#endif
    return true;
}();
VF_MAIN
