#if TU != 8
#include <boost/icl/set.hpp>
#endif
#include "../harness/domains_ext.hpp"
#include "../harness/elements.hpp"
using namespace vf;
#define ES(D, q) reg("set/" #D, q, q * 25, ElemSet<D>::run);
#define EM(D, K, Tr, q) reg("map/" #D "/" #K "/" #Tr, q, q * 25, ElemMap<D, K, icl::Tr>::run);
static bool init = [] {
#if TU == 0
    ES(D_int, 1500) ES(D_int_ro, 800) ES(D_str, 800) ES(D_ch, 300) ES(D_dbl, 800)
#elif TU == 1
    EM(D_int, KPlus<int>, partial_absorber, 1200) EM(D_int, KPlus<int>, partial_enricher, 1200)
#elif TU == 2
    EM(D_int, KPlus<int>, total_absorber, 1200) EM(D_int, KPlus<int>, total_enricher, 1200)
#elif TU == 3
    EM(D_int_cl, KSet, partial_absorber, 1000) EM(D_int, KSet, partial_enricher, 1000)
#elif TU == 4
    EM(D_int, KMax<int>, partial_enricher, 1000) EM(D_int_lo, KMin<int>, partial_absorber, 1000)
#elif TU == 5
    EM(D_str, KString, partial_absorber, 1000) EM(G_int, KPlus<int>, partial_enricher, 1000)
#elif TU == 6
    EM(D_int, KOr, partial_absorber, 1000) EM(D_int, KXor, partial_enricher, 1000)
#elif TU == 7
    EM(D_int, KISet, partial_enricher, 800) EM(D_int, KPlus<unsigned>, total_absorber, 800)
#elif TU == 8
    ES(D_date, 400) EM(D_ptime, KPlus<int>, partial_absorber, 200)
#endif
    return true;
}();
VF_MAIN
