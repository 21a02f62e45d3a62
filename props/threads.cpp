#if TU == 3
#include <boost/icl/set.hpp>
#endif
#include "../harness/domains_ext.hpp"
#include "../harness/threads.hpp"
using namespace vf;
#define TS(D, q) reg("set/" #D "/join", q, q * 20, thread_set<D, JOIN>); reg("set/" #D "/sep", q, q * 20, thread_set<D, SEP>); reg("set/" #D "/split", q, q * 20, thread_set<D, SPLIT>);
#define TM(D, K, Tr, q) reg("map/" #D "/" #K "/" #Tr "/join", q, q * 20, thread_map<D, K, icl::Tr, MJOIN>); reg("map/" #D "/" #K "/" #Tr "/split", q, q * 20, thread_map<D, K, icl::Tr, MSPLIT>);
static bool init = [] {
#if TU == 0
    TS(D_int, 60 * 6) TS(D_int_cl, 40 * 6) TS(D_str, 40 * 6)
#elif TU == 1
    TS(D_dbl, 60 * 6) TS(D_rat_ro, 40 * 6) TS(D_date, 40 * 6)
#elif TU == 2
    TM(D_int, KPlus<int>, partial_absorber, 60 * 6) TM(D_int_ro, KMax<int>, partial_enricher, 60 * 6)
#elif TU == 3
    TM(D_int, KSet, partial_absorber, 60 * 6) TM(D_str, KISet, partial_enricher, 60 * 6)
#elif TU == 4
    TM(D_int, KPlus<int>, total_absorber, 60 * 6) TM(D_dbl, KDouble, total_enricher, 60 * 6)
#elif TU == 5
    TM(D_int_cl, KString, partial_enricher, 60 * 6) TM(D_date, KPlus<int>, partial_absorber, 60 * 6)
#endif
    return true;
}();
VF_MAIN
