#include "../harness/faults.hpp"
using namespace vf;
template <class D, int MASK> void FS_(const char* d, const char* k, int q) {
    std::string n = std::string("set/") + d + "/" + k;
    reg(n + "/join", q, q * 20, fault_set<D, JOIN, MASK>); reg(n + "/sep", q, q * 20, fault_set<D, SEP, MASK>); reg(n + "/split", q, q * 20, fault_set<D, SPLIT, MASK>);
}
template <class D, class K, class Tr, int MASK> void FM_(const char* d, const char* t, const char* k, int q) {
    std::string n = std::string("map/") + d + "/" + t + "/" + k;
    reg(n + "/join", q, q * 20, fault_map<D, K, Tr, MJOIN, MASK>); reg(n + "/split", q, q * 20, fault_map<D, K, Tr, MSPLIT, MASK>);
}
#define FS(D, M, q) FS_<D, M>(#D, #M, q)
#define FM(D, Tr, M, q) FM_<D, KObj, icl::Tr, M>(#D, #Tr, #M, q)
static bool init = [] {
#if TU == 0
    FS(T_key, F_ALLOC, 30); FS(T_key, F_KEYCMP, 18);
#elif TU == 1
    FS(T_key, F_KEYCOPY, 20);
#elif TU == 2
    FS(T_key, F_KEYASSIGN, 18); FS(T_key, F_KEYSTEP, 18);
#elif TU == 3
    FM(T_key, partial_absorber, F_ALLOC, 30); FM(T_key, partial_absorber, F_VALCOPY | F_VALASSIGN | F_VALOP | F_VALCMP, 30);
#elif TU == 4
    FM(T_key_ro, partial_enricher, F_KEYCMP, 20); FM(T_key_ro, partial_enricher, F_KEYCOPY, 25);
#elif TU == 5
    FM(T_key_ro, total_absorber, F_ALLOC, 40); FM(T_key_cl, total_absorber, F_VALCOPY | F_VALASSIGN | F_VALOP | F_VALCMP, 40);
#elif TU == 6
    FM(T_key, partial_absorber, F_KEYASSIGN, 25); FM(T_key_cl, total_enricher, F_KEYSTEP, 25);
#endif
    return true;
}();
VF_MAIN
