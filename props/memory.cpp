#include "../harness/memory.hpp"
#include "../harness/observe2.hpp"
using namespace vf;
template <class D> void SM(const char* d, int q) {
    std::string n = std::string("set-history/") + d;
    reg(n + "/join", q, q * 20, mem_set<D, JOIN>); reg(n + "/sep", q, q * 20, mem_set<D, SEP>); reg(n + "/split", q, q * 20, mem_set<D, SPLIT>);
}
template <class D, class K, class Tr> void MM(const char* d, const char* t, int q) {
    std::string n = std::string("map-history/") + d + "/" + K::name + "/" + t;
    reg(n + "/join", q, q * 20, mem_map<D, K, Tr, MJOIN>); reg(n + "/split", q, q * 20, mem_map<D, K, Tr, MSPLIT>);
}
template <class D> void SV(const char* d, int q) {
    std::string n = std::string("set-value/") + d;
    reg(n + "/join", q, q * 20, mem_setval<D, JOIN>); reg(n + "/sep", q, q * 20, mem_setval<D, SEP>); reg(n + "/split", q, q * 20, mem_setval<D, SPLIT>);
    n = std::string("set-hint/") + d;
    reg(n + "/join", q, q * 20, mem_sethint<D, JOIN>); reg(n + "/sep", q, q * 20, mem_sethint<D, SEP>); reg(n + "/split", q, q * 20, mem_sethint<D, SPLIT>);
}
template <class D, class K, class Tr> void MV_(const char* d, const char* t, int q) {
    std::string n = std::string("map-value/") + d + "/" + K::name + "/" + t;
    reg(n + "/join", q, q * 20, mem_mapval<D, K, Tr, MJOIN>); reg(n + "/split", q, q * 20, mem_mapval<D, K, Tr, MSPLIT>);
    n = std::string("map-hint/") + d + "/" + K::name + "/" + t;
    reg(n + "/join", q, q * 20, mem_maphint<D, K, Tr, MJOIN>); reg(n + "/split", q, q * 20, mem_maphint<D, K, Tr, MSPLIT>);
}
template <class D> void SS(const char* d, int q) {
    std::string n = std::string("set-stability/") + d;
    reg(n + "/join", q, q * 20, stable_set<D, JOIN>); reg(n + "/sep", q, q * 20, stable_set<D, SEP>); reg(n + "/split", q, q * 20, stable_set<D, SPLIT>);
}
template <class D, class K, class Tr> void MS(const char* d, const char* t, int q) {
    std::string n = std::string("map-stability/") + d + "/" + K::name + "/" + t;
    reg(n + "/join", q, q * 20, stable_map<D, K, Tr, MJOIN>); reg(n + "/split", q, q * 20, stable_map<D, K, Tr, MSPLIT>);
}
#define S1(F, D, q) F<D>(#D, q)
#define M1(F, D, K, Tr, q) F<D, K, icl::Tr>(#D, #Tr, q)
static bool init = [] {
#if TU == 0
    S1(SM, T_key, 600);
#elif TU == 1
    M1(MM, T_key, KObj, partial_absorber, 400); M1(MM, T_key_ro, KObj, partial_enricher, 300);
#elif TU == 2
    M1(MM, T_key_cl, KObj, total_absorber, 300); M1(MM, T_key, KObj, total_enricher, 300);
#elif TU == 3
    S1(SV, T_key, 60); 
#elif TU == 4
    M1(MV_, T_key, KObj, partial_absorber, 60); M1(MV_, T_key_ro, KObj, total_enricher, 50);
#elif TU == 5
    S1(SS, D_int, 1000); S1(SS, D_dbl, 600); M1(MS, D_int, KPlus<int>, partial_absorber, 800); M1(MS, D_dbl, KString, partial_enricher, 500); M1(MS, D_int_ro, KPlus<int>, total_enricher, 500); M1(MS, D_int, KSet, partial_absorber, 300);
#elif TU == 6
    M1(MM, D_int_ro, KSet, partial_absorber, 400); M1(MM, D_str, KString, partial_enricher, 300); S1(SM, D_str, 600);
#elif TU == 8 // under valgrind
    S1(SM, D_int, 60); M1(MM, D_int, KPlus<int>, partial_absorber, 40); M1(MM, D_dbl, KDouble, total_enricher, 40); S1(SV, D_int, 4); S1(SS, D_dbl, 30);
#elif TU == 9
    S1(SM, D_str, 60); M1(MM, D_int_ro, KSet, partial_enricher, 30); M1(MV_, D_int, KString, partial_absorber, 3);
#elif TU == 7
    M1(MM, D_int, KISet, partial_enricher, 200); S1(SM, D_int, 800);
#endif
    return true;
}();
VF_MAIN
