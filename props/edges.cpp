#include "../harness/observe2.hpp"
#include "../harness/setmachine.hpp"
#include "../harness/mapmachine.hpp"
using namespace vf;
typedef unsigned char uc; typedef signed char sc; typedef unsigned long long ull; typedef long long ll;
// E_<type><kind>_<min|max>: the 12 atoms are the smallest / largest elements an interval of this kind can denote
#define DOM(name, T, I, K, lo, hi) \
    typedef Dom<CEdge<T, false, lo>, I<T>, K> E_##name##_min; typedef Dom<CEdge<T, true, hi>, I<T>, K> E_##name##_max; \
    typedef Dom<CEdge<T, false, lo, true>, icl::I<T, std::greater>, K> E_##name##_gmin; typedef Dom<CEdge<T, true, hi, true>, icl::I<T, std::greater>, K> E_##name##_gmax;
using icl::discrete_interval; using icl::closed_interval; using icl::right_open_interval; using icl::left_open_interval; using icl::open_interval;
#define ALLK(T) DOM(T##_dyn, T, discrete_interval, DiscDyn, 0, 11) DOM(T##_cl, T, closed_interval, DiscCL, 0, 11) \
    DOM(T##_ro, T, right_open_interval, DiscRO, 0, 12) DOM(T##_lo, T, left_open_interval, DiscLO, -1, 11) DOM(T##_op, T, open_interval, DiscOP, -1, 12)
ALLK(uc) ALLK(sc) ALLK(int) ALLK(unsigned) ALLK(ull) ALLK(ll)
template <class D, Style ST> void obs_set(const std::string& n, int q) {
    std::string s = std::string(style_name(ST));
    reg(n + s + "/predicates", q, q * 20, SetPred<D, ST>::run); reg(n + s + "/find", q, q * 20, SetFind<D, ST>::run);
    reg(n + s + "/size", q, q * 20, SetSize<D, ST>::run); reg(n + s + "/iterate", q, q * 20, SetIter<D, ST>::run); reg(n + s + "/order", q, q * 20, SetOrd<D, ST>::run);
}
template <class D, class K, class Tr, MStyle ST> void obs_map(const std::string& n, int q) {
    reg(n + "/predicates", q, q * 20, MapPred<D, K, Tr, ST>::run); reg(n + "/find", q, q * 20, MapFind<D, K, Tr, ST>::run);
    reg(n + "/size", q, q * 20, MapSize<D, K, Tr, ST>::run); reg(n + "/iterate", q, q * 20, MapIter<D, K, Tr, ST>::run);
}
template <class D> void all_sets(const char* d, int q) {
    reg_sets<D, V_CUT>(d, q, q * 20); std::string n = std::string("set/") + d + "/";
    obs_set<D, JOIN>(n, q); obs_set<D, SPLIT>(n, q);
}
template <class D> void all_maps(const char* d, int q) {
    reg_maps<D, KPlus<int>, 6>(d, q, q * 20);
    obs_map<D, KPlus<int>, icl::partial_absorber, MJOIN>(std::string("map/") + d + "/join", q); obs_map<D, KPlus<int>, icl::partial_enricher, MSPLIT>(std::string("map/") + d + "/split", q);
}
#define S(D) all_sets<E_##D>(#D, 300)
#define M(D) all_maps<E_##D>(#D, 150)
static bool init = [] {
#if TU == 0
    S(uc_dyn_min); S(uc_dyn_max); S(int_cl_max);
#elif TU == 1
    S(int_dyn_min); S(int_dyn_max); S(uc_cl_min);
#elif TU == 2
    S(ull_dyn_max); S(unsigned_op_min); S(uc_cl_max);
#elif TU == 3
    S(unsigned_ro_min); S(uc_lo_max); S(unsigned_lo_min);
#elif TU == 4
    S(int_op_max); S(int_lo_min); S(sc_ro_max);
#elif TU == 5
    S(unsigned_dyn_gmin); S(unsigned_dyn_gmax); S(int_cl_gmin);
#elif TU == 6
    S(uc_ro_gmin); S(uc_lo_gmax); S(unsigned_cl_gmax);
#elif TU == 7
    M(uc_dyn_min); M(uc_dyn_max);
#elif TU == 8
    M(int_dyn_max); M(unsigned_cl_max);
#elif TU == 9
    M(int_dyn_min); M(ull_cl_min);
#elif TU == 10
    M(unsigned_ro_min); M(sc_lo_max);
#elif TU == 11
    M(unsigned_dyn_gmin); M(uc_dyn_gmax);
#elif TU == 12
    M(unsigned_lo_min); M(int_op_max);
#elif TU == 13
    S(ll_dyn_min); S(ll_dyn_max);
#endif
    return true;
}();
VF_MAIN
