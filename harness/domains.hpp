// Domain adaptors: a small universe of atoms <-> real intervals of a real
// interval type.  Decoding reads only lower()/upper()/bounds() of an interval
// and the domain's own operator==; it does not use ICL algorithms.
#pragma once
#include "core.hpp"
#include <boost/icl/interval_map.hpp> // before anything that includes functors.hpp: its templates must see the set operators
#include <boost/icl/interval.hpp>
#include <boost/icl/right_open_interval.hpp>
#include <boost/icl/left_open_interval.hpp>
#include <boost/icl/closed_interval.hpp>
#include <boost/icl/open_interval.hpp>
#include <boost/icl/discrete_interval.hpp>
#include <boost/icl/continuous_interval.hpp>
#include <string>
#include <limits>

namespace icl = boost::icl;

namespace vf {

// ---- conversions coordinate <-> value ---------------------------------------
// at(k), k in [-1, 40]; strictly increasing in the domain's own order
template <class T, long long Base, bool Desc = false>
struct CInt {
    typedef T type; static constexpr bool has_mid = false;
    static T at(int k) { return T(Desc ? Base - k : Base + k); }
    static T mid(int k) { return at(k); }
    static std::string str(const T& v) { return std::to_string((long long)v); }
    static constexpr bool numeric = true;
    static long long num(const T& v) { return (long long)v; }
};
template <class T, bool Desc = false, int Shift = 2>
struct CFloat {
    typedef T type; static constexpr bool has_mid = true;
    static T at(int k) { return (Desc ? T(-1) : T(1)) * (T(k) * T(0.75) - T(Shift)); }
    static T mid(int k) { return (Desc ? T(-1) : T(1)) * (T(k) * T(0.75) + T(0.375) - T(Shift)); }
    static std::string str(const T& v) { return std::to_string((double)v); }
};
template <bool Desc = false>
struct CString {
    typedef std::string type; static constexpr bool has_mid = true;
    static std::string at(int k) { return std::string(1, char(Desc ? 'y' - k : 'b' + k)); }
    static std::string mid(int k) { return std::string(1, char(Desc ? 'y' - k - 1 : 'b' + k)) + "m"; }
    static std::string str(const std::string& v) { return v; }
};

// coordinate Edge is the minimum / maximum of T in the domain's order; nothing lies beyond it
template <class T, bool AtMax, int Edge, bool Desc = false>
struct CEdge {
    typedef T type; static constexpr bool has_mid = false;
    static constexpr int lo = AtMax ? -1 : Edge, hi = AtMax ? Edge : 40;
    static __int128 pos(int k) { __int128 e = (AtMax != Desc) ? __int128(std::numeric_limits<T>::max()) : __int128(std::numeric_limits<T>::min()); return Desc ? e - (k - Edge) : e + (k - Edge); }
    static T at(int k) { if (k < lo || k > hi) { std::fprintf(stderr, "harness: coordinate %d outside the edge domain\n", k); std::abort(); } return T(pos(k)); }
    static T mid(int k) { return at(k); }
    static int index(const T& v) { __int128 d = Desc ? pos(0) - v : __int128(v) - pos(0); return d < lo || d > hi ? -1000 : int(d); }
    static std::string str(const T& v) { return std::to_string(v); }
};
template <class C, class = void> struct conv_range { static constexpr int lo = -1, hi = 40; };
template <class C> struct conv_range<C, decltype(void(C::hi))> { static constexpr int lo = C::lo, hi = C::hi; };

template <class C, class = void> struct has_index { static constexpr bool value = false; };
template <class C> struct has_index<C, decltype(void(&C::index))> { static constexpr bool value = true; };
enum Kind { DiscDyn, DiscRO, DiscLO, DiscCL, DiscOP, ContDyn, ContRO, ContLO };

template <class Conv, class Interval, Kind K>
struct Dom {
    typedef Conv conv; typedef Interval interval_type; typedef typename Conv::type domain_type;
    static constexpr Kind kind = K;
    static constexpr bool discrete = K == DiscDyn || K == DiscRO || K == DiscLO || K == DiscCL || K == DiscOP;
    static constexpr bool dynamic = K == DiscDyn || K == ContDyn;
    static constexpr bool elem_ops = discrete || dynamic;       // element granularity add/erase exist
    static constexpr int N = K == ContDyn ? 13 : 12;

    typedef conv_range<Conv> CR;
    static constexpr bool ok(int k) { return CR::lo <= k && k <= CR::hi; }
    // keys whose singleton is representable
    static constexpr int probe_lo = !discrete ? 0 : std::max(-1, CR::lo + (K == DiscLO || K == DiscOP)), probe_hi = !discrete ? N - 1 : std::min(N, CR::hi - (K == DiscRO || K == DiscOP));
    static int coord(const domain_type& v, int lo = -1, int hi = N + 1) {
        if constexpr (has_index<Conv>::value) { int k = Conv::index(v); return k >= lo && k <= hi ? k : -1000; }
        for (int k = lo; k <= hi; ++k) if (Conv::at(k) == v) return k;
        return -1000;
    }
    template <class I = Interval>
    static typename std::enable_if<Dom<Conv, I, K>::dynamic, I>::type mk(int l, int u, icl::interval_bounds b) { return I(Conv::at(l), Conv::at(u), b); }

    // interval denoting atoms [a,b); random representation where several exist
    static Interval make(Rng& r, int a, int b) {
        if (a >= b) return empty(r);
        if constexpr (K == DiscDyn) {
            int rep = r.below(4);
            if (!ok(a - 1)) rep = rep == 1 ? 2 : rep == 3 ? 0 : rep;
            if (!ok(b)) rep = rep == 0 ? 2 : rep == 3 ? (ok(a - 1) ? 1 : 2) : rep;
            switch (rep) {
                case 0: return Interval(Conv::at(a), Conv::at(b), icl::interval_bounds::right_open());
                case 1: return Interval(Conv::at(a - 1), Conv::at(b - 1), icl::interval_bounds::left_open());
                case 2: return Interval(Conv::at(a), Conv::at(b - 1), icl::interval_bounds::closed());
                default: return Interval(Conv::at(a - 1), Conv::at(b), icl::interval_bounds::open());
            }
        } else if constexpr (K == DiscRO || K == ContRO || K == ContLO) return Interval(Conv::at(a), Conv::at(b));
        else if constexpr (K == DiscLO) return Interval(Conv::at(a - 1), Conv::at(b - 1));
        else if constexpr (K == DiscCL) return Interval(Conv::at(a), Conv::at(b - 1));
        else if constexpr (K == DiscOP) return Interval(Conv::at(a - 1), Conv::at(b));
        else { // ContDyn: even atoms are points, odd atoms open gaps
            bool lc = a % 2 == 0, rc = b % 2 == 1;
            int l = a / 2, u = b / 2; // b even: open at b/2 ; b odd: closed at (b-1)/2
            return Interval(Conv::at(l), Conv::at(u), icl::interval_bounds(icl::bound_type((lc ? 2 : 0) | (rc ? 1 : 0))));
        }
    }
    static Interval empty(Rng& r) {
        int k = r.range(std::max(0, CR::lo), std::min(K == ContDyn ? 5 : 10, CR::hi - 2));
        int sel = r.below(4);
        if (sel == 0) return Interval();
        if constexpr (K == DiscDyn) {
            switch (r.below(5)) {
                case 0: return Interval(Conv::at(k), Conv::at(k), icl::interval_bounds::right_open());
                case 1: return Interval(Conv::at(k), Conv::at(k), icl::interval_bounds::left_open());
                case 2: return Interval(Conv::at(k), Conv::at(k + 1), icl::interval_bounds::open());
                case 3: return Interval(Conv::at(k + 1), Conv::at(k), icl::interval_bounds::closed());
                default: return Interval(Conv::at(k + 2), Conv::at(k), icl::interval_bounds(icl::bound_type(r.below(4))));
            }
        } else if constexpr (K == ContDyn) {
            if (sel == 1) return Interval(Conv::at(k + 1), Conv::at(k), icl::interval_bounds(icl::bound_type(r.below(4))));
            return Interval(Conv::at(k), Conv::at(k), icl::interval_bounds(icl::bound_type(r.below(3))));
        } else if constexpr (K == DiscCL) return Interval(Conv::at(k + 1 + (sel == 1)), Conv::at(k));
        else if constexpr (K == DiscOP) return sel == 1 ? Interval(Conv::at(k), Conv::at(k + 1)) : sel == 2 ? Interval(Conv::at(k), Conv::at(k)) : Interval(Conv::at(k + 2), Conv::at(k));
        else return sel == 1 ? Interval(Conv::at(k + 2), Conv::at(k)) : Interval(Conv::at(k), Conv::at(k));
    }
    // decode to atoms [a,b); returns false if off-universe.  a==b: empty
    static bool decode(const Interval& iv, int& a, int& b) {
        int l = coord(iv.lower()), u = coord(iv.upper());
        if (l == -1000 || u == -1000) return false;
        if constexpr (K == DiscDyn) {
            int bd = iv.bounds().bits();
            a = (bd & 2) ? l : l + 1; b = (bd & 1) ? u + 1 : u;
        } else if constexpr (K == ContDyn) {
            int bd = iv.bounds().bits();
            a = (bd & 2) ? 2 * l : 2 * l + 1; b = (bd & 1) ? 2 * u + 1 : 2 * u;
        } else if constexpr (K == DiscLO) { a = l + 1; b = u + 1; }
        else if constexpr (K == DiscCL) { a = l; b = u + 1; }
        else if constexpr (K == DiscOP) { a = l + 1; b = u; }
        else { a = l; b = u; }
        if (b <= a) { a = b = 0; }
        return true;
    }
    // is this (default-constructed or degenerate) interval empty, by raw bounds?
    static bool raw_empty(const Interval& iv) { int a, b; if (decode(iv, a, b)) return a == b; return default_like(iv); }
    static bool default_like(const Interval& iv) { Interval d; return iv.lower() == d.lower() && iv.upper() == d.upper(); }
    // some element inside the atom
    static domain_type elem(Rng& r, int atom) {
        if constexpr (discrete) return Conv::at(atom);
        else if constexpr (K == ContDyn) return atom % 2 == 0 ? Conv::at(atom / 2) : Conv::mid(atom / 2);
        else if constexpr (K == ContRO) return r.chance(1, 2) ? Conv::at(atom) : Conv::mid(atom);
        else return r.chance(1, 2) ? Conv::at(atom + 1) : Conv::mid(atom);
    }
    // atom of an element whose singleton is exactly one atom (for element-granular mutations)
    static int point_atom(Rng& r) { int n = K == ContDyn ? 7 : N; int k = r.below(n); return K == ContDyn ? 2 * k : k; }
    static std::string str(const Interval& iv) {
        std::string o;
        int bd = 2;
        if constexpr (dynamic) bd = iv.bounds().bits();
        else bd = K == DiscRO || K == ContRO ? 2 : K == DiscLO || K == ContLO ? 1 : K == DiscCL ? 3 : 0;
        return std::string(bd & 2 ? "[" : "(") + Conv::str(iv.lower()) + "," + Conv::str(iv.upper()) + (bd & 1 ? "]" : ")");
    }
    static void range(Rng& r, int& a, int& b) { // biased towards touching / short / long
        int s = r.below(8);
        if (s == 0) { a = r.below(N); b = a + 1; }
        else if (s == 1) { a = r.below(N); b = std::min(N, a + 1 + r.below(3)); }
        else if (s == 2 && r.chance(1, 4)) { a = b = r.below(N); }
        else if (s == 3 && r.chance(1, 6)) { a = 0; b = N; }
        else { a = r.below(N + 1); b = r.below(N + 1); if (a > b) std::swap(a, b); if (a == b) { if (b < N) ++b; else --a; } }
    }
};

// ---- standard domains ---------------------------------------------------------
template <class T> using I_dd = icl::discrete_interval<T>;
template <class T> using I_cd = icl::continuous_interval<T>;
template <class T> using I_ro = icl::right_open_interval<T>;
template <class T> using I_lo = icl::left_open_interval<T>;
template <class T> using I_cl = icl::closed_interval<T>;
template <class T> using I_op = icl::open_interval<T>;

typedef Dom<CInt<int, -5>, I_dd<int>, DiscDyn> D_int;
typedef Dom<CInt<int, -5>, I_ro<int>, DiscRO> D_int_ro;
typedef Dom<CInt<int, -5>, I_lo<int>, DiscLO> D_int_lo;
typedef Dom<CInt<int, -5>, I_cl<int>, DiscCL> D_int_cl;
typedef Dom<CInt<int, -5>, I_op<int>, DiscOP> D_int_op;
typedef Dom<CFloat<double>, I_cd<double>, ContDyn> D_dbl;
typedef Dom<CFloat<double>, I_ro<double>, ContRO> D_dbl_ro;
typedef Dom<CFloat<double>, I_lo<double>, ContLO> D_dbl_lo;
typedef Dom<CFloat<float>, I_cd<float>, ContDyn> D_flt;
typedef Dom<CInt<unsigned, 1>, I_dd<unsigned>, DiscDyn> D_uns;
typedef Dom<CInt<unsigned char, 3>, I_dd<unsigned char>, DiscDyn> D_uc;
typedef Dom<CInt<char, 60>, I_dd<char>, DiscDyn> D_ch;
typedef Dom<CInt<short, -6>, I_dd<short>, DiscDyn> D_sh;
typedef Dom<CInt<long long, 5000000000ll>, I_dd<long long>, DiscDyn> D_ll;
typedef Dom<CInt<unsigned short, 2>, I_cl<unsigned short>, DiscCL> D_us_cl;
typedef Dom<CString<>, I_cd<std::string>, ContDyn> D_str;
typedef Dom<CString<>, I_ro<std::string>, ContRO> D_str_ro;

// descending order
typedef Dom<CInt<int, 6, true>, icl::discrete_interval<int, std::greater>, DiscDyn> G_int;
typedef Dom<CInt<int, 6, true>, icl::right_open_interval<int, std::greater>, DiscRO> G_int_ro;
typedef Dom<CInt<int, 6, true>, icl::left_open_interval<int, std::greater>, DiscLO> G_int_lo;
typedef Dom<CInt<int, 6, true>, icl::closed_interval<int, std::greater>, DiscCL> G_int_cl;
typedef Dom<CInt<int, 6, true>, icl::open_interval<int, std::greater>, DiscOP> G_int_op;
typedef Dom<CFloat<double, true>, icl::continuous_interval<double, std::greater>, ContDyn> G_dbl;
typedef Dom<CFloat<double, true>, icl::right_open_interval<double, std::greater>, ContRO> G_dbl_ro;
typedef Dom<CString<true>, icl::continuous_interval<std::string, std::greater>, ContDyn> G_str;

template <class D> struct comp_of { template <class T> using c = std::less<T>; };
} // namespace vf
