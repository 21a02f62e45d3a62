// Codomain kits: a model value type (MV), its conversion to the real codomain
// type, and the specification of the combiner, its inverse and the section.
#pragma once
#include "core.hpp"
#include <boost/icl/functors.hpp>
#include <boost/icl/map.hpp>
#include <boost/icl/interval_set.hpp>
#include <set>
#include <string>

namespace vf {
// K::type real codomain; K::MV model value; ident() ; rnd() ; real() ; mv()
template <class T, int Lo, int Hi> struct IntVals {
    typedef T type; typedef long long MV;
    static MV ident() { return 0; }
    static MV rnd(Rng& r) { return r.range(Lo, Hi); }
    static T real(MV v) { return T(v); }
    static MV mv(const T& v) { return (MV)v; }
    static MV wrap(MV v) { return (MV)T(v); }
    static std::string str(MV v) { return std::to_string(v); }
    static constexpr bool set_like = false;
    static void section(MV&, MV) {}
    static void symdiff(MV&, MV) {}
};
template <class T> struct KPlus : IntVals<T, std::is_signed<T>::value ? -2 : 0, 3> {
    typedef IntVals<T, std::is_signed<T>::value ? -2 : 0, 3> B; typedef typename B::MV MV;
    template <class X> using combine = icl::inplace_plus<X>;
    static constexpr const char* name = "plus";
    static constexpr bool sub = true, signed_inverse = std::is_signed<T>::value, total_ok = true;
    static void add(MV& m, MV v) { m = B::wrap(m + v); }
    static void inv(MV& m, MV v) { m = B::wrap(m - v); }
    static MV neg(MV v) { return B::wrap(-v); }
};
template <class T> struct KMax : IntVals<T, -3, 3> {
    typedef IntVals<T, -3, 3> B; typedef typename B::MV MV;
    template <class X> using combine = icl::inplace_max<X>;
    static constexpr const char* name = "max";
    static constexpr bool sub = true, signed_inverse = false, total_ok = false;
    static void add(MV& m, MV v) { if (m < v) m = v; }
    static void inv(MV& m, MV v) { if (m > v) m = v; }
    static MV neg(MV v) { return v; }
};
template <class T> struct KMin : IntVals<T, -3, 3> {
    typedef IntVals<T, -3, 3> B; typedef typename B::MV MV;
    template <class X> using combine = icl::inplace_min<X>;
    static constexpr const char* name = "min";
    static constexpr bool sub = true, signed_inverse = false, total_ok = false;
    static void add(MV& m, MV v) { if (m > v) m = v; }
    static void inv(MV& m, MV v) { if (m < v) m = v; }
    static MV neg(MV v) { return v; }
};
struct KOr : IntVals<unsigned, 0, 7> {
    template <class X> using combine = icl::inplace_bit_add<X>;
    static constexpr const char* name = "bitor";
    static constexpr bool sub = true, signed_inverse = false, total_ok = true;
    static void add(MV& m, MV v) { m |= v; }
    static void inv(MV& m, MV v) { m &= ~v; }
    static MV neg(MV v) { return v; }
};
struct KXor : IntVals<unsigned, 0, 7> {
    template <class X> using combine = icl::inplace_bit_xor<X>;
    static constexpr const char* name = "bitxor";
    static constexpr bool sub = true, signed_inverse = false, total_ok = true;
    static void add(MV& m, MV v) { m ^= v; }
    static void inv(MV& m, MV v) { m &= v; }
    static MV neg(MV v) { return v; }
};
struct KAnd : IntVals<unsigned, 0, 7> {
    template <class X> using combine = icl::inplace_bit_and<X>;
    static constexpr const char* name = "bitand";
    static constexpr bool sub = true, signed_inverse = false, total_ok = false;
    static void add(MV& m, MV v) { m &= v; }
    static void inv(MV& m, MV v) { m ^= v; }
    static MV neg(MV v) { return v; }
};
struct KStar : IntVals<long long, 1, 3> {
    static MV rnd(Rng& r) { return r.chance(1, 6) ? -1 : r.range(1, 2); }
    template <class X> using combine = icl::inplace_star<X>;
    static constexpr const char* name = "star";
    static constexpr bool sub = false, signed_inverse = false, total_ok = false;
    static void add(MV& m, MV v) { m = (long long)((unsigned long long)m * (unsigned long long)v); if (m > (1ll << 40) || m < -(1ll << 40)) m = 1; }
    static void inv(MV&, MV) {}
    static MV neg(MV v) { return v; }
};
struct KIdent : IntVals<int, -2, 3> {
    template <class X> using combine = icl::inplace_identity<X>;
    static constexpr const char* name = "identity";
    static constexpr bool sub = true, signed_inverse = false, total_ok = false;
    static void add(MV&, MV) {}
    static void inv(MV& m, MV v) { if (m == v) m = 0; }
    static MV neg(MV v) { return v; }
};
struct KDouble {
    typedef double type; typedef double MV;
    static MV ident() { return 0; }
    static MV rnd(Rng& r) { return r.range(-4, 4) * 0.5; }
    static double real(MV v) { return v; }
    static MV mv(double v) { return v; }
    static std::string str(MV v) { return std::to_string(v); }
    static constexpr bool set_like = false;
    static void section(MV&, MV) {}
    static void symdiff(MV&, MV) {}
    template <class X> using combine = icl::inplace_plus<X>;
    static constexpr const char* name = "plus-double";
    static constexpr bool sub = true, signed_inverse = true, total_ok = true;
    static void add(MV& m, MV v) { m += v; }
    static void inv(MV& m, MV v) { m -= v; }
    static MV neg(MV v) { return -v; }
};
struct KString { // concatenation: order of combination is visible
    typedef std::string type; typedef std::string MV;
    static MV ident() { return ""; }
    static MV rnd(Rng& r) { return r.chance(1, 8) ? std::string() : std::string(1, char('a' + r.below(3))); }
    static std::string real(const MV& v) { return v; }
    static MV mv(const std::string& v) { return v; }
    static std::string str(const MV& v) { return "'" + v + "'"; }
    static constexpr bool set_like = false;
    static void section(MV&, const MV&) {}
    static void symdiff(MV&, const MV&) {}
    template <class X> using combine = icl::inplace_plus<X>;
    static constexpr const char* name = "concat";
    static constexpr bool sub = false, signed_inverse = false, total_ok = true;
    static void add(MV& m, const MV& v) { m += v; }
    static void inv(MV&, const MV&) {}
    static MV neg(const MV& v) { return v; }
};
struct SetVals {
    typedef unsigned MV;
    static MV ident() { return 0; }
    static MV rnd(Rng& r) { return r.chance(1, 8) ? 0u : unsigned(r.below(8)); }
    static std::string str(MV v) { std::string o = "{"; for (int i = 0; i < 3; ++i) if (v >> i & 1) o += char('a' + i); return o + "}"; }
    static constexpr bool set_like = true;
    static void section(MV& m, MV v) { m &= v; }
    static void symdiff(MV& m, MV v) { m ^= v; }
    static constexpr bool sub = true, signed_inverse = false, total_ok = true;
    static MV neg(MV v) { return v; }
};
struct KSet : SetVals { // std::set, union / difference
    typedef std::set<int> type;
    template <class X> using combine = icl::inplace_plus<X>;
    static constexpr const char* name = "set-union";
    static type real(MV v) { type s; for (int i = 0; i < 3; ++i) if (v >> i & 1) s.insert(i + 1); return s; }
    static MV mv(const type& s) { MV v = 0; for (int x : s) { if (x < 1 || x > 3) return 64; v |= 1u << (x - 1); } return v; }
    static void add(MV& m, MV v) { m |= v; }
    static void inv(MV& m, MV v) { m &= ~v; }
};
struct KSetEt : KSet { // intersection as combiner, inverse is symmetric difference
    template <class X> using combine = icl::inplace_et<X>;
    static constexpr const char* name = "set-et";
    static constexpr bool total_ok = false;
    static void add(MV& m, MV v) { m &= v; }
    static void inv(MV& m, MV v) { m ^= v; }
};
struct KISet : SetVals { // interval_set as codomain
    typedef icl::interval_set<int> type; typedef icl::discrete_interval<int> I;
    template <class X> using combine = icl::inplace_plus<X>;
    static constexpr const char* name = "interval-set";
    static type real(MV v) { type s; for (int i = 0; i < 3; ++i) if (v >> i & 1) s.add(I::right_open(i, i + 1)); return s; }
    static MV mv(const type& s) { MV v = 0; for (auto& iv : s) { int a = iv.lower() + !(iv.bounds().bits() & 2), b = iv.upper() + (iv.bounds().bits() & 1); if (a < 0 || b > 3 || a >= b) return 64; for (int i = a; i < b; ++i) v |= 1u << i; } return v; }
    static void add(MV& m, MV v) { m |= v; }
    static void inv(MV& m, MV v) { m &= ~v; }
};
} // namespace vf
