// P15 (hints, bulk, adaptors) and P16 (value semantics, aliasing).
#pragma once
#include "mapmachine.hpp"
#include "setmachine.hpp"
#include "observe.hpp"
#include <boost/icl/iterator.hpp>
#include <boost/icl/split_interval_map.hpp>
#include <iterator>

namespace vf {
template <class S, class It> bool valid_position(const S& s, It it) { for (auto i = s.begin(); i != s.end(); ++i) if (i == It(it)) return true; return it == s.end(); }

// ------------------------------------------------------------------ P15 sets --
template <class D, Style ST> struct SetHint {
    typedef typename SetType<D, ST>::type S; typedef typename D::interval_type I; typedef typename D::domain_type T;
    static void eq(Case& c, const S& s, const SetModel& w, const char* op) {
        SetModel g = extract_ok<D>(c, s, op); c.obs();
        if (!(g == w)) c.fail(op, std::string(op) + ": gives " + g.str() + ", the plain operation gives " + w.str());
    }
    static void covers(Case& c, const S& s, typename S::iterator it, int a, int b, const char* op) {
        c.obs();
        if (!valid_position(s, it)) c.fail(std::string("return:") + op, std::string(op) + " returned an invalid iterator");
        if (a >= b) return;
        int x, y;
        if (it == s.end() || !D::decode(*it, x, y) || !(ST == SPLIT ? x <= b && a <= y : x <= a && b <= y))
            c.fail(std::string("return:") + op, std::string(op) + " returned an iterator to " + (it == s.end() ? std::string("end") : D::str(*it)) + ", not to the segment covering the argument");
    }
    static void run(Case& c, int) {
        S s; build_set<D>(c, s, 9); SetModel m0 = extract_ok<D>(c, s, "build");
        c.nontrivial = m0.cov != 0; c.see(m0.cov * 31u + m0.cut);
        c.say([&](std::ostream& o) { o << style_name(ST) << " set " << m0.str(); });
        for (int k = 0; k < 6; ++k) {
            int a, b; D::range(c.rng, a, b); I iv = D::make(c.rng, a, b); if (a >= b) a = b = 0;
            S plain(s); plain.add(iv); SetModel w = extract_ok<D>(c, plain, "add"), sp = m0; m_add(sp, ST, a, b);
            if (w.cov != sp.cov) continue; // judged by P04
            size_t n = s.iterative_size();
            for (size_t p = 0; p <= n; ++p) {
                c.say([&](std::ostream& o) { o << "hinted " << D::str(iv) << " at position " << p << " of " << n; });
                { S t(s); auto h = t.begin(); std::advance(h, p); auto it = t.add(h, iv); eq(c, t, w, "add(hint, interval)"); covers(c, t, it, a, b, "add(hint, interval)"); }
                { S t(s); auto h = t.begin(); std::advance(h, p); auto it = t.insert(h, iv); eq(c, t, w, "insert(hint, interval)"); covers(c, t, it, a, b, "insert(hint, interval)"); }
                if (p == 0 || p == n) {
                    { S t(s); auto h = t.begin(); std::advance(h, p); auto it = icl::add(t, h, iv); eq(c, t, w, "icl::add(set, hint, interval)"); covers(c, t, it, a, b, "icl::add(set, hint, interval)"); }
                    { S t(s); auto h = t.begin(); std::advance(h, p); auto it = icl::insert(t, h, iv); eq(c, t, w, "icl::insert(set, hint, interval)"); covers(c, t, it, a, b, "icl::insert(set, hint, interval)"); }
                }
            }
            count("hinted operations", n + 1);
        }
        // a chain of hinted additions, each using the previous result
        for (int variant = 0; variant < 3; ++variant) {
            S t(s), u(s); auto h = t.begin(); std::advance(h, c.rng.below(int(t.iterative_size()) + 1));
            std::vector<I> ops; int n = c.rng.range(1, 6);
            for (int i = 0; i < n; ++i) { int a, b; D::range(c.rng, a, b); ops.push_back(D::make(c.rng, a, b)); }
            for (auto& x : ops) u.add(x);
            c.say([&](std::ostream& o) { o << "chain of " << n << ":"; for (auto& x : ops) o << " " << D::str(x); });
            SetModel w = extract_ok<D>(c, u, "chain");
            if (variant == 0) { for (auto& x : ops) h = t.add(h, x); eq(c, t, w, "chain of hinted additions"); }
            else if (variant == 1) { std::copy(ops.begin(), ops.end(), icl::adder(t, h)); eq(c, t, w, "std::copy through adder"); }
            else { std::copy(ops.begin(), ops.end(), icl::inserter(t, h)); eq(c, t, w, "std::copy through inserter"); }
        }
        { // construction
            int a, b; D::range(c.rng, a, b); I iv = D::make(c.rng, a, b); S x(iv); SetModel w; m_add(w, ST, a, b); eq(c, x, w, "construction from an interval");
            if constexpr (D::elem_ops) { int at = D::point_atom(c.rng); S y(D::elem(c.rng, at)); SetModel v; m_add(v, ST, at, at + 1); eq(c, y, v, "construction from an element"); }
        }
        bulk<JOIN>(c, s); bulk<SEP>(c, s); bulk<SPLIT>(c, s);
        eq(c, s, m0, "untouched original");
    }
    template <Style OS> static void bulk(Case& c, const S& s) {
        typename SetType<D, OS>::type o; build_related<D>(c, o, extract_ok<D>(c, s, "build")); const auto& co = o;
        c.say([&](std::ostream& q) { q << "bulk operand " << style_name(OS) << " " << extract_ok<D>(c, o, "build").str(); });
        { S one(s); for (auto& x : co) one.add(x); SetModel w = extract_ok<D>(c, one, "add");
          S t(s); t += co; eq(c, t, w, "set += set"); S i(s); icl::insert(i, co); eq(c, i, w, "insert(set, set)");
          S j(s); std::copy(co.begin(), co.end(), icl::adder(j, j.end())); eq(c, j, w, "std::copy(set) through adder at end");
          S k(s); std::copy(co.begin(), co.end(), icl::adder(k, k.begin())); eq(c, k, w, "std::copy(set) through adder at begin"); 
          S l(s); std::copy(co.begin(), co.end(), icl::inserter(l, l.begin())); eq(c, l, w, "std::copy(set) through inserter at begin"); }
        { S one(s); for (auto& x : co) one.subtract(x); SetModel w = extract_ok<D>(c, one, "subtract"); S t(s); t -= co; eq(c, t, w, "set -= set"); S e(s); icl::erase(e, co); eq(c, e, w, "erase(set, set)"); }
        { S one(s); for (auto& x : co) one.flip(x); SetModel w = extract_ok<D>(c, one, "flip"); S t(s); t ^= co; eq(c, t, w, "set ^= set"); }
        if (OS == ST || ST != JOIN) {}
        { S one; for (auto& x : co) one.add(x); SetModel w = extract_ok<D>(c, co, "build"); if (ST == JOIN) w.cut = 0; // separate/split: segments kept
          S t(co); eq(c, t, w, "construction from a set of any style");
          S u(s); u = co; eq(c, u, w, "assignment from a set of any style"); }
    }
};
// ------------------------------------------------------------------ P15 maps --
template <class D, class K, class Tr, MStyle ST> struct MapHint {
    typedef typename MapType<D, K, Tr, ST>::type M; typedef typename D::interval_type I; typedef typename K::MV MV; typedef MapModel<K> Mod;
    typedef typename M::segment_type Seg; static constexpr bool J = ST == MJOIN;
    typedef MapSpec<K, Tr::is_total, Tr::absorbs_identities, J> Sp;
    static void eq(Case& c, const M& s, const Mod& w, const char* op) {
        Mod g = extract_map_ok<D, K>(c, s, op); c.obs();
        if (!(g == w)) c.fail(op, std::string(op) + ": gives " + g.str() + ", the plain operation gives " + w.str());
    }
    static void covers(Case& c, const M& s, typename M::iterator it, const Mod& w, int a, int b, const MV& v, const char* op) {
        c.obs();
        if (!valid_position(s, it)) c.fail(std::string("return:") + op, std::string(op) + " returned an invalid iterator");
        if (a >= b || Sp::noop(v)) return;
        for (int i = a; i < b; ++i) if (!w.has(i)) return; // partly absorbed: any valid iterator
        int x, y;
        if (it == s.end() || !D::decode(it->first, x, y) || !(x <= b && a <= y))
            c.fail(std::string("return:") + op, std::string(op) + " returned an iterator to " + (it == s.end() ? std::string("end") : D::str(it->first)) + ", not to a segment at the argument");
    }
    static MV rv(Case& c) { return c.rng.chance(1, 7) ? K::ident() : K::rnd(c.rng); }
    static void run(Case& c, int) {
        M s; build_map<D, K>(c, s, 9); Mod m0 = extract_map_ok<D, K>(c, s, "build");
        c.nontrivial = m0.cov != 0; c.see(m0.hash());
        c.say([&](std::ostream& o) { o << "map " << m0.str(); });
        for (int k = 0; k < 6; ++k) {
            int a, b; D::range(c.rng, a, b); I iv = D::make(c.rng, a, b); if (a >= b) a = b = 0; MV v = rv(c); Seg sg(iv, K::real(v));
            M pa(s), pi(s); pa.add(sg); pi.insert(sg); Mod wa = extract_map_ok<D, K>(c, pa, "add"), wi = extract_map_ok<D, K>(c, pi, "insert");
            size_t n = s.iterative_size();
            for (size_t p = 0; p <= n; ++p) {
                c.say([&](std::ostream& o) { o << "hinted (" << D::str(iv) << "->" << K::str(v) << ") at position " << p << " of " << n; });
                { M t(s); auto h = t.begin(); std::advance(h, p); auto it = t.add(h, sg); eq(c, t, wa, "add(hint, segment)"); covers(c, t, it, wa, a, b, v, "add(hint, segment)"); }
                { M t(s); auto h = t.begin(); std::advance(h, p); auto it = t.insert(h, sg); eq(c, t, wi, "insert(hint, segment)"); covers(c, t, it, wi, a, b, v, "insert(hint, segment)"); }
                if (p == 0 || p == n) {
                    { M t(s); auto h = t.begin(); std::advance(h, p); icl::add(t, h, sg); eq(c, t, wa, "icl::add(map, hint, segment)"); }
                    { M t(s); auto h = t.begin(); std::advance(h, p); icl::insert(t, h, sg); eq(c, t, wi, "icl::insert(map, hint, segment)"); }
                }
            }
            count("hinted operations", n + 1);
        }
        for (int variant = 0; variant < 3; ++variant) {
            M t(s), u(s); auto h = t.begin(); std::advance(h, c.rng.below(int(t.iterative_size()) + 1));
            std::vector<Seg> ops; int n = c.rng.range(1, 6);
            for (int i = 0; i < n; ++i) { int a, b; D::range(c.rng, a, b); ops.push_back(Seg(D::make(c.rng, a, b), K::real(rv(c)))); }
            c.say([&](std::ostream& o) { o << "chain of " << n << ":"; for (auto& x : ops) o << " " << D::str(x.first) << "->" << K::str(K::mv(x.second)); });
            if (variant == 2) for (auto& x : ops) u.insert(x); else for (auto& x : ops) u.add(x);
            Mod w = extract_map_ok<D, K>(c, u, "chain");
            if (variant == 0) { for (auto& x : ops) h = t.add(h, x); eq(c, t, w, "chain of hinted additions"); }
            else if (variant == 1) { std::copy(ops.begin(), ops.end(), icl::adder(t, h)); eq(c, t, w, "std::copy through adder"); }
            else { std::copy(ops.begin(), ops.end(), icl::inserter(t, h)); eq(c, t, w, "std::copy through inserter"); }
        }
        { int a, b; D::range(c.rng, a, b); MV v = rv(c); M x(Seg(D::make(c.rng, a, b), K::real(v))); Mod w; Sp::add(w, a, b, v); eq(c, x, w, "construction from a segment");
          if constexpr (D::elem_ops) { int at = D::point_atom(c.rng); M y(typename M::domain_mapping_type(D::elem(c.rng, at), K::real(v))); Mod q; Sp::add(q, at, at + 1, v); eq(c, y, q, "construction from an element"); } }
        bulk<MJOIN>(c, s); bulk<MSPLIT>(c, s);
        eq(c, s, m0, "untouched original");
    }
    template <MStyle OS> static void bulk(Case& c, const M& s) {
        typename MapType<D, K, Tr, OS>::type o; build_related_map<D, K>(c, o, extract_map_ok<D, K>(c, s, "build")); const auto& co = o;
        Mod om = extract_map_ok<D, K>(c, o, "build");
        c.say([&](std::ostream& q) { q << "bulk operand map " << om.str(); });
        { M one(s); for (auto& x : co) one.add(x); Mod w = extract_map_ok<D, K>(c, one, "add");
          M t(s); t += co; eq(c, t, w, "map += map");
          M j(s); std::copy(co.begin(), co.end(), icl::adder(j, j.end())); eq(c, j, w, "std::copy(map) through adder at end");
          M k(s); std::copy(co.begin(), co.end(), icl::adder(k, k.begin())); eq(c, k, w, "std::copy(map) through adder at begin"); }
        { M one(s); for (auto& x : co) one.insert(x); Mod w = extract_map_ok<D, K>(c, one, "insert"); M i(s); icl::insert(i, co); eq(c, i, w, "insert(map, map)");
          M l(s); std::copy(co.begin(), co.end(), icl::inserter(l, l.begin())); eq(c, l, w, "std::copy(map) through inserter"); }
        if constexpr (K::sub) { M one(s); for (auto& x : co) one.subtract(x); Mod w = extract_map_ok<D, K>(c, one, "subtract"); M t(s); t -= co; eq(c, t, w, "map -= map"); }
        { M one(s); for (auto& x : co) one.erase(x); Mod w = extract_map_ok<D, K>(c, one, "erase"); M t(s); icl::erase(t, co); eq(c, t, w, "erase(map, map)"); }
        { Mod w = om; if (J) { w.cut = 0; w.norm(true); }
          M u(s); u = co; eq(c, u, w, "assignment from a map of any style");
          if constexpr (J || OS == ST) { M t(co); eq(c, t, w, "construction from a map of any style"); } }
    }
};

// ------------------------------------------------------------------ P16 --------
template <class D, Style ST> struct SetValue {
    typedef typename SetType<D, ST>::type S; typedef typename D::interval_type I;
    typedef SetHint<D, ST> H;
    static void mutate(Case& c, S& s) { int a, b; D::range(c.rng, a, b); I iv = D::make(c.rng, a, b); switch (c.rng.below(5)) { case 0: s.clear(); break; case 1: s.subtract(iv); break; case 2: s.flip(iv); break; case 3: s &= iv; break; default: s.add(iv); } }
    template <Style OS> static void convert(Case& c, const S& s, const SetModel& m) {
        typedef typename SetType<D, OS>::type O; SetModel w = m; if (OS == JOIN) w.cut = 0;
        auto q = [&](const O& o, const char* op) { SetModel g = extract_ok<D>(c, o, op); c.obs(); if (!(g == w)) c.fail(op, std::string(op) + " gives " + g.str() + ", expected " + w.str()); };
        { O o(s); q(o, "converting construction"); mutate_other(c, o); H::eq(c, s, m, "source of a conversion"); }
        { O o; build_set<D>(c, o); o = s; q(o, "converting assignment"); mutate_other(c, o); H::eq(c, s, m, "source of a conversion"); }
        { O o; build_set<D>(c, o); o.assign(s); q(o, "assign"); mutate_other(c, o); H::eq(c, s, m, "source of a conversion"); S back; back = o; (void)back; }
        { O o(s); S back(o); SetModel v = extract_ok<D>(c, back, "round trip"); c.obs(); if (v.cov != m.cov) c.fail("round trip", "conversion round trip changed the elements"); }
    }
    template <class O> static void mutate_other(Case& c, O& o) { int a, b; D::range(c.rng, a, b); if (c.rng.chance(1, 2)) o.add(D::make(c.rng, a, b)); else o.subtract(D::make(c.rng, a, b)); }
    static void run(Case& c, int) {
        S s; SetModel m = build_set<D>(c, s, 9); c.nontrivial = m.cov != 0; c.see(m.cov * 31u + m.cut);
        c.say([&](std::ostream& o) { o << style_name(ST) << " set " << m.str(); });
        S o; SetModel om = build_related<D>(c, o, m);
        c.say([&](std::ostream& q) { q << "other " << om.str(); });
        { S t(s); H::eq(c, t, m, "copy construction"); mutate(c, t); H::eq(c, s, m, "original after mutating its copy"); }
        { S t(s); SetModel x = m; mutate(c, s); H::eq(c, t, x, "copy after mutating its original"); s = t; H::eq(c, s, m, "copy assignment"); mutate(c, t); H::eq(c, s, m, "assigned after mutating the source"); }
        { S t(o); t = s; H::eq(c, t, m, "copy assignment over a value"); S& r = t; t = r; H::eq(c, t, m, "self assignment"); t = std::move(r); H::eq(c, t, m, "self move assignment"); }
        { S t(s); S u(std::move(t)); H::eq(c, u, m, "move construction"); t = o; H::eq(c, t, om, "assignment to a moved-from set"); H::eq(c, u, m, "move target"); t.clear(); mutate(c, t); }
        { S t(s), u(o); u = std::move(t); H::eq(c, u, m, "move assignment"); t.clear(); H::eq(c, t, SetModel(), "clear of a moved-from set"); t.add(D::make(c.rng, 1, 3)); H::eq(c, u, m, "move target"); }
        { S t(s), u(o); t.swap(u); H::eq(c, t, om, "swap"); H::eq(c, u, m, "swap"); std::swap(t, u); H::eq(c, t, m, "std::swap"); H::eq(c, u, om, "std::swap"); icl::swap(t, u); H::eq(c, t, om, "icl::swap"); H::eq(c, u, m, "icl::swap"); icl::swap(t, u); t.swap(t); H::eq(c, t, m, "self swap"); mutate(c, t); H::eq(c, u, om, "independent after swap"); }
        { S t(s); t.clear(); H::eq(c, t, SetModel(), "clear"); c.check(t.empty() && t.size() == 0 && t.iterative_size() == 0 && t.begin() == t.end(), "clear", "cleared set is not empty"); t.add(D::make(c.rng, 2, 4)); icl::clear(t); H::eq(c, t, SetModel(), "icl::clear"); }
        convert<JOIN>(c, s, m); convert<SEP>(c, s, m); convert<SPLIT>(c, s, m);
        // the operand is the container itself
#define ALIAS(stmt_self, stmt_copy, name) { S x(s), y(s), z(s); c.say([&](std::ostream& q) { q << name << " on itself"; }); { auto& A = x; auto& B = x; (void)B; stmt_self; } { auto& A = y; auto& B = z; (void)B; stmt_copy; } SetModel w = extract_ok<D>(c, y, name); H::eq(c, x, w, name " with itself as operand"); H::eq(c, z, m, "operand"); }
#define AL(stmt, name) ALIAS(stmt, stmt, name)
        AL(A += B, "+="); AL(A |= B, "|="); AL(A -= B, "-="); AL(A &= B, "&="); AL(A ^= B, "^="); AL(icl::insert(A, B), "insert"); AL(icl::erase(A, B), "erase"); AL(icl::flip(A, B), "flip");
        AL(A = A + B, "+"); AL(A = A - B, "-"); AL(A = A & B, "&"); AL(A = A ^ B, "^");
        // the operand is one of the container's own segments
        for (size_t p = 0; p < s.iterative_size(); ++p) {
#define SEGAL(stmt, name) { S x(s), y(s); auto i = x.begin(); std::advance(i, p); auto j = y.begin(); std::advance(j, p); I cp(*j); c.say([&](std::ostream& q) { q << name << " with own segment " << p; }); { auto& A = x; const I& B = *i; stmt; } { auto& A = y; const I& B = cp; stmt; } SetModel w = extract_ok<D>(c, y, name); H::eq(c, x, w, name " with one of its own segments"); }
            SEGAL(A.add(B), "add"); SEGAL(A.subtract(B), "subtract"); SEGAL(A.erase(B), "erase"); SEGAL(A.flip(B), "flip"); SEGAL(A -= B, "-="); SEGAL(A &= B, "&="); SEGAL(A ^= B, "^="); SEGAL(A += B, "+=");
        }
        // mutators return the container itself
        { S t(s); int a, b; D::range(c.rng, a, b); I iv = D::make(c.rng, a, b); c.check(&(t += iv) == &t && &(t -= iv) == &t && &(t &= iv) == &t && &(t ^= iv) == &t && &(t |= iv) == &t && &t.add(iv) == &t && &t.subtract(iv) == &t && &t.erase(iv) == &t && &t.flip(iv) == &t && &(t += o) == &t && &(t -= o) == &t && &(t &= o) == &t && &(t ^= o) == &t, "returned reference", "a mutating operation does not return its own object"); }
        // temporaries: infix with rvalues leaves the named operands alone
        { S r = S(s) + o; S r2 = s + S(o); H::eq(c, r, extract_ok<D>(c, r2, "+"), "S(s) + o against s + S(o)"); S r3 = S(s) - o; S r4 = S(s) & o; S r5 = S(s) ^ o; (void)r3; (void)r4; (void)r5; H::eq(c, s, m, "operand"); H::eq(c, o, om, "operand"); }
    }
#undef AL
#undef ALIAS
#undef SEGAL
};
template <class D, class K, class Tr, MStyle ST> struct MapValue {
    typedef typename MapType<D, K, Tr, ST>::type M; typedef typename D::interval_type I; typedef typename K::MV MV; typedef MapModel<K> Mod; typedef typename M::segment_type Seg;
    typedef MapHint<D, K, Tr, ST> H;
    template <class X> static void mutate(Case& c, X& s) { int a, b; D::range(c.rng, a, b); Seg iv(D::make(c.rng, a, b), K::real(K::rnd(c.rng))); switch (c.rng.below(5)) { case 0: s.clear(); break; case 1: s.erase(iv.first); break; case 2: s.insert(iv); break; case 3: s.set(iv); break; default: s.add(iv); } }
    static void run(Case& c, int) {
        M s; Mod m = build_map<D, K>(c, s, 9); c.nontrivial = m.cov != 0; c.see(m.hash());
        c.say([&](std::ostream& o) { o << "map " << m.str(); });
        M o; Mod om = build_related_map<D, K>(c, o, m);
        c.say([&](std::ostream& q) { q << "other " << om.str(); });
        { M t(s); H::eq(c, t, m, "copy construction"); mutate(c, t); H::eq(c, s, m, "original after mutating its copy"); }
        { M t(s); mutate(c, s); H::eq(c, t, m, "copy after mutating its original"); s = t; H::eq(c, s, m, "copy assignment"); mutate(c, t); H::eq(c, s, m, "assigned after mutating the source"); }
        { M t(o); t = s; H::eq(c, t, m, "copy assignment over a value"); M& r = t; t = r; H::eq(c, t, m, "self assignment"); t = std::move(r); H::eq(c, t, m, "self move assignment"); }
        { M t(s); M u(std::move(t)); H::eq(c, u, m, "move construction"); t = o; H::eq(c, t, om, "assignment to a moved-from map"); H::eq(c, u, m, "move target"); t.clear(); mutate(c, t); }
        { M t(s), u(o); u = std::move(t); H::eq(c, u, m, "move assignment"); t.clear(); H::eq(c, t, Mod(), "clear of a moved-from map"); mutate(c, t); H::eq(c, u, m, "move target"); }
        { M t(s), u(o); t.swap(u); H::eq(c, t, om, "swap"); H::eq(c, u, m, "swap"); std::swap(t, u); H::eq(c, t, m, "std::swap"); H::eq(c, u, om, "std::swap"); icl::swap(t, u); H::eq(c, t, om, "icl::swap"); H::eq(c, u, m, "icl::swap"); icl::swap(t, u); t.swap(t); H::eq(c, t, m, "self swap"); mutate(c, t); H::eq(c, u, om, "independent after swap"); }
        { M t(s); t.clear(); H::eq(c, t, Mod(), "clear"); c.check(t.empty() && t.iterative_size() == 0 && t.begin() == t.end(), "clear", "cleared map is not empty"); mutate(c, t); icl::clear(t); H::eq(c, t, Mod(), "icl::clear"); }
        { typedef typename MapType<D, K, Tr, MSPLIT>::type O; O q; build_map<D, K>(c, q); q = s; Mod g = extract_map_ok<D, K>(c, q, "conversion"); c.obs(); if (!(g == m)) c.fail("conversion to split", "assigning to a split map gives " + g.str() + ", expected " + m.str()); mutate(c, q); H::eq(c, s, m, "source of a conversion"); }
        { typedef typename MapType<D, K, Tr, MJOIN>::type O; Mod w = m; w.norm(true); auto chk = [&](const O& q, const char* n) { Mod g = extract_map_ok<D, K>(c, q, n); c.obs(); if (!(g == w)) c.fail(n, std::string(n) + " gives " + g.str() + ", expected " + w.str()); };
          O q; build_map<D, K>(c, q); q = s; chk(q, "converting assignment"); O p(s); chk(p, "converting construction"); mutate(c, p); mutate(c, q); H::eq(c, s, m, "source of a conversion"); O z; build_map<D, K>(c, z); z.assign(s); chk(z, "assign"); }
#define ALIAS(stmt, name) { M x(s), y(s), z(s); c.say([&](std::ostream& q) { q << name << " on itself"; }); { auto& A = y; auto& B = z; (void)B; stmt; } Mod w = extract_map_ok<D, K>(c, y, name); { auto& A = x; auto& B = x; (void)B; stmt; } H::eq(c, x, w, name " with itself as operand"); H::eq(c, z, m, "operand"); }
        ALIAS(A += B, "+="); ALIAS(A |= B, "|="); ALIAS(A &= B, "&="); ALIAS(A ^= B, "^="); ALIAS(icl::insert(A, B), "insert"); ALIAS(icl::erase(A, B), "erase"); ALIAS(icl::flip(A, B), "flip");
        ALIAS(A = A + B, "+"); ALIAS(A = A & B, "&"); ALIAS(A = A ^ B, "^");
        if constexpr (K::sub) { ALIAS(A -= B, "-="); ALIAS(A = A - B, "-"); }
        for (size_t p = 0; p < s.iterative_size(); ++p) {
#define SEGAL(T, stmt, name, proj) { M x(s), y(s); auto i = x.begin(); std::advance(i, p); auto j = y.begin(); std::advance(j, p); T cp(proj(*j)); c.say([&](std::ostream& q) { q << name << " with own segment " << p; }); { auto& A = y; const T& B = cp; stmt; } { auto& A = x; const T& B = proj(*i); stmt; } Mod w = extract_map_ok<D, K>(c, y, name); H::eq(c, x, w, name " with one of its own segments"); }
#define ID(x) (x)
#define KEY(x) ((x).first)
            typedef typename M::value_type VT;
            SEGAL(VT, A.add(B), "add", ID); SEGAL(VT, A.insert(B), "insert", ID); SEGAL(VT, A.set(B), "set", ID); SEGAL(VT, A.erase(B), "erase", ID); SEGAL(VT, A.flip(B), "flip", ID); SEGAL(VT, A &= B, "&=", ID); SEGAL(VT, A += B, "+=", ID);
            if constexpr (K::sub) { SEGAL(VT, A.subtract(B), "subtract", ID); SEGAL(VT, A -= B, "-=", ID); }
            SEGAL(I, A.erase(B), "erase key", KEY); SEGAL(I, A -= B, "-= key", KEY); SEGAL(I, A &= B, "&= key", KEY);
        }
        { M t(s); int a, b; D::range(c.rng, a, b); Seg iv(D::make(c.rng, a, b), K::real(K::rnd(c.rng))); c.check(&(t += iv) == &t && &(t &= iv) == &t && &(t ^= iv) == &t && &(t |= iv) == &t && &t.add(iv) == &t && &t.erase(iv) == &t && &t.flip(iv) == &t && &t.set(iv) == &t && &t.insert(iv) == &t && &(t += o) == &t && &(t &= o) == &t && &(t ^= o) == &t, "returned reference", "a mutating operation does not return its own object"); }
        { M r = M(s) + o; Mod w = extract_map_ok<D, K>(c, r, "+"); M r2(s); r2 += o; H::eq(c, r2, w, "M(s) + o against s += o"); M r4 = M(s) & o; M r5 = M(s) ^ o; (void)r4; (void)r5; H::eq(c, s, m, "operand"); H::eq(c, o, om, "operand"); }
    }
#undef ALIAS
#undef SEGAL
#undef ID
#undef KEY
};
} // namespace vf
