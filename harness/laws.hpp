// P17: the algebraic laws tabulated in the documentation (semantics.qbk).
#pragma once
#include "observe.hpp"
#include <boost/icl/map.hpp>
#include <boost/icl/set.hpp>

namespace vf {
enum LawEq { LEX, ELEM, DIST };
// judge two results by the library's own equality and by the decoded values
template <class X, class DecLex, class DecElem>
void law(Case& c, const X& l, const X& r, LawEq q, const char* name, bool (*libdist)(const X&, const X&), DecLex dlex, DecElem delem) {
    c.obs(2);
    bool lib = q == LEX ? l == r : q == ELEM ? icl::is_element_equal(l, r) : libdist(l, r);
    bool dec = q == LEX ? dlex(l, r) : delem(l, r);
    if (!lib || !dec) {
        std::ostringstream o; o << name << (q == LEX ? " (==)" : q == ELEM ? " (=e=)" : " (=d=)") << " violated: " << l << "  against  " << r << (lib != dec ? " [equality and decoded value disagree]" : "");
        c.fail(std::string("law:") + name, o.str());
    }
}
template <class D, Style ST> struct SetLaws {
    typedef typename SetType<D, ST>::type S;
    static void L(Case& c, const S& l, const S& r, LawEq q, const char* n) {
        auto x = extract_ok<D>(c, l, n), y = extract_ok<D>(c, r, n); c.obs(2);
        bool lib = q == LEX ? l == r : icl::is_element_equal(l, r), dec = q == LEX ? x == y : x.cov == y.cov;
        if (!lib || !dec) c.fail(std::string("law:") + n, std::string(n) + (q == LEX ? " (==)" : " (=e=)") + " violated: " + x.str() + " against " + y.str() + (lib != dec ? " [equality and decoded value disagree]" : ""));
    }
    static void run(Case& c, int) {
        S a, b, d; auto ma = build_set<D>(c, a); auto mb = c.rng.chance(1, 2) ? build_set<D>(c, b) : build_related<D>(c, b, ma); auto md = c.rng.chance(1, 2) ? build_set<D>(c, d) : build_related<D>(c, d, c.rng.chance(1, 2) ? ma : mb);
        c.say([&](std::ostream& o) { o << "a=" << ma.str() << " b=" << mb.str() << " c=" << md.str(); });
        c.nontrivial = ma.cov && mb.cov; c.see(ma.cov * 31u + ma.cut); c.see(mb.cov * 31u + mb.cut); c.see(md.cov * 31u + md.cut);
        const S e; const LawEq J = ST == SPLIT ? ELEM : LEX, M = ST == JOIN ? LEX : ELEM;
        L(c, a + (b + d), (a + b) + d, LEX, "associativity +"); L(c, a + e, a, LEX, "neutrality +"); L(c, e + a, a, LEX, "neutrality +"); L(c, a + b, b + a, LEX, "commutativity +");
        L(c, a | (b | d), (a | b) | d, LEX, "associativity |"); L(c, a | b, b | a, LEX, "commutativity |");
        L(c, a & (b & d), (a & b) & d, LEX, "associativity &"); L(c, a & b, b & a, LEX, "commutativity &");
        L(c, a - e, a, LEX, "right neutrality -"); L(c, a - a, e, LEX, "inversion -");
        L(c, a + (b & d), (a + b) & (a + d), J, "distributivity +,&"); L(c, a & (b + d), (a & b) + (a & d), J, "distributivity &,+");
        L(c, (a + b) - d, (a - d) + (b - d), J, "right distributivity +,-"); L(c, (a & b) - d, (a - d) & (b - d), LEX, "right distributivity &,-");
        L(c, a - (b + d), (a - b) & (a - d), LEX, "DeMorgan +,&"); L(c, a - (b & d), (a - b) + (a - d), M, "DeMorgan &,+");
        L(c, (a + b) - (a & b), (a - b) + (b - a), LEX, "symmetric difference");
        L(c, a ^ b, (a - b) + (b - a), ELEM, "a ^ b"); L(c, a ^ b, b ^ a, ELEM, "commutativity ^"); L(c, (a ^ b) ^ d, a ^ (b ^ d), ELEM, "associativity ^"); L(c, a ^ a, e, LEX, "inversion ^"); L(c, a ^ e, a, LEX, "neutrality ^");
        L(c, a + a, a, LEX, "idempotence +"); L(c, a & a, a, LEX, "idempotence &"); L(c, a + (a & b), a, ELEM, "absorption"); L(c, a & (a + b), a, ELEM, "absorption");
        c.check(icl::is_element_equal(a, b) == (icl::contains(a, b) && icl::contains(b, a)), "law:antisymmetry", "is_element_equal must be mutual containment");
        c.check(!(icl::contains(a, b) && icl::contains(b, d)) || icl::contains(a, d), "law:transitivity", "contains must be transitive");
        c.check(icl::contains(a + b, a) && icl::contains(a, a & b) && icl::contains(a, a - b), "law:monotonicity", "a+b >= a >= a&b, a-b");
        c.check(icl::intersects(a, b) == !(a & b).empty(), "law:intersects", "intersects(a,b) must be a&b non-empty");
    }
};
template <class D, class K, class Tr, MStyle ST> struct MapLaws {
    typedef typename MapType<D, K, Tr, ST>::type M; typedef MapModel<K> Mod;
    static constexpr bool total = Tr::is_total, absorb = Tr::absorbs_identities, J = ST == MJOIN, sgn = K::signed_inverse, coll = K::set_like;
    static Mod strip(Mod m) { for (int i = 0; i < 20; ++i) if (m.has(i) && m.val[i] == K::ident()) m.del(i); return m; }
    static void L(Case& c, const M& l, const M& r, LawEq q, const char* n) {
        auto x = extract_map_ok<D, K>(c, l, n), y = extract_map_ok<D, K>(c, r, n); c.obs(2);
        bool lib = q == LEX ? l == r : q == ELEM ? icl::is_element_equal(l, r) : icl::is_distinct_equal(l, r);
        bool dec = q == LEX ? x == y : q == ELEM ? x.same_values(y) : strip(x).same_values(strip(y));
        if (!lib || !dec) c.fail(std::string("law:") + n, std::string(n) + (q == LEX ? " (==)" : q == ELEM ? " (=e=)" : " (=d=)") + " violated: " + x.str() + " against " + y.str() + (lib != dec ? " [equality and decoded value disagree]" : ""));
    }
    static void run(Case& c, int) {
        M a, b, d; auto ma = build_map<D, K>(c, a); auto mb = c.rng.chance(1, 2) ? build_map<D, K>(c, b) : build_related_map<D, K>(c, b, ma); auto md = c.rng.chance(1, 2) ? build_map<D, K>(c, d) : build_related_map<D, K>(c, d, c.rng.chance(1, 2) ? ma : mb);
        c.say([&](std::ostream& o) { o << "a=" << ma.str() << " b=" << mb.str() << " c=" << md.str(); });
        c.nontrivial = ma.cov && mb.cov; c.see(ma.hash()); c.see(mb.hash()); c.see(md.hash());
        const M e;
        const LawEq plus = sgn && !J && absorb ? ELEM : LEX;
        L(c, a + (b + d), (a + b) + d, plus, "associativity +"); L(c, a + e, a, LEX, "neutrality +"); L(c, e + a, a, LEX, "neutrality +"); L(c, a + b, b + a, LEX, "commutativity +");
        if (!(sgn && absorb && !total)) L(c, a & (b & d), (a & b) & d, total && absorb ? ELEM : LEX, "associativity &");
        L(c, a & b, b & a, LEX, "commutativity &");
        L(c, a - e, a, LEX, "right neutrality -"); L(c, a - a, e, absorb ? LEX : DIST, "inversion -");
        if (coll && !total) {
            const LawEq S1 = J ? LEX : ELEM, S2 = J ? LEX : ELEM;
            L(c, a + (b & d), (a + b) & (a + d), S1, "distributivity +,&"); L(c, a & (b + d), (a & b) + (a & d), S1, "distributivity &,+");
            L(c, (a + b) - d, (a - d) + (b - d), S2, "right distributivity +,-"); L(c, (a & b) - d, (a - d) & (b - d), LEX, "right distributivity &,-");
            L(c, a - (b + d), (a - b) & (a - d), LEX, "DeMorgan +,&"); L(c, a - (b & d), (a - b) + (a - d), S2, "DeMorgan &,+");
        }
        if ((coll && !total) || (sgn && !total)) L(c, (a + b) - (a & b), (a - b) + (b - a), absorb ? LEX : LEX, "symmetric difference");
        if (sgn && total) { L(c, (e - a) + a, e, absorb ? LEX : DIST, "inverse element"); L(c, (a + b) - (a + b), (a - b) + (b - a), absorb ? LEX : DIST, "symmetric difference"); L(c, a - b, a + (e - b), ELEM, "subtraction adds the inverse"); L(c, (a - b) + b, a, absorb ? ELEM : DIST, "cancellation"); }
        c.check(icl::is_element_equal(a, b) == (icl::contains(a, b) && icl::contains(b, a)), "law:antisymmetry", "is_element_equal must be mutual containment");
        c.check(!(icl::contains(a, b) && icl::contains(b, d)) || icl::contains(a, d), "law:transitivity", "contains must be transitive");
    }
};
} // namespace vf
