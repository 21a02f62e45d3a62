// Interval-set laboratory: bitmask model with segment borders + op machine.
#pragma once
#include "domains.hpp"
#include "cmpof.hpp"
#include <boost/icl/interval_set.hpp>
#include <boost/icl/separate_interval_set.hpp>
#include <boost/icl/split_interval_set.hpp>

namespace vf {

enum Style { JOIN = 0, SEP = 1, SPLIT = 2 };
inline const char* style_name(Style s) { return s == JOIN ? "join" : s == SEP ? "sep" : "split"; }

struct SetModel {
    uint32_t cov = 0, cut = 0; // cut bit g: border between atoms g-1 and g (both covered)
    void norm() { cut &= cov & (cov << 1); }
    bool operator==(const SetModel& o) const { return cov == o.cov && cut == o.cut; }
    std::vector<std::pair<int, int>> segs() const {
        std::vector<std::pair<int, int>> v;
        for (int i = 0; i < 32; ++i) if (cov >> i & 1) {
            if (i == 0 || !(cov >> (i - 1) & 1) || (cut >> i & 1)) v.push_back({i, i + 1}); else v.back().second = i + 1;
        }
        return v;
    }
    std::string str() const {
        std::string o = "{";
        for (auto& s : segs()) o += "[" + std::to_string(s.first) + "," + std::to_string(s.second) + ")";
        return o + "}";
    }
};
inline uint32_t rng_mask(int a, int b) { return b <= a ? 0 : (((1u << b) - 1) & ~((1u << a) - 1)); }

// specification of each operation on the model ---------------------------------
inline void m_add(SetModel& m, Style st, int a, int b) {
    if (a >= b) return;
    uint32_t r = rng_mask(a, b), old = m.cov, oldcut = m.cut;
    if (st == JOIN) { m.cov |= r; m.cut = 0; return; }
    if (st == SEP) {
        int lo = a, hi = b;
        for (auto& s : m.segs()) if (s.first < b && a < s.second) { lo = std::min(lo, s.first); hi = std::max(hi, s.second); }
        m.cov |= r;
        for (int g = lo + 1; g < hi; ++g) m.cut &= ~(1u << g);
        if (lo > 0 && (m.cov >> (lo - 1) & 1)) m.cut |= 1u << lo;
        if (m.cov >> hi & 1) m.cut |= 1u << hi;
        m.norm(); return;
    }
    m.cov |= r;
    for (int g = 1; g < 31; ++g) {
        if (!(m.cov >> g & 1) || !(m.cov >> (g - 1) & 1)) continue;
        bool l = old >> (g - 1) & 1, rr = old >> g & 1;
        bool c = (oldcut >> g & 1) || g == a || g == b || l != rr;
        if (c) m.cut |= 1u << g; else m.cut &= ~(1u << g);
    }
    m.norm();
}
inline void m_sub(SetModel& m, int a, int b) { m.cov &= ~rng_mask(a, b); m.norm(); }
inline void m_and(SetModel& m, int a, int b) { m.cov &= rng_mask(a, b); m.norm(); }
inline void m_flip(SetModel& m, Style st, int a, int b) {
    if (a >= b) return;
    uint32_t r = rng_mask(a, b);
    m.cov ^= r; m.norm();
    if (st != JOIN) { // newly covered ranges are segments of their own
        uint32_t nw = m.cov & r;
        for (int g = 1; g < 31; ++g) if ((m.cov >> g & 1) && (m.cov >> (g - 1) & 1)) {
            bool l = nw >> (g - 1) & 1, rr = nw >> g & 1;
            if (l != rr) m.cut |= 1u << g;
        }
    }
}
inline void m_add(SetModel& m, Style st, const SetModel& o) { for (auto& s : o.segs()) m_add(m, st, s.first, s.second); }
inline void m_sub(SetModel& m, const SetModel& o) { m.cov &= ~o.cov; m.norm(); }
inline void m_and(SetModel& m, Style st, const SetModel& o) {
    uint32_t both = m.cov & o.cov, c = m.cut | o.cut;
    m.cov = both; m.cut = st == JOIN ? 0 : c; m.norm();
}
inline void m_flip(SetModel& m, Style st, const SetModel& o) { for (auto& s : o.segs()) m_flip(m, st, s.first, s.second); }

// ---- real containers ----------------------------------------------------------
template <class D, Style S> struct SetType;
template <class D> using JoinSet = icl::interval_set<typename D::domain_type, cmp_of<typename D::interval_type>::template cmp, typename D::interval_type>;
template <class D> using SepSet = icl::separate_interval_set<typename D::domain_type, cmp_of<typename D::interval_type>::template cmp, typename D::interval_type>;
template <class D> using SplitSet = icl::split_interval_set<typename D::domain_type, cmp_of<typename D::interval_type>::template cmp, typename D::interval_type>;
template <class D> struct SetType<D, JOIN> { typedef JoinSet<D> type; };
template <class D> struct SetType<D, SEP> { typedef SepSet<D> type; };
template <class D> struct SetType<D, SPLIT> { typedef SplitSet<D> type; };

template <class S> struct style_of;
template <class T, template <class> class C, class I, template <class> class A> struct style_of<icl::interval_set<T, C, I, A>> { static constexpr Style value = JOIN; };
template <class T, template <class> class C, class I, template <class> class A> struct style_of<icl::separate_interval_set<T, C, I, A>> { static constexpr Style value = SEP; };
template <class T, template <class> class C, class I, template <class> class A> struct style_of<icl::split_interval_set<T, C, I, A>> { static constexpr Style value = SPLIT; };

// decode a real set; structural violations are reported in 'bad'
template <class D, class S>
SetModel extract(const S& s, std::string& bad) {
    SetModel m; int prev = 0; size_t n = 0;
    for (auto it = s.begin(); it != s.end(); ++it) {
        if (++n > 64) { bad = "iteration does not terminate"; return m; }
        int a, b;
        if (!D::decode(*it, a, b)) { bad = "segment outside every operand: " + D::str(*it); return m; }
        if (a >= b) { bad = "empty segment " + D::str(*it); return m; }
        if (a < prev) { bad = "segments overlap or are out of order at " + D::str(*it); return m; }
        if (a < 0 || b > D::N) { bad = "segment outside the universe " + D::str(*it); return m; }
        if (a == prev && n > 1) m.cut |= 1u << a;
        m.cov |= rng_mask(a, b); prev = b;
    }
    return m;
}
template <class D, class S> SetModel extract_ok(Case& c, const S& s, const char* where) {
    std::string bad; SetModel m = extract<D>(s, bad);
    if (!bad.empty()) c.fail(std::string("structure:") + where, bad);
    return m;
}
template <class D, class S> void random_set(Case& c, S& s, int maxops) {
    int n = c.rng.below(maxops + 1);
    for (int i = 0; i < n; ++i) { int a, b; D::range(c.rng, a, b); if (c.rng.chance(1, 5)) s.subtract(D::make(c.rng, a, b)); else s.add(D::make(c.rng, a, b)); }
}
} // namespace vf
