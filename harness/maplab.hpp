// Interval-map laboratory: pointwise model with borders.
#pragma once
#include "setlab.hpp"
#include "kits.hpp"
#include <boost/icl/interval_map.hpp>
#include <boost/icl/split_interval_map.hpp>
#include <array>

namespace vf {
enum MStyle { MJOIN = 0, MSPLIT = 1 };

template <class K> struct MapModel {
    typedef typename K::MV MV;
    uint32_t cov = 0, cut = 0;
    std::array<MV, 20> val{};
    bool has(int i) const { return cov >> i & 1; }
    void put(int i, const MV& v) { cov |= 1u << i; val[i] = v; }
    void del(int i) { cov &= ~(1u << i); val[i] = MV(); }
    void norm(bool joining) {
        if (joining) cut = 0;
        cut &= cov & (cov << 1);
        for (int g = 1; g < 20; ++g) if (has(g) && has(g - 1) && !(val[g] == val[g - 1])) cut |= 1u << g;
    }
    bool same_values(const MapModel& o) const { if (cov != o.cov) return false; for (int i = 0; i < 20; ++i) if (has(i) && !(val[i] == o.val[i])) return false; return true; }
    bool operator==(const MapModel& o) const { return same_values(o) && cut == o.cut; }
    struct Seg { int a, b; MV v; };
    std::vector<Seg> segs() const {
        std::vector<Seg> r;
        for (int i = 0; i < 20; ++i) if (has(i)) {
            if (i == 0 || !has(i - 1) || (cut >> i & 1)) r.push_back(Seg{i, i + 1, val[i]}); else r.back().b = i + 1;
        }
        return r;
    }
    std::string str() const { std::string o = "{"; for (auto& s : segs()) o += "([" + std::to_string(s.a) + "," + std::to_string(s.b) + ")->" + K::str(s.v) + ")"; return o + "}"; }
    uint64_t hash() const { uint64_t h = cov * 2654435761ull + cut; for (auto& s : segs()) h = hash_str(K::str(s.v), h); return h; }
};

// specification --------------------------------------------------------------
template <class K, bool Total, bool Absorb, bool Joining> struct MapSpec {
    typedef MapModel<K> M; typedef typename K::MV MV;
    static bool noop(const MV& v) { return Absorb && v == K::ident(); }
    static void borders(M& m, uint32_t oldcov, int a, int b) { // splitting: operand borders and old/new borders
        if (Joining) return;
        for (int g = 1; g < 20; ++g) if (m.has(g) && m.has(g - 1)) {
            bool l = oldcov >> (g - 1) & 1, r = oldcov >> g & 1;
            if (g == a || g == b || l != r) m.cut |= 1u << g;
        }
    }
    static void settle(M& m, int i) { if (Absorb && m.has(i) && m.val[i] == K::ident()) m.del(i); }
    static void add(M& m, int a, int b, const MV& v) {
        if (a >= b || noop(v)) return;
        uint32_t old = m.cov;
        for (int i = a; i < b; ++i) if (m.has(i)) { K::add(m.val[i], v); settle(m, i); } else m.put(i, v);
        borders(m, old, a, b); m.norm(Joining);
    }
    static void sub(M& m, int a, int b, const MV& v) {
        if (a >= b || noop(v)) return;
        uint32_t old = m.cov;
        for (int i = a; i < b; ++i) {
            if (m.has(i)) { K::inv(m.val[i], v); settle(m, i); }
            else if (Total && K::signed_inverse) m.put(i, K::neg(v));
        }
        borders(m, old, a, b); m.norm(Joining);
    }
    static void insert(M& m, int a, int b, const MV& v) {
        if (a >= b || noop(v)) return;
        uint32_t old = m.cov;
        for (int i = a; i < b; ++i) if (!m.has(i)) m.put(i, v);
        if (!Joining) for (int g = 1; g < 20; ++g) if (m.has(g) && m.has(g - 1) && ((old >> g & 1) != (old >> (g - 1) & 1))) m.cut |= 1u << g;
        m.norm(Joining);
    }
    static void erase(M& m, int a, int b) { for (int i = a; i < b; ++i) m.del(i); m.norm(Joining); }
    static void erase(M& m, uint32_t mask) { for (int i = 0; i < 20; ++i) if (mask >> i & 1) m.del(i); m.norm(Joining); }
    static void erase(M& m, int a, int b, const MV& v) {
        if (noop(v)) return;
        for (int i = a; i < b; ++i) if (m.has(i) && m.val[i] == v) m.del(i);
        m.norm(Joining);
    }
    static void set(M& m, int a, int b, const MV& v) {
        erase(m, a, b); insert(m, a, b, v);
    }
    static void restrict_to(M& m, uint32_t mask, uint32_t cuts) {
        for (int i = 0; i < 20; ++i) if (!(mask >> i & 1)) m.del(i);
        m.cut |= cuts; m.norm(Joining);
    }
    static void inter(M& m, int a, int b, const MV& v) {
        if (Total) { add(m, a, b, v); return; }
        M o; for (int i = a; i < b; ++i) o.put(i, v);
        inter(m, o);
    }
    static void inter(M& m, const M& o) {
        if (Total) { for (auto& s : o.segs()) add(m, s.a, s.b, s.v); return; }
        for (int i = 0; i < 20; ++i) {
            if (!m.has(i)) continue;
            if (!o.has(i)) { m.del(i); continue; }
            if (K::set_like) K::section(m.val[i], o.val[i]); else K::add(m.val[i], o.val[i]);
            settle(m, i);
        }
        m.cut |= o.cut; m.norm(Joining);
    }
    static void zero(M& m) { for (int i = 0; i < 20; ++i) if (m.has(i)) m.val[i] = K::ident(); m.norm(Joining); }
    static void flip1(M& m, int a, int b, const MV& v) { // partial
        if (a >= b) return;
        uint32_t old = m.cov;
        for (int i = a; i < b; ++i) {
            if (!m.has(i)) { if (!noop(v)) m.put(i, v); }
            else if (K::set_like) { MV x = v; K::symdiff(x, m.val[i]); m.val[i] = x; settle(m, i); }
            else { m.val[i] = K::ident(); settle(m, i); }
        }
        borders(m, old, a, b); m.norm(Joining);
    }
    static void flip(M& m, int a, int b, const MV& v) {
        if (!Total) { flip1(m, a, b, v); return; }
        if (Absorb) { m = M(); return; }
        add(m, a, b, v); zero(m);
    }
    static void flip(M& m, const M& o) {
        if (!Total) { for (auto& s : o.segs()) flip1(m, s.a, s.b, s.v); return; }
        if (Absorb) { m = M(); return; }
        add(m, o); zero(m);
    }
    static void add(M& m, const M& o) { for (auto& s : o.segs()) add(m, s.a, s.b, s.v); }
    static void sub(M& m, const M& o) { for (auto& s : o.segs()) sub(m, s.a, s.b, s.v); }
    static void insert(M& m, const M& o) { for (auto& s : o.segs()) insert(m, s.a, s.b, s.v); }
    static void erase(M& m, const M& o) { for (auto& s : o.segs()) erase(m, s.a, s.b, s.v); }
};

template <class D, class K, class Tr, MStyle S> struct MapType;
template <class D, class K, class Tr> struct MapType<D, K, Tr, MJOIN> {
    typedef icl::interval_map<typename D::domain_type, typename K::type, Tr, cmp_of<typename D::interval_type>::template cmp, K::template combine, icl::inter_section, typename D::interval_type> type;
};
template <class D, class K, class Tr> struct MapType<D, K, Tr, MSPLIT> {
    typedef icl::split_interval_map<typename D::domain_type, typename K::type, Tr, cmp_of<typename D::interval_type>::template cmp, K::template combine, icl::inter_section, typename D::interval_type> type;
};

template <class D, class K, class M> MapModel<K> extract_map(const M& s, std::string& bad) {
    MapModel<K> m; int prev = 0; size_t n = 0;
    for (auto it = s.begin(); it != s.end(); ++it) {
        if (++n > 64) { bad = "iteration does not terminate"; return m; }
        int a, b;
        if (!D::decode(it->first, a, b)) { bad = "segment outside every operand: " + D::str(it->first); return m; }
        if (a >= b) { bad = "empty segment " + D::str(it->first); return m; }
        if (a < prev) { bad = "segments overlap or are out of order at " + D::str(it->first); return m; }
        if (a < 0 || b > D::N) { bad = "segment outside the universe " + D::str(it->first); return m; }
        if (a == prev && n > 1) m.cut |= 1u << a;
        typename K::MV v = K::mv(it->second);
        for (int i = a; i < b; ++i) m.put(i, v);
        prev = b;
    }
    return m;
}
template <class D, class K, class M> MapModel<K> extract_map_ok(Case& c, const M& s, const char* where) {
    std::string bad; auto m = extract_map<D, K>(s, bad);
    if (!bad.empty()) c.fail(std::string("structure:") + where, bad);
    return m;
}
} // namespace vf
