// P20: const operations on shared containers from several threads, and threads
// that mutate only their own containers while sharing const operands.  Race
// detection is ThreadSanitizer's; results are compared with a sequential run
// made after the threads, so that first uses happen concurrently.
#pragma once
#include "observe.hpp"
#include <boost/icl/split_interval_map.hpp>
#include <thread>
#include <atomic>

namespace vf {
typedef std::vector<std::pair<const char*, std::function<std::string()>>> Ops;
struct Gate { std::atomic<int> in{0}; int n; explicit Gate(int k) : n(k) {} void wait() { in.fetch_add(1); while (in.load() < n) sched_yield(); } };
// every thread runs all operations once, each in its own order
inline void race(Case& c, const Ops& ops, int nthreads) {
    Gate gate(nthreads); std::atomic<unsigned> tick{0};
    size_t n = ops.size();
    std::vector<std::vector<std::string>> got(nthreads, std::vector<std::string>(n));
    std::vector<std::vector<unsigned>> stamp(nthreads); std::vector<std::vector<int>> order(nthreads);
    for (int t = 0; t < nthreads; ++t) {
        stamp[t].resize(n);
        for (size_t i = 0; i < n; ++i) order[t].push_back(int(i));
        if (t) for (size_t i = n; i > 1; --i) std::swap(order[t][i - 1], order[t][c.rng.below(int(i))]);
        if (c.rng.chance(1, 3)) order[t] = order[0]; // some threads in lock step
    }
    std::vector<unsigned> pause(nthreads); for (auto& p : pause) p = unsigned(c.rng.below(4));
    std::vector<std::thread> th; std::vector<std::string> bad(nthreads);
    for (int t = 0; t < nthreads; ++t) th.emplace_back([&, t] {
        gate.wait();
        for (size_t i = 0; i < n; ++i) {
            stamp[t][i] = tick.fetch_add(1, std::memory_order_relaxed);
            if (pause[t] && i % 4 < pause[t]) sched_yield();
            try { got[t][order[t][i]] = ops[order[t][i]].second(); }
            catch (CaseFail& f) { bad[t] = f.tag + " in " + ops[order[t][i]].first + ": " + f.msg; return; }
        }
    });
    for (auto& t : th) t.join();
    for (auto& b : bad) if (!b.empty()) c.fail("threads:exception", b);
    // the interleaving actually seen
    std::vector<std::pair<unsigned, int>> seq; unsigned sw = 0;
    for (int t = 0; t < nthreads; ++t) for (unsigned s : stamp[t]) seq.push_back({s, t});
    std::sort(seq.begin(), seq.end());
    for (size_t i = 0; i < seq.size(); ++i) { c.see(seq[i].second); if (i && seq[i].second != seq[i - 1].second) ++sw; }
    count("operations run concurrently", seq.size()); count("thread switches seen", sw);
    if (sw > unsigned(nthreads)) c.nontrivial = true;
    for (size_t i = 0; i < n; ++i) {
        std::string want = ops[i].second();
        for (int t = 0; t < nthreads; ++t) { c.obs(); if (got[t][i] != want) c.fail(std::string("threads:result:") + ops[i].first, std::string(ops[i].first) + " gave '" + got[t][i] + "' in a thread, '" + want + "' sequentially"); }
    }
}
template <class T> std::string show(const T& v) { std::ostringstream o; o << v; return o.str(); }
template <class D, class S> std::string dset(const S& s) { std::string bad; auto m = extract<D>(s, bad); return m.str() + bad; }
template <class D, class K, class S> std::string dmap(const S& s) { std::string bad; auto m = extract_map<D, K>(s, bad); return m.str() + bad; }

template <class D, Style ST> void thread_set(Case& c, int) {
    typedef typename SetType<D, ST>::type S; typedef typename SetType<D, SPLIT>::type O; typedef typename SetType<D, JOIN>::type J; typedef typename D::interval_type I; typedef typename D::domain_type T;
    S s0; auto m = build_set<D>(c, s0, 9); O o0; build_related<D>(c, o0, m); S q0; build_related<D>(c, q0, m);
    const S& s = s0; const O& o = o0; const S& q = q0;
    c.say([&](std::ostream& z) { z << style_name(ST) << " set " << m.str(); });
    int a, b; D::range(c.rng, a, b); if (a == b) { a = 1; b = 3; } const I iv = D::make(c.rng, a, b); const T e = D::elem(c.rng, D::point_atom(c.rng));
    Ops ops;
#define Q(name, expr) ops.push_back({name, [&]() -> std::string { return show(expr); }});
#define R(name, expr) ops.push_back({name, [&]() -> std::string { return dset<D>(expr); }});
#define M(name, stmt) ops.push_back({name, [&]() -> std::string { S x(s); stmt; return dset<D>(x); }});
    Q("contains element", icl::contains(s, e)) Q("contains interval", icl::contains(s, iv)) Q("contains set", icl::contains(s, o)) Q("within", icl::within(q, s)) Q("intersects interval", icl::intersects(s, iv)) Q("intersects set", icl::intersects(s, o)) Q("disjoint", icl::disjoint(s, q))
    if constexpr (D::elem_ops) { Q("find element", std::distance(s.begin(), s.find(e))) }
    Q("find interval", std::distance(s.begin(), s.find(iv))) Q("lower_bound", std::distance(s.begin(), s.lower_bound(iv))) Q("equal_range", std::distance(s.equal_range(iv).first, s.equal_range(iv).second))
    Q("==", s == q) Q("<", s < q) Q("element equal", icl::is_element_equal(s, o)) Q("element less", icl::is_element_less(s, q)) Q("inclusion_compare", icl::inclusion_compare(s, q))
    Q("length", icl::interval_count(s)) Q("iterative_size", s.iterative_size()) Q("empty", s.empty()) Q("is_empty", icl::is_empty(s))
    if constexpr (D::discrete) { Q("size", icl::size(s)) Q("cardinality", icl::cardinality(s)) Q("elements", [&] { std::string r; for (auto it = icl::elements_begin(s); it != icl::elements_end(s); ++it) r += D::conv::str(*it); for (auto it = icl::elements_rbegin(s); it != icl::elements_rend(s); ++it) r += D::conv::str(*it); return r; }()) }
    Q("hull", D::str(icl::hull(s))) Q("lower", D::conv::str(icl::lower(s))) Q("upper", D::conv::str(icl::upper(s)))
    if constexpr (D::discrete) { Q("first", D::conv::str(icl::first(s))) Q("last", D::conv::str(icl::last(s))) }
    Q("segments", [&] { std::string r; for (auto it = s.rbegin(); it != s.rend(); ++it) r += D::str(*it); return r; }()) Q("stream", s)
    R("copy", S(s)) R("convert", J(s)) R("+", s + o) R("-", s - o) R("&", s & o) R("^", s ^ o) R("+ interval", s + iv) R("- interval", s - iv) R("& interval", s & iv) R("^ interval", s ^ iv)
    M("own add", x.add(iv)) M("own subtract", x.subtract(iv)) M("own flip", x.flip(iv)) M("own +=", x += o) M("own -=", x -= o) M("own &=", x &= o) M("own ^=", x ^= o) M("own assign", x = q) M("own clear", x.clear(); x.add(iv)) M("own swap", S y(q); x.swap(y)) M("own hinted", x.add(x.begin(), iv)) M("own self", x ^= x; x += q)
    if constexpr (D::elem_ops) { M("own element", x += e) M("own element erase", x -= e) }
#undef Q
#undef R
#undef M
    race(c, ops, 2 + c.rng.below(4));
    c.check(dset<D>(s) == m.str(), "threads:operand", "the shared container changed");
}
template <class D, class K, class Tr, MStyle ST> void thread_map(Case& c, int) {
    typedef typename MapType<D, K, Tr, ST>::type S; typedef typename MapType<D, K, Tr, MSPLIT>::type O; typedef typename SetType<D, JOIN>::type J; typedef typename D::interval_type I; typedef typename D::domain_type T; typedef typename S::segment_type Seg;
    S s0; auto m = build_map<D, K>(c, s0, 9); O o0; build_related_map<D, K>(c, o0, m); S q0; build_related_map<D, K>(c, q0, m); J k0; build_set<D>(c, k0, 5);
    const S& s = s0; const O& o = o0; const S& q = q0; const J& ks = k0;
    c.say([&](std::ostream& z) { z << "map " << m.str(); });
    int a, b; D::range(c.rng, a, b); if (a == b) { a = 1; b = 3; } const I iv = D::make(c.rng, a, b); const T e = D::elem(c.rng, D::point_atom(c.rng)); const typename K::type val = K::real(K::rnd(c.rng)); const Seg seg(iv, val);
    auto V = [](const typename K::type& v) { return K::str(K::mv(v)); };
    Ops ops;
#define Q(name, expr) ops.push_back({name, [&]() -> std::string { return show(expr); }});
#define R(name, expr) ops.push_back({name, [&]() -> std::string { return dmap<D, K>(expr); }});
#define M(name, stmt) ops.push_back({name, [&]() -> std::string { S x(s); stmt; return dmap<D, K>(x); }});
    Q("contains key", icl::contains(s, e)) Q("contains interval", icl::contains(s, iv)) Q("contains segment", icl::contains(s, seg)) Q("contains map", icl::contains(s, o)) Q("within", icl::within(q, s)) Q("intersects interval", icl::intersects(s, iv)) Q("intersects segment", icl::intersects(s, seg)) Q("intersects map", icl::intersects(s, o)) Q("disjoint", icl::disjoint(s, q))
    if constexpr (!Tr::is_total) { Q("contains set", icl::contains(s, ks)) Q("intersects set", icl::intersects(s, ks)) }
    if constexpr (D::elem_ops) { Q("find key", std::distance(s.begin(), s.find(e))) }
    Q("operator()", V(s(e)))
    Q("find interval", std::distance(s.begin(), s.find(iv))) Q("lower_bound", std::distance(s.begin(), s.lower_bound(iv)))
    Q("==", s == q) Q("<", s < q) Q("element equal", icl::is_element_equal(s, o)) Q("distinct equal", icl::is_distinct_equal(s, q)) Q("inclusion_compare", icl::inclusion_compare(s, q))
    Q("iterative_size", s.iterative_size()) Q("is_empty", icl::is_empty(s))
    if constexpr (D::discrete) { Q("size", icl::size(s)) Q("elements", [&] { std::string r; for (auto it = icl::elements_begin(s); it != icl::elements_end(s); ++it) { r += D::conv::str((*it).first); r += V((*it).second); } return r; }()) }
    Q("hull", D::str(icl::hull(s))) Q("lower", D::conv::str(icl::lower(s))) Q("upper", D::conv::str(icl::upper(s)))
    Q("segments", [&] { std::string r; for (auto it = s.rbegin(); it != s.rend(); ++it) r += D::str(it->first) + V(it->second); return r; }())
    if constexpr (!K::set_like) { Q("stream", s) }
    ops.push_back({"domain", [&]() -> std::string { J d; icl::domain(d, s); return dset<D>(d); }});
    R("copy", S(s)) R("+", s + o) R("&", s & o) R("^", s ^ o) R("+ segment", s + seg) R("& segment", s & seg) R("& set", s & ks) R("- set", s - ks) R("- interval", s - iv) R("& interval", s & iv)
    M("own add", x.add(seg)) M("own insert", x.insert(seg)) M("own set", x.set(seg)) M("own erase", x.erase(iv)) M("own erase segment", x.erase(seg)) M("own +=", x += o) M("own &=", x &= o) M("own ^=", x ^= o) M("own assign", x = q) M("own erase set", icl::erase(x, ks)) M("own swap", S y(q); x.swap(y)) M("own hinted", x.add(x.begin(), seg)) M("own self", x += x)
    if constexpr (K::sub) { M("own subtract", x.subtract(seg)) M("own -=", x -= o) R("-", s - o) R("- segment", s - seg) }
#undef Q
#undef R
#undef M
    race(c, ops, 2 + c.rng.below(4));
    c.check(dmap<D, K>(s) == m.str(), "threads:operand", "the shared container changed");
}
} // namespace vf
