// Owning, instrumented key/value types, a counting allocator and the ledger
// that watches them; optional fault injection.
#pragma once
#include "core.hpp"
#include <boost/icl/type_traits/is_discrete.hpp>
#include <boost/icl/type_traits/is_numeric.hpp>
#include <new>
#include <stdexcept>

namespace vf {
struct Injected : std::exception { const char* what() const noexcept override { return "injected"; } };
enum FuseKind { F_KEYCOPY = 1, F_KEYASSIGN = 2, F_KEYCMP = 4, F_KEYSTEP = 8, F_VALCOPY = 16, F_VALASSIGN = 32, F_VALCMP = 64, F_VALOP = 128, F_ALLOC = 256 };
struct Ledger {
    long live_objects = 0, constructed = 0, destroyed = 0;
    std::map<const void*, size_t> blocks; // address -> bytes
    long allocations = 0;
    std::string error;             // first violation seen
    long fuse = -1; int mask = 0;  // fuse >= 0: counts down on events in mask, throws at 0
    long events = 0; bool blown = false;
    static Ledger& get() { static Ledger* l = new Ledger; return *l; }
    void bad(const std::string& m) { if (error.empty()) error = m; }
    void event(int kind) {
        if (!(mask & kind)) return;
        ++events;
        if (fuse >= 0 && fuse-- == 0) { blown = true; throw Injected(); }
    }
};
// Tag 0: key, 1: value.  Holds its value in an owned heap block.
template <int Tag> class Obj {
    long* p; const void* self; // self == this exactly while the object is alive
    void born() { self = this; auto& l = Ledger::get(); ++l.live_objects; ++l.constructed; }
    void alive() const { if (self != this) Ledger::get().bad("an object that is not alive was used"); }
    static constexpr int copyk = Tag ? F_VALCOPY : F_KEYCOPY, assignk = Tag ? F_VALASSIGN : F_KEYASSIGN, cmpk = Tag ? F_VALCMP : F_KEYCMP, opk = Tag ? F_VALOP : F_KEYSTEP;
public:
    long get() const { alive(); if (!p) { Ledger::get().bad("moved-from object used"); return -999; } return *p; }
    Obj() : p(0) { Ledger::get().event(copyk); p = new long(0); born(); }
    explicit Obj(long v) : p(new long(v)) { born(); }
    Obj(const Obj& o) : p(0) { Ledger::get().event(copyk); long v = o.get(); p = new long(v); born(); }
    Obj(Obj&& o) noexcept : p(o.p) { o.alive(); o.p = 0; born(); }
    Obj& operator=(const Obj& o) { alive(); Ledger::get().event(assignk); long v = o.get(); if (p) *p = v; else p = new long(v); return *this; }
    Obj& operator=(Obj&& o) noexcept { alive(); o.alive(); if (this != &o) { delete p; p = o.p; o.p = 0; } return *this; }
    ~Obj() { auto& l = Ledger::get(); if (self != this) { l.bad("object destroyed twice or never constructed"); return; } self = 0; --l.live_objects; ++l.destroyed; delete p; }
    Obj& operator++() { Ledger::get().event(opk); get(); ++*p; return *this; }
    Obj& operator--() { Ledger::get().event(opk); get(); --*p; return *this; }
    Obj& operator+=(const Obj& o) { Ledger::get().event(opk); long v = o.get(); get(); *p += v; return *this; }
    Obj& operator-=(const Obj& o) { Ledger::get().event(opk); long v = o.get(); get(); *p -= v; return *this; }
    friend bool operator<(const Obj& a, const Obj& b) { Ledger::get().event(cmpk); return a.get() < b.get(); }
    friend bool operator==(const Obj& a, const Obj& b) { Ledger::get().event(cmpk); return a.get() == b.get(); }
    typedef long difference_type; typedef std::size_t size_type;
    friend Obj operator+(const Obj& a, long d) { return Obj(a.get() + d); }
    friend Obj operator-(const Obj& a, long d) { return Obj(a.get() - d); }
    friend long operator-(const Obj& a, const Obj& b) { return a.get() - b.get(); }
    friend std::ostream& operator<<(std::ostream& o, const Obj& a) { return o << a.get(); }
};
typedef Obj<0> KeyObj; typedef Obj<1> ValObj;

template <class T> struct CountAlloc {
    typedef T value_type;
    CountAlloc() noexcept {}
    template <class U> CountAlloc(const CountAlloc<U>&) noexcept {}
    T* allocate(size_t n) { auto& l = Ledger::get(); l.event(F_ALLOC); T* q = static_cast<T*>(::operator new(n * sizeof(T))); l.blocks[q] = n * sizeof(T); ++l.allocations; return q; }
    void deallocate(T* q, size_t n) noexcept {
        auto& l = Ledger::get(); auto it = l.blocks.find(q);
        if (it == l.blocks.end()) { l.bad("deallocation of a block the allocator did not hand out"); return; }
        if (it->second != n * sizeof(T)) l.bad("deallocation with another size");
        l.blocks.erase(it); ::operator delete(q);
    }
    template <class U> bool operator==(const CountAlloc<U>&) const { return true; }
    template <class U> bool operator!=(const CountAlloc<U>&) const { return false; }
};
} // namespace vf
namespace boost { namespace icl {
template <int N> struct is_discrete<vf::Obj<N>> { typedef is_discrete type; BOOST_STATIC_CONSTANT(bool, value = true); };
}}
#include "mapmachine.hpp"
#include "setmachine.hpp"
#include "observe.hpp"

namespace vf {
struct CKey { // discrete owning key
    typedef KeyObj type; static constexpr bool has_mid = false, numeric = false;
    static type at(int k) { return KeyObj(k - 5); }
    static type mid(int k) { return at(k); }
    static int index(const type& v) { return int(v.get()) + 5; }
    static std::string str(const type& v) { return std::to_string(v.get()); }
};
struct KObj {
    typedef ValObj type; typedef long MV;
    static MV ident() { return 0; }
    static MV rnd(Rng& r) { return r.range(-2, 3); }
    static type real(MV v) { return ValObj(v); }
    static MV mv(const type& v) { return v.get(); }
    static std::string str(MV v) { return std::to_string(v); }
    static constexpr bool set_like = false;
    static void section(MV&, MV) {}
    static void symdiff(MV&, MV) {}
    template <class X> using combine = icl::inplace_plus<X>;
    static constexpr const char* name = "plus-object";
    static constexpr bool sub = true, signed_inverse = false, total_ok = true;
    static void add(MV& m, MV v) { m += v; }
    static void inv(MV& m, MV v) { m -= v; }
    static MV neg(MV v) { return -v; }
};
#define VF_TRACKED(NAME, ITV, KIND) \
    struct NAME : Dom<CKey, ITV<KeyObj>, KIND> {}; \
    template <> struct SetType<NAME, JOIN> { typedef icl::interval_set<KeyObj, std::less, ITV<KeyObj>, CountAlloc> type; }; \
    template <> struct SetType<NAME, SEP> { typedef icl::separate_interval_set<KeyObj, std::less, ITV<KeyObj>, CountAlloc> type; }; \
    template <> struct SetType<NAME, SPLIT> { typedef icl::split_interval_set<KeyObj, std::less, ITV<KeyObj>, CountAlloc> type; }; \
    template <class K, class Tr> struct MapType<NAME, K, Tr, MJOIN> { typedef icl::interval_map<KeyObj, typename K::type, Tr, std::less, K::template combine, icl::inter_section, ITV<KeyObj>, CountAlloc> type; }; \
    template <class K, class Tr> struct MapType<NAME, K, Tr, MSPLIT> { typedef icl::split_interval_map<KeyObj, typename K::type, Tr, std::less, K::template combine, icl::inter_section, ITV<KeyObj>, CountAlloc> type; };
VF_TRACKED(T_key, icl::discrete_interval, DiscDyn)
VF_TRACKED(T_key_ro, icl::right_open_interval, DiscRO)
VF_TRACKED(T_key_cl, icl::closed_interval, DiscCL)
} // namespace vf
