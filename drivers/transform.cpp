// Container transformations and slices; elements, predicates, functions and destinations are opaque.
#include <pluto/container.hpp>
#include "seq.hpp"
struct B { int k; explicit operator bool() const; };
struct V { int v; V& operator+=(const E&); };
struct fun1 { int tag; V operator()(const E&) const; };
struct act { int tag; void operator()(const E&) const; };
// mutable elements: assignments and swaps are seen
struct M { int k; M(const M&); M& operator=(const M&); };
void swap(M&, M&);
bool operator<(const M&, const M&);
struct mpred1 { int tag; bool operator()(const M&) const; };
struct mpred2 { int tag; bool operator()(const M&, const M&) const; };
template<class Cat> struct miter
{
    typedef Cat iterator_category; typedef M value_type; typedef std::ptrdiff_t difference_type; typedef M* pointer; typedef M& reference;
    M* p;
    reference operator*() const { return *p; } pointer operator->() const { return p; }
    friend bool operator==(const miter& a, const miter& b) { return a.p == b.p; }
    friend bool operator!=(const miter& a, const miter& b) { return a.p != b.p; }
};
struct mfwd : miter<std::forward_iterator_tag> { mfwd() = default; mfwd(M* q) { p = q; } mfwd& operator++() { ++p; return *this; } mfwd operator++(int) { mfwd r{*this}; ++p; return r; } };
struct mbid : miter<std::bidirectional_iterator_tag>
{
    mbid() = default; mbid(M* q) { p = q; }
    mbid& operator++() { ++p; return *this; } mbid operator++(int) { mbid r{*this}; ++p; return r; }
    mbid& operator--() { --p; return *this; } mbid operator--(int) { mbid r{*this}; --p; return r; }
};
typedef M* mrnd;
static inline M* raw(M* p) { return p; }
template<class C> static inline M* raw(const miter<C>& i) { return i.p; }
template<class I> struct mcont { M* b; M* e; I begin() { return I(b); } I end() { return I(e); } void erased(M*, M*); I erase(I f, I l) { erased(raw(f), raw(l)); return f; } };
// output positions
struct put { long i; void operator=(const V&) const; };
struct outit
{
    typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef std::ptrdiff_t difference_type; typedef void pointer; typedef void reference;
    long i;
    put operator*() const { return put{ i }; } outit& operator++() { ++i; return *this; } outit operator++(int) { outit r{ *this }; ++i; return r; }
};
struct dit
{
    typedef std::forward_iterator_tag iterator_category; typedef V value_type; typedef std::ptrdiff_t difference_type; typedef V* pointer; typedef V& reference;
    long i = 0;
    V& operator*() const; dit& operator++() { ++i; return *this; } dit operator++(int) { dit r{ *this }; ++i; return r; }
    friend bool operator==(const dit& a, const dit& b) { return a.i == b.i; }
    friend bool operator!=(const dit& a, const dit& b) { return a.i != b.i; }
};
struct dst { typedef V value_type; typedef dit iterator; long n; dit begin() { return dit{}; } dit end() { dit d; d.i = n; return d; } void inserted(long, const V&); dit insert(dit at, const V& v) { inserted(at.i, v); ++n; return at; } };
template<class... X> struct tc;
template<> struct tc<E> : view<rnd> {};
template<> struct tc<V> : dst {};
template<class I> struct sl
{
    typedef E value_type; const E* b; const E* e;
    I begin() const { return I(b); } I end() const { return I(e); }
    sl(); sl(const E*, const E*, int); sl(const sl&) = default;
    sl(I f, I l) : sl(raw2(f), raw2(l), 0) {}
    static const E* raw2(const E* p) { return p; }
    template<class C> static const E* raw2(const iter<C>& i) { return i.p; }
};
struct bview { const B* b; const B* e; typedef B value_type; const B* begin() const { return b; } const B* end() const { return e; } };
#define READ(I) \
bool any_##I(const view<I>* c, const pred1* p) { return pluto::any(*c, *p); } \
bool all_##I(const view<I>* c, const pred1* p) { return pluto::all(*c, *p); } \
std::size_t count_##I(const view<I>* c, const E* x) { return pluto::count(*c, *x); } \
std::size_t count_if_##I(const view<I>* c, const pred1* p) { return pluto::count_if(*c, *p); } \
void sum_##I(const view<I>* c, const V* v, V* out) { *out = pluto::sum(*c, *v); } \
void sum0_##I(const view<I>* c, V* out) { *out = pluto::sum<view<I>, V>(*c); } \
const void* for_each_##I(const view<I>* c, const act* f) { return &pluto::for_each(*c, *f); } \
void for_eachI_##I(const E* b, const E* e, const act* f) { pluto::for_each(I(b), I(e), *f); } \
long mapI_##I(const E* b, const E* e, const fun1* f) { return pluto::map(I(b), I(e), outit{ 0 }, *f).i; } \
const void* map_##I(const view<I>* c, dst* d, const fun1* f) { return &pluto::map(*c, *d, *f); } \
long mapN_##I(const view<I>* c, const fun1* f) { dst d = pluto::map<dst>(*c, *f); return d.n; }
#define CHANGE(I) \
M* filterI_##I(M* b, M* e, const mpred1* p) { return raw(pluto::filter(I(b), I(e), *p)); } \
const void* filter_##I(mcont<I>* c, const mpred1* p) { return &pluto::filter(*c, *p); }
#define REV(I) \
void reverseI_##I(M* b, M* e) { pluto::reverse(I(b), I(e)); } \
const void* reverse_##I(mcont<I>* c) { return &pluto::reverse(*c); }
#define SLICE(I) \
void slice_##I(const sl<I>* c, long long a, long long b) { sl<I> r = pluto::slice(*c, a, b); (void)r; } \
void slice1_##I(const sl<I>* c, long long b) { sl<I> r = pluto::slice(*c, b); (void)r; }
extern "C" {
READ(fwd) READ(rnd) CHANGE(mfwd) CHANGE(mrnd) REV(mbid) REV(mrnd) SLICE(fwd) SLICE(bid) SLICE(rnd)
long mapT_rnd(const tc<E>* c, const fun1* f) { auto d = pluto::map(*c, *f); return d.n; }
bool anyT_rnd(const bview* c) { return pluto::any(*c); }
bool allT_rnd(const bview* c) { return pluto::all(*c); }
void sortI_mrnd(M* b, M* e) { pluto::sort(b, e); }
void sortIP_mrnd(M* b, M* e, const mpred2* p) { pluto::sort(b, e, *p); }
const void* sort_mrnd(mcont<mrnd>* c) { return &pluto::sort(*c); }
const void* sortP_mrnd(mcont<mrnd>* c, const mpred2* p) { return &pluto::sort(*c, *p); }
bool less_mrnd(const M* a, const M* b) { return pluto::is_less{}(*a, *b); }
}
