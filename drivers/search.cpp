// Search operations over each iterator category and over containers; predicates and elements are opaque.
#include <pluto/container.hpp>
#include "seq.hpp"
#if PLUTO_UTILS_HAS_CXX_17
#define IF17(...) __VA_ARGS__
#else
#define IF17(...)
#endif
static inline const E* raw(const E* p) { return p; }
template<class C> static inline const E* raw(const iter<C>& i) { return i.p; }
#define FORWARD(I) \
bool same_##I(const E* b, const E* e, const E* c, const E* d) { return pluto::equals_same_size(I(b), I(e), I(c)); } \
bool sameP_##I(const E* b, const E* e, const E* c, const E* d, const pred2* p) { return pluto::equals_same_size(I(b), I(e), I(c), *p); } \
bool equals_##I(const E* b, const E* e, const E* c, const E* d) { return pluto::equals(I(b), I(e), I(c), I(d)); } \
bool equalsP_##I(const E* b, const E* e, const E* c, const E* d, const pred2* p) { return pluto::equals(I(b), I(e), I(c), I(d), *p); } \
bool starts_##I(const E* b, const E* e, const E* c, const E* d) { return pluto::starts_with(I(b), I(e), I(c), I(d)); } \
bool startsP_##I(const E* b, const E* e, const E* c, const E* d, const pred2* p) { return pluto::starts_with(I(b), I(e), I(c), I(d), *p); } \
const E* find_##I(const E* b, const E* e, const E* x) { return raw(pluto::find(I(b), I(e), *x)); } \
const E* findS_##I(const E* b, const E* e, const E* c, const E* d) { return raw(pluto::find(I(b), I(e), I(c), I(d))); } \
const E* findSP_##I(const E* b, const E* e, const E* c, const E* d, const pred2* p) { return raw(pluto::find(I(b), I(e), I(c), I(d), *p)); } \
IF17(const E* rfindS_##I(const E* b, const E* e, const E* c, const E* d) { return raw(pluto::rfind(I(b), I(e), I(c), I(d))); } \
const E* rfindSP_##I(const E* b, const E* e, const E* c, const E* d, const pred2* p) { return raw(pluto::rfind(I(b), I(e), I(c), I(d), *p)); }) \
const E* find_if_##I(const E* b, const E* e, const pred1* p) { return raw(pluto::find_if(I(b), I(e), *p)); } \
const E* find_if_not_##I(const E* b, const E* e, const pred1* p) { return raw(pluto::find_if_not(I(b), I(e), *p)); } \
bool contains_##I(const E* b, const E* e, const E* x) { return pluto::contains(I(b), I(e), *x); } \
bool containsS_##I(const E* b, const E* e, const E* c, const E* d) { return pluto::contains(I(b), I(e), I(c), I(d)); } \
bool containsSP_##I(const E* b, const E* e, const E* c, const E* d, const pred2* p) { return pluto::contains(I(b), I(e), I(c), I(d), *p); }
#define BACKWARD(I) \
bool ends_##I(const E* b, const E* e, const E* c, const E* d) { return pluto::ends_with(I(b), I(e), I(c), I(d)); } \
bool endsP_##I(const E* b, const E* e, const E* c, const E* d, const pred2* p) { return pluto::ends_with(I(b), I(e), I(c), I(d), *p); } \
const E* rfind_##I(const E* b, const E* e, const E* x) { return raw(pluto::rfind(I(b), I(e), *x)); } \
const E* rfind_if_##I(const E* b, const E* e, const pred1* p) { return raw(pluto::rfind_if(I(b), I(e), *p)); } \
const E* rfind_if_not_##I(const E* b, const E* e, const pred1* p) { return raw(pluto::rfind_if_not(I(b), I(e), *p)); }
#define CONTAINER(I) \
bool equals_c##I(const E* b, const E* e, const E* c, const E* d) { view<I> l{ b, e }, r{ c, d }; return pluto::equals(l, r); } \
bool equalsP_c##I(const E* b, const E* e, const E* c, const E* d, const pred2* p) { view<I> l{ b, e }, r{ c, d }; return pluto::equals(l, r, *p); } \
bool starts_c##I(const E* b, const E* e, const E* c, const E* d) { view<I> l{ b, e }, r{ c, d }; return pluto::starts_with(l, r); } \
bool startsP_c##I(const E* b, const E* e, const E* c, const E* d, const pred2* p) { view<I> l{ b, e }, r{ c, d }; return pluto::starts_with(l, r, *p); } \
bool ends_c##I(const E* b, const E* e, const E* c, const E* d) { view<I> l{ b, e }, r{ c, d }; return pluto::ends_with(l, r); } \
bool endsP_c##I(const E* b, const E* e, const E* c, const E* d, const pred2* p) { view<I> l{ b, e }, r{ c, d }; return pluto::ends_with(l, r, *p); } \
const E* find_c##I(const E* b, const E* e, const E* x) { view<I> l{ b, e }; return raw(pluto::find_elem(l, *x)); } \
const E* rfind_c##I(const E* b, const E* e, const E* x) { view<I> l{ b, e }; return raw(pluto::rfind_elem(l, *x)); } \
const E* findS_c##I(const E* b, const E* e, const E* c, const E* d) { view<I> l{ b, e }, r{ c, d }; return raw(pluto::find_sequence(l, r)); } \
const E* findSP_c##I(const E* b, const E* e, const E* c, const E* d, const pred2* p) { view<I> l{ b, e }, r{ c, d }; return raw(pluto::find_sequence(l, r, *p)); } \
IF17(const E* rfindS_c##I(const E* b, const E* e, const E* c, const E* d) { view<I> l{ b, e }, r{ c, d }; return raw(pluto::rfind_sequence(l, r)); } \
const E* rfindSP_c##I(const E* b, const E* e, const E* c, const E* d, const pred2* p) { view<I> l{ b, e }, r{ c, d }; return raw(pluto::rfind_sequence(l, r, *p)); }) \
const E* find_if_c##I(const E* b, const E* e, const pred1* p) { view<I> l{ b, e }; return raw(pluto::find_if(l, *p)); } \
const E* find_if_not_c##I(const E* b, const E* e, const pred1* p) { view<I> l{ b, e }; return raw(pluto::find_if_not(l, *p)); } \
const E* rfind_if_c##I(const E* b, const E* e, const pred1* p) { view<I> l{ b, e }; return raw(pluto::rfind_if(l, *p)); } \
const E* rfind_if_not_c##I(const E* b, const E* e, const pred1* p) { view<I> l{ b, e }; return raw(pluto::rfind_if_not(l, *p)); } \
bool contains_c##I(const E* b, const E* e, const E* x) { view<I> l{ b, e }; return pluto::contains_elem(l, *x); } \
bool containsS_c##I(const E* b, const E* e, const E* c, const E* d) { view<I> l{ b, e }, r{ c, d }; return pluto::contains_sequence(l, r); } \
bool containsSP_c##I(const E* b, const E* e, const E* c, const E* d, const pred2* p) { view<I> l{ b, e }, r{ c, d }; return pluto::contains_sequence(l, r, *p); }
extern "C" {
FORWARD(fwd) FORWARD(bid) FORWARD(rnd)
BACKWARD(bid) BACKWARD(rnd)
CONTAINER(bid) CONTAINER(rnd)
}
