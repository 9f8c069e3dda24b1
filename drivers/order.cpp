// Instantiates the ordering templates with a type that can only be compared.
#include <new>
#include <pluto/range.hpp>
struct dist { int k; };
struct ord { int k; };
bool operator<(const ord&, const ord&); bool operator>(const ord&, const ord&);
bool operator<=(const ord&, const ord&); bool operator>=(const ord&, const ord&);
bool operator==(const ord&, const ord&); bool operator!=(const ord&, const ord&);
dist operator-(const ord&, const ord&);
typedef pluto::range<ord> R;
extern "C" {
void r_ctor(R* out, const ord* b, const ord* e) { new (out) R(*b, *e); }
bool r_eq(const R* a, const R* b) { return *a == *b; }
bool r_ne(const R* a, const R* b) { return *a != *b; }
bool r_lt(const R* a, const R* b) { return *a < *b; }
bool r_gt(const R* a, const R* b) { return *a > *b; }
bool r_le(const R* a, const R* b) { return *a <= *b; }
bool r_ge(const R* a, const R* b) { return *a >= *b; }
bool r_is_equal(const R* a, const R* b) { return a->is_equal(*b); }
bool r_is_less(const R* a, const R* b) { return a->is_less(*b); }
bool r_overlap(const R* a, const R* b) { return a->is_overlapping(*b); }
bool r_less_no(const R* a, const R* b) { return a->is_less_no_overlap(*b); }
dist r_size(const R* a) { return a->size(); }
}
