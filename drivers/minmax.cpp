// min, max and abs over a type that can only be compared.
#include <pluto/value.hpp>
#include <pluto/container.hpp>
#include "seq.hpp"
extern "C" {
const E* v_min(const E* a, const E* b) { return &(pluto::min)(*a, *b); }
const E* v_max(const E* a, const E* b) { return &(pluto::max)(*a, *b); }
const E* v_min_p(const E* a, const E* b) { return &(pluto::min)(*a, *b, pred2{}); }
const E* v_max_p(const E* a, const E* b) { return &(pluto::max)(*a, *b, pred2{}); }
const E* c_min(const view<rnd>* c) { return &(pluto::min)(*c); }
const E* c_max(const view<rnd>* c) { return &(pluto::max)(*c); }
const E* c_min_p(const view<rnd>* c) { return &(pluto::min)(*c, pred2{}); }
const E* c_max_p(const view<rnd>* c) { return &(pluto::max)(*c, pred2{}); }
signed char abs_i8(signed char v) { return pluto::abs(v); }
short abs_i16(short v) { return pluto::abs(v); }
int abs_i32(int v) { return pluto::abs(v); }
long abs_i64(long v) { return pluto::abs(v); }
long long abs_ll(long long v) { return pluto::abs(v); }
unsigned char abs_u8(unsigned char v) { return pluto::abs(v); }
unsigned abs_u32(unsigned v) { return pluto::abs(v); }
unsigned long abs_u64(unsigned long v) { return pluto::abs(v); }
double abs_f64(double v) { return pluto::abs(v); }
float abs_f32(float v) { return pluto::abs(v); }
}
