// Case-insensitive comparators: built from a locale object that may be gone when they are used.
#include <new>
#include <pluto/compare.hpp>
extern "C" {
void locale_gone(const std::locale*);      // the caller destroys its locale object here
void observe(int op, bool result);
struct cls { int k; explicit operator bool() const; };
}
#define USE(name, C, op) \
    extern "C" void name##_##C##_given(const std::locale* l, C a, C b) { pluto::name<C> f(*l); locale_gone(l); observe(op, f(a, b)); } \
    extern "C" void name##_##C##_default(C a, C b) { pluto::name<C> f; observe(op, f(a, b)); } \
    extern "C" void name##_##C##_copy(const std::locale* l, C a, C b) { \
        alignas(16) unsigned char store[sizeof(pluto::name<C>)]; pluto::name<C>* p; \
        { pluto::name<C> f(*l); p = new (store) pluto::name<C>(f); } locale_gone(l); observe(op, (*p)(a, b)); }
#define ALL(C) USE(is_iequal, C, 0) USE(is_not_iequal, C, 1) USE(is_iless, C, 2) USE(is_igreater, C, 3) USE(is_iless_equal, C, 4) USE(is_igreater_equal, C, 5)
ALL(char) ALL(wchar_t)
extern "C" {
bool true_bool(bool v) { return pluto::is_true{}(v); }
bool false_bool(bool v) { return pluto::is_false{}(v); }
bool true_int(int v) { return pluto::is_true{}(v); }
bool false_int(int v) { return pluto::is_false{}(v); }
bool true_ptr(const int* v) { return pluto::is_true{}(v); }
bool false_ptr(const int* v) { return pluto::is_false{}(v); }
bool true_cls(const cls* v) { return pluto::is_true{}(*v); }
bool false_cls(const cls* v) { return pluto::is_false{}(*v); }
}
