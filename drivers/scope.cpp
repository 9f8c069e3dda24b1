// Life cycle of the scope guards; the bodies are analysed, nothing is run.
#include <new>
#include <type_traits>
#include <pluto/scope.hpp>
typedef std::function<void()> F;
extern "C" {
void havoc(void*);      // any number of tasks may have been added
void phase(void*);      // the guard is about to be destroyed
#define G(n) \
    void ctor0_##n(void* m) { ::new (m) pluto::on_scope_##n(); havoc(m); phase(m); static_cast<pluto::on_scope_##n*>(m)->~on_scope_##n(); } \
    void ctor1_##n(void* m, const F& t) { ::new (m) pluto::on_scope_##n(t); } \
    void empty_##n(void* m) { ::new (m) pluto::on_scope_##n(); } \
    void add_##n(pluto::on_scope_##n& g, const F& t) { g.add(t); } \
    extern const int copyable_##n; const int copyable_##n = std::is_copy_constructible<pluto::on_scope_##n>::value || std::is_copy_assignable<pluto::on_scope_##n>::value; \
    extern const int movable_##n; const int movable_##n = std::is_move_constructible<pluto::on_scope_##n>::value || std::is_move_assignable<pluto::on_scope_##n>::value; \
    extern const int throwing_##n; const int throwing_##n = !std::is_nothrow_destructible<pluto::on_scope_##n>::value;
G(exit) G(success) G(fail)
}
