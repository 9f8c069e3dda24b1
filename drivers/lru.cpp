// Every operation of pluto::lru_cache / pluto::safe_lru_cache on opaque keys and values.
#include <new>
#include <cstddef>
#include <pluto/lru_cache.hpp>
#include <pluto/safe_lru_cache.hpp>

struct K
{
    long x;
    K(const K&);
    K& operator=(const K&);
    ~K();
};
bool operator<(const K&, const K&);
bool operator==(const K&, const K&);

struct V
{
    long x;
    V(const V&);
    V& operator=(const V&);
    ~V();
};

template class pluto::lru_cache<K, V>;
template class pluto::safe_lru_cache<K, V>;

typedef pluto::lru_cache<K, V> C;
typedef pluto::safe_lru_cache<K, V> S;

// layout of list nodes and map nodes (0: the shape is not the one the analysis knows)
template<class T> struct shape { static const int value = 0; };
template<> struct shape<std::pair<const K, std::pair<V, std::list<K>::iterator>>> { static const int value = 1; };
extern "C" const int shape_ok = shape<C::map_type::value_type>::value && sizeof(C::list_type) == 24 && sizeof(C::map_type) == 48;

#define OPS(P, C) \
    extern "C" void P##_ctor(void* p, std::size_t n) { new (p) C(n); } \
    extern "C" std::size_t P##_size(const C& c) { return c.size(); } \
    extern "C" std::size_t P##_capacity(const C& c) { return c.capacity(); } \
    extern "C" bool P##_empty(const C& c) { return c.empty(); } \
    extern "C" bool P##_contains(const C& c, const K& k) { return c.contains(k); } \
    extern "C" void P##_clear(C& c) { c.clear(); } \
    extern "C" void P##_setcap(C& c, std::size_t n) { c.capacity(n); } \
    extern "C" bool P##_insert(C& c, const K& k, const V& v) { return c.insert(k, v); } \
    extern "C" bool P##_assign(C& c, const K& k, const V& v) { return c.insert_or_assign(k, v); } \
    extern "C" bool P##_get(C& c, const K& k, V& v) { return c.get(k, v); } \
    extern "C" bool P##_remove(C& c, const K& k) { return c.remove(k); }
OPS(c, C)
OPS(s, S)

extern "C" void c_copy(void* p, const C& o) { new (p) C(o); }
extern "C" void c_move(void* p, C& o) { new (p) C(static_cast<C&&>(o)); }
extern "C" void c_copyassign(C& c, const C& o) { c = o; }
extern "C" void c_moveassign(C& c, C& o) { c = static_cast<C&&>(o); }
extern "C" void c_dtor(C& c) { c.~C(); }
