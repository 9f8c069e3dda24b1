// Element, predicate and container types for the sequence drivers: elements can only be compared through
// functions without a body, so the analysis supplies their meaning.
#pragma once
#include <cstddef>
#include <iterator>
struct E { int k; };
bool operator==(const E&, const E&); bool operator!=(const E&, const E&);
bool operator<(const E&, const E&); bool operator>(const E&, const E&);
bool operator<=(const E&, const E&); bool operator>=(const E&, const E&);
struct pred1 { int tag; bool operator()(const E&) const; };
struct pred2 { int tag; bool operator()(const E&, const E&) const; };
template<class Cat> struct iter
{
    typedef Cat iterator_category; typedef E value_type; typedef std::ptrdiff_t difference_type; typedef const E* pointer; typedef const E& reference;
    const E* p;
    reference operator*() const { return *p; }
    pointer operator->() const { return p; }
    iter& operator++() { ++p; return *this; }
    iter operator++(int) { iter r{*this}; ++p; return r; }
    friend bool operator==(const iter& a, const iter& b) { return a.p == b.p; }
    friend bool operator!=(const iter& a, const iter& b) { return a.p != b.p; }
};
struct fwd : iter<std::forward_iterator_tag> { fwd() = default; fwd(const E* q) { p = q; } fwd& operator++() { ++p; return *this; } fwd operator++(int) { fwd r{*this}; ++p; return r; } };
struct bid : iter<std::bidirectional_iterator_tag>
{
    bid() = default; bid(const E* q) { p = q; }
    bid& operator++() { ++p; return *this; } bid operator++(int) { bid r{*this}; ++p; return r; }
    bid& operator--() { --p; return *this; } bid operator--(int) { bid r{*this}; --p; return r; }
};
typedef const E* rnd;
template<class I> struct view
{
    typedef E value_type; typedef I const_iterator; typedef I iterator;
    const E* b; const E* e;
    I begin() const { return I(b); }
    I end() const { return I(e); }
};
