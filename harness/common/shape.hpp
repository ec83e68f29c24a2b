// Structural description of a type and the C++ rules for using a value of one type where another is expected.
// Written from the standard ([conv.qual], [dcl.init.ref], [conv.array]), not from the library; c07 validates it
// against std::is_convertible.
#pragma once
#include <cstddef>
#include <type_traits>

namespace shape {

struct Shape {
    void const *base = nullptr;     // identity of the innermost type without const
    unsigned depth = 0;             // number of pointers (of the element, for arrays)
    unsigned mask = 0;              // bit i: const at level i; 0 is the innermost type, `depth` the outermost
    size_t ext = 0;                 // length of an array, 0 if it isn't one
    int ref = 0;                    // 0 none, 1 lvalue, 2 rvalue reference
    bool topConst() const { return (mask >> depth) & 1; }
};

template<class T> struct BaseTag { static inline char tag; };

template<class T> constexpr unsigned depth_of()
{ if constexpr (std::is_pointer_v<T>) return 1 + depth_of<std::remove_pointer_t<T>>(); else return 0; }
template<class T> constexpr unsigned mask_of()
{
    unsigned m = std::is_const_v<T> ? 1u << depth_of<T>() : 0u;
    if constexpr (std::is_pointer_v<T>) m |= mask_of<std::remove_pointer_t<T>>();
    return m;
}
template<class T> struct Base { using type = std::remove_const_t<T>; };
template<class T> struct Base<T *> : Base<T> {};
template<class T> struct Base<T *const> : Base<T> {};

template<class T> Shape of()
{
    using N = std::remove_reference_t<T>;
    using E = std::remove_extent_t<N>;
    Shape s;
    s.ref = std::is_lvalue_reference_v<T> ? 1 : std::is_rvalue_reference_v<T> ? 2 : 0;
    s.ext = std::is_array_v<N> ? std::extent_v<N> : 0;
    s.depth = depth_of<E>(); s.mask = mask_of<E>();
    s.base = &BaseTag<typename Base<E>::type>::tag;
    return s;
}

// pointer conversion of a chain with `levels` levels below the (ignored) outermost one
inline bool qual(unsigned f, unsigned t, unsigned levels)
{
    for (unsigned i = 0; i < levels; ++i) {
        bool fc = (f >> i) & 1, tc = (t >> i) & 1;
        if (fc && !tc) return false;
        if (fc != tc)
            for (unsigned k = i + 1; k < levels; ++k) if (!((t >> k) & 1)) return false;
    }
    return true;
}

enum Verdict { NO, YES, EITHER };   // EITHER: C++ would bind a temporary; the library may refuse
inline bool same_decayed(Shape const &a, Shape const &b)
{ return a.base == b.base && a.depth + (a.ext ? 1 : 0) == b.depth + (b.ext ? 1 : 0); }

// from and to have the same decayed type
inline Verdict allow(Shape const &from, Shape const &to)
{
    bool lvalue = from.ref == 1;
    if (to.ext) {
        if (!from.ext || from.ext < to.ext) return NO;         // a longer array may serve as a shorter one
    } else if (from.ext) {
        // array to pointer: the pointer is a temporary
        if (!qual(from.mask, to.mask, to.depth)) return NO;
        if (to.ref == 0) return YES;
        if (to.ref == 1) return to.topConst() ? YES : NO;
        return EITHER;
    }
    if (to.ref == 0) return qual(from.mask, to.mask, to.depth) ? YES : NO;
    if (to.ref == 1 && !lvalue && !to.topConst()) return NO;
    if (to.ref == 2 && lvalue) return NO;
    // direct binding: as converting a pointer to `from` into a pointer to `to`
    return qual(from.mask, to.mask, to.depth + 1) ? YES : NO;
}

template<class B, unsigned Depth, unsigned Mask> struct Chain {
    using P = typename Chain<B, Depth - 1, Mask & ((1u << Depth) - 1)>::type;
    using type = std::conditional_t<((Mask >> Depth) & 1) != 0, P *const, P *>;
};
template<class B, unsigned Mask> struct Chain<B, 0, Mask> { using type = std::conditional_t<(Mask & 1) != 0, B const, B>; };
template<class B, unsigned Depth, unsigned Mask> using chain_t = typename Chain<B, Depth, Mask>::type;

} // namespace shape
