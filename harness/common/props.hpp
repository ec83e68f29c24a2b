// Objects with properties of every kind over 14 value types (C15).
#pragma once
#include <common/calls.hpp>

namespace props {
using namespace calls;
constexpr int N = 14;                                   // value types: calls::Params
template<class... T> std::tuple<std::unique_ptr<T>...> tup(L<T...>);
template<int I> using Type = typename std::tuple_element_t<(size_t)I, decltype(tup(Params{}))>::pointer;
template<int I> using T_of = std::remove_pointer_t<Type<I>>;

// cells: mem: a data member; cmem: a const one; val: accessors by value; cref: by const reference; rr: read by reference, written by rvalue; mut: read as a mutable reference
enum Cell { MEM, CMEM, VAL, CREF_, RR, MUT, SMEM, SCMEM, SVAL, SCREF, GMEM, GCREF, CELLS };
constexpr int OBJ_CELLS = 6;
inline char const *cell_name(int k) { static char const *n[] = {"mem", "cmem", "val", "cref", "rr", "mut", "smem", "scmem", "sval", "scref", "gmem", "gcref"}; return n[k]; }
struct Log { int gets = 0, sets = 0; bool boom = false; };
inline Log plog;
inline void touch(bool set) { (set ? plog.sets : plog.gets)++; if (plog.boom) throw Boom{1}; }
template<class X> X clone(X const &x) { if constexpr (std::is_copy_constructible_v<X>) return x; else return V<X>::make(0); }

template<int S, int I> struct Cells {                  // S: 0 owner, 1 sub, 2 statics of the owner, 3 globals
    using T = T_of<I>;
    T mem = V<T>::make(1); T const cmem = V<T>::make(2); T val = V<T>::make(3), cref = V<T>::make(4), rr = V<T>::make(5); mutable T mut = V<T>::make(6);
    Cells() {}
    Cells(Cells const &o): mem(clone(o.mem)), cmem(clone(o.cmem)), val(clone(o.val)), cref(clone(o.cref)), rr(clone(o.rr)), mut(clone(o.mut)) {}
    T getVal() const { touch(false); if constexpr (std::is_copy_constructible_v<T>) return val; else return V<T>::make(3); }
    void setVal(T x) { touch(true); val = std::move(x); }
    T const &getCref() const noexcept(false) { touch(false); return cref; }
    void setCref(T const &x) { touch(true); if constexpr (std::is_copy_assignable_v<T>) cref = x; }
    T const &getRr() const { touch(false); return rr; }
    void setRr(T &&x) { touch(true); rr = std::move(x); }
    T &getMut() const { touch(false); return mut; }
    void setMut(T const &x) { touch(true); if constexpr (std::is_copy_assignable_v<T>) mut = x; }
    static inline T smem = V<T>::make(1), sval = V<T>::make(3), scref = V<T>::make(4); static inline T const scmem = V<T>::make(2);
    static T getS() { touch(false); if constexpr (std::is_copy_constructible_v<T>) return sval; else return V<T>::make(3); }
    static void setS(T x) { touch(true); sval = std::move(x); }
    static T const &getSC() { touch(false); return scref; }
    static void setSC(T const &x) { touch(true); if constexpr (std::is_copy_assignable_v<T>) scref = x; }
    static void *cell(void *self, int k)
    {
        auto *c = static_cast<Cells *>(self);
        switch (k) { case MEM: return &c->mem; case CMEM: return const_cast<T *>(&c->cmem); case VAL: return &c->val; case CREF_: return &c->cref; case RR: return &c->rr; case MUT: return &c->mut;
            case SMEM: case GMEM: return &smem; case SCMEM: return const_cast<T *>(&scmem); case SVAL: return &sval; default: return &scref; }
    }
};
template<int S, class I> struct AllCells;
template<int S, int... I> struct AllCells<S, std::integer_sequence<int, I...>>: Cells<S, I>... {};
struct Owner: AllCells<0, std::make_integer_sequence<int, N>> { DECLARE_CLASSINFO public: virtual ~Owner() {} Owner() {} Owner(Owner const &) = default; };
struct Sub: Pad, Owner, AllCells<1, std::make_integer_sequence<int, N>> { DECLARE_CLASSINFO public: Sub() {} Sub(Sub const &) = default; };

struct TypeOps {
    long (*fp)(void const *); void (*reset)(); void *(*cell)(int s, void *obj, int k);      // s: 0 Owner's, 1 Sub's (obj: an Owner*, a Sub*), 2 statics, 3 globals
    bool (*alias)(variant &, void *cell, bool mut); bool (*value)(variant &, long fp); long (*alias_fp)(variant &);
    bool assignable;                                                                        // a value can be copied into it
    long (*bump)(variant &);                                                                // writes through a mutable alias
    void (*define)();
};
inline TypeOps &ops(int i) { static TypeOps o[N]; return o[i]; }
inline rtti::MetaProperty const *&prop(int s, int i, int k) { static rtti::MetaProperty const *p[4][N][CELLS]; return p[s][i][k]; }
inline std::string prop_name(int i, int k) { return cell_name(k) + std::to_string(i); }

template<class C, int S, int I, class Def> void define_members(Def &&d)
{
    using X = Cells<S, I>; using T = T_of<I>; using GV = T (C::*)() const; using SV = void (C::*)(T); using GC = T const &(C::*)() const; using SC = void (C::*)(T const &); using SR = void (C::*)(T &&); using GM = T &(C::*)() const;
    d._property(prop_name(I, MEM), static_cast<T C::*>(&X::mem))._property(prop_name(I, CMEM), static_cast<T const C::*>(&X::cmem))
        ._property(prop_name(I, VAL), static_cast<GV>(&X::getVal), static_cast<SV>(&X::setVal))
        ._property(prop_name(I, CREF_), static_cast<GC>(&X::getCref), static_cast<SC>(&X::setCref))
        ._property(prop_name(I, RR), static_cast<GC>(&X::getRr), static_cast<SR>(&X::setRr))
        ._property(prop_name(I, MUT), static_cast<GM>(&X::getMut), static_cast<SC>(&X::setMut));
}
template<int I> void define_type()
{
    using T = T_of<I>;
    {
        auto d = rtti::global_define()._class<Owner>("Owner"); define_members<Owner, 0, I>(d); using X = Cells<2, I>;
        d._property(prop_name(I, SMEM), &X::smem)._property(prop_name(I, SCMEM), &X::scmem)._property(prop_name(I, SVAL), &X::getS, &X::setS)._property(prop_name(I, SCREF), &X::getSC, &X::setSC);
    }
    define_members<Sub, 1, I>(rtti::global_define()._class<Sub>("Sub"));
    using G = Cells<3, I>;
    rtti::global_define()._property(prop_name(I, GMEM), &G::smem)._property(prop_name(I, GCREF), G::getSC, G::setSC)._property(prop_name(I, SCMEM), &G::scmem);
}
template<int I> int add_type()
{
    using T = T_of<I>; auto &o = ops(I);
    o.fp = [](void const *p) { return V<T>::fp(*static_cast<T const *>(p)); };
    o.reset = [] { Cells<2, I>::smem = V<T>::make(1); Cells<2, I>::sval = V<T>::make(3); Cells<2, I>::scref = V<T>::make(4); Cells<3, I>::smem = V<T>::make(1); Cells<3, I>::scref = V<T>::make(4); };
    o.cell = [](int s, void *obj, int k) -> void * {
        switch (s) { case 0: return Cells<0, I>::cell(static_cast<Cells<0, I> *>(static_cast<Owner *>(obj)), k); case 1: return Cells<1, I>::cell(static_cast<Cells<1, I> *>(static_cast<Sub *>(obj)), k);
            case 2: return Cells<2, I>::cell(nullptr, k); default: return Cells<3, I>::cell(nullptr, k); } };
    o.alias = [](variant &v, void *cell, bool mut) { return !v.empty() && v.data<T>() == (mut ? cell : nullptr) && &v.cref<T>() == cell && v.is<T &>() == mut && v.is<T const &>(); };
    o.value = [](variant &v, long fp) { auto *p = v.data<T>(); return p && v.typeId() == rtti::metaTypeId<T>() && V<T>::fp(*p) == fp; };
    o.alias_fp = [](variant &v) { return V<T>::fp(v.cref<T>()); };
    o.bump = [](variant &v) { V<T>::bump(v.ref<T>()); return V<T>::fp(v.cref<T>()); };
    o.assignable = std::is_copy_assignable_v<T>; o.define = define_type<I>; return 0;
}
} // namespace props
