// Instrumented content types: every construction, copy, move and destruction is entered in a ledger keyed
// by address. The ledger never uses operator new, so heap accounting sees only the code under test.
#pragma once
#include <pbt.hpp>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <type_traits>

namespace led {

enum St : uint8_t { NONE = 0, ALIVE, SHELL };     // SHELL: moved from, destructor not yet run

struct Entry { void const *p; St st; bool inplace_ok; };
inline Entry *table() { static Entry *t = (Entry*)calloc(8192, sizeof(Entry)); return t; }
inline size_t &used() { static size_t n = 0; return n; }
inline char *error() { static char e[512]; return e; }
inline long &throw_countdown() { static long n = -1; return n; }     // >0: n-th throwing copy/move from now throws
inline bool &threw() { static bool b = false; return b; }
inline long &created() { static long n; return n; }
inline long &destroyed() { static long n; return n; }
inline long &copies() { static long n; return n; }
inline long &moves() { static long n; return n; }

struct Boom { int x = 7; };

inline void err(char const *f, void const *p) { if (!*error()) snprintf(error(), 512, f, p); }
inline Entry *find(void const *p)
{
    auto *t = table(); for (size_t i = used(); i-- > 0;) if (t[i].p == p) return &t[i];
    return nullptr;
}
inline void reset()
{
    used() = 0; *error() = 0; throw_countdown() = -1; threw() = false; created() = destroyed() = copies() = moves() = 0;
}
inline void enter(void const *p, bool inplace_ok)
{
    ++created();
    auto *e = find(p);
    if (e) {
        if (e->st == ALIVE) err("object constructed at %p over a live object (the old one is never destroyed)", p);
        else if (!e->inplace_ok) err("object constructed at %p over a moved-from object that was never destroyed", p);
        e->st = ALIVE; e->inplace_ok = inplace_ok; return;
    }
    if (used() >= 8192) { err("ledger overflow %p", p); return; }
    table()[used()++] = Entry{p, ALIVE, inplace_ok};
}
inline void leave(void const *p)
{
    ++destroyed();
    auto *e = find(p);
    if (!e) { err("destructor ran on %p where no object exists (double destruction or raw memory)", p); return; }
    *e = table()[--used()];
}
inline void moved_from(void const *p) { if (auto *e = find(p)) e->st = SHELL; }
inline void revived(void const *p) { if (auto *e = find(p)) e->st = ALIVE; }     // assigned to after being moved from
inline void need(void const *p, char const *what)
{
    if (!find(p)) err(what, p);
}
inline size_t alive() { size_t n = 0; for (size_t i = 0; i < used(); ++i) n += table()[i].st == ALIVE; return n; }
inline size_t hard_shells() { size_t n = 0; for (size_t i = 0; i < used(); ++i) n += table()[i].st == SHELL && !table()[i].inplace_ok; return n; }
inline size_t soft_shells() { size_t n = 0; for (size_t i = 0; i < used(); ++i) n += table()[i].st == SHELL && table()[i].inplace_ok; return n; }
inline void maybe_throw()
{
    if (throw_countdown() > 0 && --throw_countdown() == 0) { threw() = true; throw_countdown() = -1; throw Boom{}; }
}

enum Caps : unsigned {
    COPY = 1, MOVE = 2,            // MOVE: has its own move constructor (otherwise "moving" copies)
    COPY_THROWS = 4, MOVE_THROWS = 8,   // may throw (and is declared so)
    EQ = 16, EQ_THROWS = 32, VIRT = 64
};

template<size_t Pad> struct Padding { unsigned char pad[Pad] = {}; };
template<> struct Padding<0> {};

// N: sizeof (multiple of Align, >= 8), Align, capabilities
template<size_t Size, size_t Align, unsigned C>
struct alignas(Align) ObjBase : Padding<(Size > 8 ? Size - 8 : 0)> {
    static constexpr bool InplaceOk = (C & MOVE) && !(C & MOVE_THROWS) && Size <= 16 && Align <= 8;
    int val;
    uint32_t magic = 0x600dbeef;
    void born()
    {
        if (reinterpret_cast<uintptr_t>(this) % Align) err("object constructed at %p, which is misaligned for its type", this);
        enter(this, InplaceOk);
    }
    explicit ObjBase(int v): val(v) { born(); }
    ObjBase(ObjBase const &o, int): val(o.get()) { born(); }
    ~ObjBase() { need(this, "object at %p used after destruction"); leave(this); magic = 0xdead; val = -987654; }
    int get() const
    {
        need(this, "read of %p where no object lives");
        if (magic != 0x600dbeef) err("read of a destroyed or never constructed object at %p", this);
        return val;
    }
};

template<size_t Size, size_t Align, unsigned C, bool HasCopy, bool HasMove> struct ObjSel;

template<size_t Size, size_t Align, unsigned C>
struct ObjSel<Size, Align, C, true, true>: ObjBase<Size, Align, C> {
    using B = ObjBase<Size, Align, C>;
    ObjSel(int v = 0): B(v) {}
    ObjSel(ObjSel const &o) noexcept(!(C & COPY_THROWS)): B((prep_copy(), o), 0) { ++copies(); }
    ObjSel(ObjSel &&o) noexcept(!(C & MOVE_THROWS)): B((prep_move(), o), 0) { ++moves(); o.val = -1; moved_from(static_cast<B*>(&o)); }
    ObjSel &operator=(ObjSel const &o) { this->val = o.get(); revived(static_cast<B*>(this)); return *this; }
    ObjSel &operator=(ObjSel &&o) { this->val = o.get(); revived(static_cast<B*>(this)); return *this; }
    static void prep_copy() { if (C & COPY_THROWS) maybe_throw(); }
    static void prep_move() { if (C & MOVE_THROWS) maybe_throw(); }
};
template<size_t Size, size_t Align, unsigned C>
struct ObjSel<Size, Align, C, true, false>: ObjBase<Size, Align, C> {
    using B = ObjBase<Size, Align, C>;
    ObjSel(int v = 0): B(v) {}
    ObjSel(ObjSel const &o) noexcept(!(C & COPY_THROWS)): B((prep(), o), 0) { ++copies(); }
    ObjSel &operator=(ObjSel const &o) { this->val = o.get(); revived(static_cast<B*>(this)); return *this; }
    static void prep() { if (C & COPY_THROWS) maybe_throw(); }
};
template<size_t Size, size_t Align, unsigned C>
struct ObjSel<Size, Align, C, false, true>: ObjBase<Size, Align, C> {
    using B = ObjBase<Size, Align, C>;
    ObjSel(int v = 0): B(v) {}
    ObjSel(ObjSel &&o) noexcept(!(C & MOVE_THROWS)): B((prep(), o), 0) { ++moves(); o.val = -1; moved_from(static_cast<B*>(&o)); }
    ObjSel &operator=(ObjSel &&o) { this->val = o.get(); revived(static_cast<B*>(this)); return *this; }
    static void prep() { if (C & MOVE_THROWS) maybe_throw(); }
};

// an alias: a derived class would get an implicit move constructor
template<size_t Size, size_t Align, unsigned C>
using Obj = ObjSel<Size, Align, C, (C & COPY) != 0, (C & MOVE) != 0>;
template<size_t S, size_t A, unsigned C, bool HC, bool HM, typename = std::enable_if_t<(C & EQ) != 0>>
bool operator==(ObjSel<S, A, C, HC, HM> const &l, ObjSel<S, A, C, HC, HM> const &r) { return l.get() == r.get(); }

} // namespace led
