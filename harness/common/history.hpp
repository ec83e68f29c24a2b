// Model-based histories over a pool of variants. Used by C01 (values) and C02 (lifetimes, faults).
#pragma once
#include <common/kinds.hpp>
#include <rtti/metaerror.h>

namespace hist {
using rtti::variant;
using kinds::Kind;

struct Cell { int kind = -1; int val = 0; };   // kind -1: empty

struct Sut {
    pbt::Ctx &c; std::vector<Kind> const &ks; bool faults; bool ledger;
    std::vector<variant> v; std::vector<Cell> m;
    int step = 0; bool sawThrow = false;

    Sut(pbt::Ctx &c, std::vector<Kind> const &ks, bool faults, bool ledger): c(c), ks(ks), faults(faults), ledger(ledger) { v.reserve(2); }

    void verify_one(variant &x, Cell const &cell, char const *who, size_t i)
    {
        struct Off { long l = led::throw_countdown(), a = pbt::g_alloc_countdown; Off() { led::throw_countdown() = -1; pbt::g_alloc_countdown = -1; } ~Off() { led::throw_countdown() = l; pbt::g_alloc_countdown = a; } } off;
        if (cell.kind < 0) {
            c.check(x.empty() && !static_cast<bool>(x), "step %d: %s[%zu] should be empty", step, who, i);
            c.check(!x.typeId().valid(), "step %d: empty variant has a type", step);
            return;
        }
        auto const &k = ks[(size_t)cell.kind];
        auto const *e = k.verify(x, x, cell.val);
        if (e) c.fail("step %d: %s[%zu] should hold %s #%d: %s", step, who, i, k.name, cell.val, e);
    }
    void verify()
    {
        auto saved = led::throw_countdown(); led::throw_countdown() = -1;
        c.check(v.size() == m.size(), "pool size differs");
        for (size_t i = 0; i < v.size(); ++i) {
            verify_one(v[i], m[i], "v", i);
            // something the variant does not hold
            if (!v.empty()) {
                size_t o = (size_t)(m[i].kind + 1 + step) % ks.size();
                if ((int)o != m[i].kind && (m[i].kind < 0 || ks[o].id() != ks[(size_t)m[i].kind].id()) && unrelated(o, m[i].kind))
                    c.check(!ks[o].is(v[i]), "step %d: v[%zu] claims to hold %s", step, i, ks[o].name);
            }
        }
        led::throw_countdown() = saved;
        if (*led::error()) c.fail("step %d: %s", step, led::error());
    }
    // kinds whose decayed types differ never satisfy is<> for each other
    bool unrelated(size_t a, int b) const
    {
        if (b < 0) return true;
        return rtti::MetaType{ks[a].id()}.decayId() != rtti::MetaType{ks[(size_t)b].id()}.decayId();
    }
};

// run op; true if it completed, false if an injected fault came out of it
template<class F> inline bool guarded(Sut &s, F &&f)
{
    try { f(); return true; }
    catch (led::Boom const &) { s.sawThrow = true; }
    catch (std::bad_alloc const &) { s.sawThrow = true; }
    return false;
}

struct Config { bool faults; bool ledger; size_t maxPool; };

inline void run(pbt::Ctx &c, std::vector<Kind> const &ks, Config cfg)
{
    led::reset();
    int distinctOps = 0; bool crossStorage = false, threw = false; int nsteps = 0;
    {
        Sut s{c, ks, cfg.faults, cfg.ledger};
        unsigned opsSeen = 0;
        size_t n0 = 2 + c.draw(3);
        for (size_t i = 0; i < n0; ++i) { s.v.emplace_back(); s.m.emplace_back(); }
        auto pick_kind = [&] { return (int)c.draw(ks.size()); };
        auto pick_val = [&] { return (int)c.draw(40); };
        while (nsteps < 40 && c.more(14)) {
            ++nsteps; s.step = nsteps;
            auto &v = s.v; auto &m = s.m;
            size_t i = c.draw(v.size()), j = c.draw(v.size());
            unsigned op = (unsigned)c.weighted({10, 10, 8, 8, 5, 3, 5, 4, 3, 3, 2, 2, 4, 3, 3, 4});
            opsSeen |= 1u << op;
            // arm faults
            bool armed = false; int allocN = 0;
            if (cfg.faults && c.chance(1, 4)) {
                armed = true;
                if (c.chance(1, 2)) led::throw_countdown() = (long)c.range(1, 4);
                else allocN = (int)c.range(1, 3);
            }
            led::threw() = false;
            struct Arm { Arm(int n) { pbt::g_alloc_countdown = n > 0 ? n : -1; } ~Arm() { pbt::g_alloc_countdown = -1; } };
            switch (op) {
            case 0: {   // assign a value
                int k = pick_kind(), val = pick_val(), form = (int)c.draw(3);
                c.note("%d: v[%zu] = %s #%d (%s)%s", s.step, i, ks[k].name, val, form == 0 ? "rvalue" : form == 1 ? "lvalue" : "const lvalue", armed ? " [fault armed]" : "");
                if (m[i].kind >= 0 && (ks[(size_t)m[i].kind].flags & kinds::ARR) != (ks[(size_t)k].flags & kinds::ARR)) crossStorage = true;
                if (guarded(s, [&] { Arm a(allocN); ks[k].assign(v[i], val, form); })) m[i] = {k, val};
                break;
            }
            case 1: {   // construct a fresh variant and move it in
                int k = pick_kind(), val = pick_val(), form = (int)c.draw(3);
                c.note("%d: v[%zu] = variant(%s #%d, form %d)%s", s.step, i, ks[k].name, val, form, armed ? " [fault armed]" : "");
                if (guarded(s, [&] { Arm a(allocN); v[i] = ks[k].make(val, form); })) m[i] = {k, val};
                break;
            }
            case 2: {   // copy assign
                c.note("%d: v[%zu] = v[%zu]%s", s.step, i, j, armed ? " [fault armed]" : "");
                bool moveOnly = m[j].kind >= 0 && !(ks[(size_t)m[j].kind].flags & kinds::CP);
                try {
                    if (guarded(s, [&] { Arm a(allocN); v[i] = v[j]; })) {
                        c.check(!moveOnly || i == j, "step %d: copying move-only content succeeded", s.step);
                        m[i] = m[j];
                    }
                } catch (rtti::runtime_error const &) { c.check(moveOnly && i != j, "step %d: copying copyable content was refused", s.step); c.label("refused copy of move-only content"); }
                break;
            }
            case 3: {   // move assign
                c.note("%d: v[%zu] = move(v[%zu])", s.step, i, j);
                v[i] = std::move(v[j]);
                if (i != j) { m[i] = m[j]; m[j] = Cell{}; }
                break;
            }
            case 4: {   // swap
                c.note("%d: swap(v[%zu], v[%zu])", s.step, i, j);
                using std::swap; swap(v[i], v[j]); std::swap(m[i], m[j]);
                break;
            }
            case 5: c.note("%d: v[%zu].clear()", s.step, i); v[i].clear(); m[i] = Cell{}; break;
            case 6: {   // copy construct, use, and swap in
                c.note("%d: { variant t(v[%zu]); swap(t, v[%zu]); }%s", s.step, j, i, armed ? " [fault armed]" : "");
                bool moveOnly = m[j].kind >= 0 && !(ks[(size_t)m[j].kind].flags & kinds::CP);
                try {
                    bool made = false;
                    guarded(s, [&] {
                        Arm a(allocN); variant t(v[j]); pbt::g_alloc_countdown = -1; led::throw_countdown() = -1; made = true;
                        s.verify_one(t, m[j], "copy of v", j);
                        using std::swap; swap(t, v[i]); s.verify_one(t, m[i], "swapped-out v", i);
                    });
                    if (made) { c.check(!moveOnly, "step %d: copying move-only content succeeded", s.step); m[i] = m[j]; }
                } catch (rtti::runtime_error const &) { c.check(moveOnly, "step %d: copying copyable content was refused", s.step); }
                break;
            }
            case 7: {   // move construct and put back / drop
                bool back = c.draw(2);
                c.note("%d: { variant t(move(v[%zu])); %s }", s.step, i, back ? "v = move(t)" : "drop");
                {
                    variant t(std::move(v[i])); c.check(v[i].empty(), "step %d: moved-from variant is not empty", s.step);
                    s.verify_one(t, m[i], "moved v", i);
                    if (back) v[i] = std::move(t);
                }
                if (!back) m[i] = Cell{};
                break;
            }
            case 8: {   // grow the pool
                if (v.size() < cfg.maxPool) {
                    bool ins = c.draw(2);
                    int k = pick_kind(), val = pick_val();
                    c.note("%d: pool %s %s #%d", s.step, ins ? "insert front" : "push_back", ks[k].name, val);
                    led::throw_countdown() = -1;
                    if (ins) { v.insert(v.begin(), ks[k].make(val, 0)); m.insert(m.begin(), Cell{k, val}); }
                    else { v.push_back(ks[k].make(val, 0)); m.push_back(Cell{k, val}); }
                }
                break;
            }
            case 9: if (v.size() > 1) { c.note("%d: pool erase %zu", s.step, i); v.erase(v.begin() + (long)i); m.erase(m.begin() + (long)i); } break;
            case 10: c.note("%d: pool reverse", s.step); std::reverse(v.begin(), v.end()); std::reverse(m.begin(), m.end()); break;
            case 11: c.note("%d: pool rotate %zu", s.step, i); std::rotate(v.begin(), v.begin() + (long)i, v.end()); std::rotate(m.begin(), m.begin() + (long)i, m.end()); break;
            case 12: if (m[i].kind >= 0) {
                int val = pick_val(); led::throw_countdown() = -1;
                c.note("%d: write #%d through v[%zu].ref", s.step, val, i); ks[(size_t)m[i].kind].mutate(v[i], val); m[i].val = val; } break;
            case 13: if (m[i].kind >= 0) {
                bool t = c.draw(2); c.note("%d: v[%zu].%s<own type>%s", s.step, i, t ? "tryConvert" : "convert", armed ? " [fault armed]" : "");
                guarded(s, [&] { Arm a(allocN); if (t) ks[(size_t)m[i].kind].try_convert(v[i]); else ks[(size_t)m[i].kind].convert(v[i]); }); } break;
            case 14: {  // conversion to something it is not: refused, unchanged
                size_t o = c.draw(ks.size());
                if (!(ks[o].flags & kinds::ARR) && (ks[o].flags & kinds::CP) && s.unrelated(o, m[i].kind)) {
                    bool t = c.draw(2); c.note("%d: v[%zu].%s<%s> (must be refused)", s.step, i, t ? "tryConvert" : "convert", ks[o].name);
                    if (t) c.check(!ks[o].try_convert(v[i]), "step %d: tryConvert to an unrelated type succeeded", s.step);
                    else { bool threw_ = false; try { ks[o].convert(v[i]); } catch (rtti::bad_variant_convert const &) { threw_ = true; } c.check(threw_, "step %d: convert to an unrelated type succeeded", s.step); }
                }
                break;
            }
            case 15: if (m[i].kind >= 0) {   // its own content
                auto &k = ks[(size_t)m[i].kind]; int form = k.flags & kinds::CP ? (int)c.draw(3) : 0; if (form == 0) { led::throw_countdown() = -1; allocN = 0; armed = false; }
                c.note("%d: v[%zu] = its own content (%s)%s", s.step, i, form == 0 ? "moved" : form == 1 ? "lvalue" : "const lvalue", armed ? " [fault armed]" : "");
                guarded(s, [&] { Arm a(allocN); k.own(v[i], form); }); } break;
            }
            led::throw_countdown() = -1; pbt::g_alloc_countdown = -1;
            s.verify();
        }
        distinctOps = __builtin_popcount(opsSeen); threw = s.sawThrow;
        // independence of copies: destroy in a generated order
        while (!s.v.empty()) {
            size_t i = c.draw(s.v.size()); s.v.erase(s.v.begin() + (long)i); s.m.erase(s.m.begin() + (long)i);
        }
        s.step = 9999;
    }
    if (*led::error()) c.fail("%s", led::error());
    c.check(led::alive() == 0, "%zu object(s) were never destroyed (created %ld, destroyed %ld)", led::alive(), led::created(), led::destroyed());
    c.check(led::hard_shells() == 0, "%zu moved-from object(s) were never destroyed", led::hard_shells());
    if (led::soft_shells()) c.excluded("moved-from shell of a small movable object not destroyed (KF)");
    if (threw) c.label("an injected fault propagated");
    if (crossStorage) c.label("array replaced by non-array or back");
    if (nsteps >= 4 && distinctOps >= 3) c.nontrivial();
}
} // namespace hist
