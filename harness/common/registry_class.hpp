// The class half of registry.hpp, instantiated for one class per translation unit.
#pragma once
#include <common/registry.hpp>

namespace reg {
template<int I, class D> void base_op(D &d, int k)       // one of the base lists of RC<I>
{
    if constexpr (I == 3) d = d.template _base<RC<0>>();
    else if constexpr (I == 8) d = d.template _base<RC<7>>();
    else if constexpr (I == 4) switch (k) { case 0: d = d.template _base<RC<1>, RC<2>>(); break; case 1: d = d.template _base<RC<2>, RC<1>>(); break; case 2: d = d.template _base<RC<1>>(); break; default: d = d.template _base<RC<2>>(); }
    else if constexpr (I == 5) switch (k) { case 0: d = d.template _base<RC<3>, RC<4>>(); break; case 1: d = d.template _base<RC<4>, RC<3>>(); break; case 2: d = d.template _base<RC<4>>(); break; case 3: d = d.template _base<RC<3>>(); break; case 4: d = d.template _base<RC<0>, RC<1>, RC<4>>(); break; default: d = d.template _base<RC<2>>(); }
    else if constexpr (I == 6) switch (k) { case 0: d = d.template _base<RC<5>>(); break; case 1: d = d.template _base<RC<4>, RC<5>>(); break; default: d = d.template _base<RC<0>>(); }
}
std::vector<int> base_list(int i, int k);
extern template void ns_body<1, N0>(World &, N0, Node *);

template<int I, class D> void class_body(World &w, D d, Node *n)
{
    using C = RC<I>; Node *attr = n, *en = nullptr; auto self = [n](Node *x) { return x == n; };
    for (;;) {
        Op o = w.next(n, 2, attr != nullptr, en && attr == en, I);
        if (o.kind == STOP) { if (o.abandon) w.abandon = true; return; }
        if (common_op(w, d, n, o, attr, en)) continue;
        std::string nm = o.name;
        switch (o.kind) {
        case CLASS: if constexpr (I < 2) { if (o.k & 1 ? class_in<11>(w, d, n, nm, false) : class_in<10>(w, d, n, nm, false)) { attr = n; en = nullptr; } if (w.abandon) return; } break;
        case METHOD: { Ask a(w, "_method", self); switch (o.k) {
            case 0: d = d._method(nm, &C::m0); break; case 1: d = d._method(nm, &C::m1); break; case 2: d = d._method(nm, &C::m2); break; case 3: d = d._method(nm, &C::m3); break;
            case 4: d = d._method(nm, &C::m4); break; case 5: d = d._method(nm, &C::f5); break; case 6: d = d._method(nm, &C::f6); break; default: d = d._method(nm, &C::f7); } nm.assign(nm.size(), '#'); }
            w.add(n, mcatMethod, method_sig(I, o.k, o.name), -1, o.k, o.name); w.touched(n); attr = nullptr; break;
        case PROP: { Ask a(w, "_property", self); switch (o.k) { case 0: d = d._property(nm, &C::a); break; case 1: d = d._property(nm, &C::b); break; case 2: d = d._property(nm, &C::s); break; case 3: d = d._property(nm, &C::get, &C::set); break; default: d = d._property(nm, &C::k); } nm.assign(nm.size(), '#'); }
            w.add(n, mcatProperty, o.name, -1, o.k); w.touched(n); attr = nullptr; break;
        case CTOR: { Ask a(w, "_constructor", self); switch (o.k) { case 0: d = d.template _constructor<int>(); break; case 1: d = d.template _constructor<int, int>(); break; case 2: d = d.template _constructor<int>(nm); break; default: d = d.template _constructor<int, int>(nm); } nm.assign(nm.size(), '#'); }
            w.add(n, mcatConstructor, (o.k < 2 ? "constructor" : o.name) + (o.k & 1 ? "(int, int)" : "(int)"), -1, 1 + (o.k & 1)); attr = nullptr; break;
        case BASE: {
            auto bs = base_list(I, o.k); bool ok = true, threw = false; for (int b : bs) ok &= w.cls[b] != nullptr;
            { Ask a(w, "_base", self); try { base_op<I>(d, o.k); } catch (unregistered_metaclass const &) { threw = true; } }
            w.c.check(threw == !ok, "naming %s class as a base of RC<%d> is %s", ok ? "a registered" : "an unregistered", I, threw ? "refused" : "accepted");
            if (threw) { ++w.refused; w.classFacts(n, true); for (int b : bs) if (w.cls[b]) w.classFacts(w.cls[b], true); }
            else { for (int b : bs) { bool seen = false; for (int x : n->bases) seen |= x == b; if (seen) { ++w.repeats; continue; } n->bases.push_back(b); w.cls[b]->derived.push_back(I); } w.touched(n); }
            break; }
        case LAZY: {
            auto was = n->def; auto def = was ? nullptr : w.defer(n); bool refused = false; World *pw = &w;
            { Ask a(w, "_lazy", [](Node *) { return false; }); try { d = d._lazy([pw, def](meta_define<C> x) { if (!def) pw->c.fail("a refused deferred definition was executed"); pw->enter(*def); class_body<I>(*pw, x, def->n); pw->abandon = false; pw->leave(*def); }); } catch (definition_error const &) { refused = true; } }
            w.c.check(refused == !!was, "a deferred definition of %s is %s while %s is pending", n->path().c_str(), refused ? "refused" : "accepted", was ? "one" : "none");
            if (refused) ++w.refused; break; }
        case QUERY: w.query(); break;
        case ELSEWHERE: { ++w.elsewhere; auto g = global_define(); ns_body<1>(w, static_cast<N0>(g), w.root); w.abandon = false; --w.elsewhere; break; }
        default: break;
        }
    }
}
template<int I, class D> bool class_in(World &w, D &d, Node *n, std::string const &name, bool byType)
{
    std::string nm = byType ? ops[I].typeName() : name, key = nm; std::optional<meta_define<RC<I>, D>> x; bool refused = false;
    { Ask a(w, "_class", [n](Node *y) { return y == n || (y->cat == mcatClass && y->owner == n); }); try { if (byType) x.emplace(d.template _class<RC<I>>()); else x.emplace(d.template _class<RC<I>>(nm)); } catch (duplicate_metaclass const &) { refused = true; } }
    nm.assign(nm.size(), '#');
    Node *there = n->kid(mcatClass, key); bool bad = there ? there->type != I : w.cls[I] != nullptr;
    w.c.check(bad == refused, "declaring RC<%d> as %s is %s although the name is %s and the class is %s", I, (n->path() + "::" + key).c_str(), refused ? "refused" : "accepted", there ? there->type == I ? "its own" : "another class'" : "free", w.cls[I] ? "already registered" : "not registered");
    if (refused) { ++w.refused; w.finds(); if (there && !there->def) w.verify(there, false); return false; }
    if (there) ++w.repeats;
    bool fresh = !there; Node *ch = w.add(n, mcatClass, key, I); if (fresh) { w.cls[I] = ch; for (int i = 0; i < 3; ++i) { static char const *s[] = {"d_constructor", "c_constructor", "m_constructor"}; w.add(ch, mcatConstructor, s[i], -1, i == 0 ? 0 : 9 + i); } }
    class_body<I>(w, *x, ch); if (w.abandon) return true; d = x->_end(); return true;
}
template<int I> struct ClassReg { ClassReg() {
    ops[I].id = [] { return metaTypeId<RC<I>>(); };
    ops[I].typeName = [] { return std::string(type_name<RC<I>>()); };
    ops[I].call = [](MetaMethod const *m, int k) -> long { RC<I> o; variant v{std::ref(o)}; switch (k) { case 0: case 1: case 4: return m->invoke(v, 1).template to<int>(); case 2: return m->invoke(v).template to<int>(); case 3: return m->invoke(v, 1, 2).template to<int>(); case 5: case 6: return m->invoke(1).template to<int>(); default: return m->invoke().template to<int>(); } };
    ops[I].get = [](MetaProperty const *p, int k) -> long { RC<I> o; variant v{std::ref(o)}; return k == 2 ? p->get().template to<int>() : p->get(v).template to<int>(); };
    ops[I].make = [](MetaConstructor const *p, int k) -> long { RC<I> o; switch (k) { case 0: { auto v = p->invoke(); return v.template is<RC<I>>() ? v.template ref<RC<I>>().made : -1; } case 1: { auto v = p->invoke(5); return v.template ref<RC<I>>().made; } case 2: { auto v = p->invoke(5, 6); return v.template ref<RC<I>>().made; } case 10: { o.a = 77; auto v = p->invoke(o); return v.template ref<RC<I>>().a == 77 && o.a == 77 ? 10 : -1; } default: { o.a = 78; auto v = p->invoke(std::move(o)); return v.template ref<RC<I>>().a == 78 && o.a == -1 ? 11 : -1; } } };
} };
} // namespace reg
