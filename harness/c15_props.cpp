// C15: properties read and write exactly the underlying member or accessor.
#include <common/props.hpp>
using namespace props;
namespace {
enum Form { VAL_, CVAL, RVAL, REF, CREFV, KREF, PTRF, CPTRV, KPTR, CKPTR, OBJ, RAWPTR, RAWKPTR, STDREF, FORMS_ };
char const *form_text(int i) { static char const *n[] = {"variant", "const variant", "variant rvalue", "variant of ref", "const variant of ref", "variant of cref", "variant of pointer", "const variant of pointer", "variant of pointer to const", "const variant of pointer to const", "object", "pointer", "pointer to const", "std::ref"}; return n[i]; }
bool writable(int f) { return f == VAL_ || f == REF || f == PTRF || f == CPTRV || f == RAWPTR; }

void setup15()
{
    static bool done = false; if (done) return; done = true;
    setup();
    rtti::global_define()._class<Owner>("Owner")._end()._class<Sub>("Sub")._base<Owner>()._end();
    auto *g = rtti::MetaNamespace::global(); auto *o = g->getClass("Owner"), *s = g->getClass("Sub");
    for (int i = 0; i < N; ++i) {
        ops(i).define();
        for (int k = 0; k < CELLS; ++k) {
            auto n = prop_name(i, k); prop(0, i, k) = k < OBJ_CELLS ? o->getProperty(n) : nullptr; prop(1, i, k) = k < OBJ_CELLS ? s->getProperty(n) : nullptr;
            prop(2, i, k) = k >= SMEM && k <= SCREF ? o->getProperty(n) : nullptr; prop(3, i, k) = k >= SCMEM ? g->getProperty(n) : nullptr;
        }
    }
}
struct Object { bool sub, held; std::unique_ptr<Owner> o; std::unique_ptr<Sub> s; variant v; void *at = nullptr;      // at: an Owner* or a Sub*
    Object(bool sub, bool held): sub(sub), held(held)
    {
        if (held) { if (sub) { v = variant{Sub{}}; at = const_cast<Sub *>(const_cast<variant const &>(v).data<Sub>()); } else { v = variant{Owner{}}; at = const_cast<Owner *>(const_cast<variant const &>(v).data<Owner>()); } }
        else if (sub) { s.reset(new Sub); at = s.get(); } else { o.reset(new Owner); at = o.get(); }
    }
    void *owner() { return sub ? static_cast<Owner *>(static_cast<Sub *>(at)) : at; }
};
struct World {
    std::vector<std::unique_ptr<Object>> objs; std::vector<std::vector<long>> want;      // per object, then statics, globals
    World() { for (int i = 0; i < 4; ++i) objs.emplace_back(new Object(i & 1, i & 2)); for (int i = 0; i < N; ++i) ops(i).reset(); want.resize(6); for (size_t w = 0; w < 6; ++w) want[w] = snap(w); }
    // where cell k of type i of group s is, in object w
    void *cell(size_t w, int s, int i, int k) { return ops(i).cell(s, s == 0 ? objs[w]->owner() : s == 1 ? objs[w]->at : nullptr, k); }
    static size_t slot(int s, int i, int k) { return (size_t)((s == 1 ? N * CELLS : 0) + i * CELLS + k); }
    std::vector<long> snap(size_t w)
    {
        std::vector<long> r(2 * N * CELLS, 0);
        for (int i = 0; i < N; ++i) {
            if (w < 4) { for (int k = 0; k < OBJ_CELLS; ++k) { r[slot(0, i, k)] = ops(i).fp(cell(w, 0, i, k)); if (objs[w]->sub) r[slot(1, i, k)] = ops(i).fp(cell(w, 1, i, k)); } }
            else if (w == 4) for (int k = SMEM; k <= SCREF; ++k) r[slot(0, i, k)] = ops(i).fp(cell(w, 2, i, k));
            else for (int k : {SCMEM, GMEM, GCREF}) r[slot(0, i, k)] = ops(i).fp(cell(w, 3, i, k));
        }
        return r;
    }
    void verify(pbt::Ctx &c, std::string const &what)
    {
        for (size_t w = 0; w < 6; ++w) { auto now = snap(w); if (now == want[w]) continue;
            for (size_t i = 0; i < now.size(); ++i) if (now[i] != want[w][i]) c.fail("%s: %s%zu of %s %zu is %ld, not %ld", what.c_str(), cell_name((int)(i % CELLS)), i / CELLS % N, w < 4 ? "object" : w == 4 ? "statics" : "globals", w, now[i], want[w][i]); }
    }
};
struct Alias { variant v; int type; size_t w, slot; bool mut; };
// calls f with the instance expression: object w, seen as its own class or as Owner
template<class S, class F> void with_as(S &s, Object &o, int form, F &&f)
{
    switch (form) {
    case VAL_: f(o.v); break;
    case CVAL: f(const_cast<variant const &>(o.v)); break;
    case RVAL: f(std::move(o.v)); break;
    case REF: { variant v{std::ref(s)}; f(v); break; }
    case CREFV: { variant const v{std::ref(s)}; f(v); break; }
    case KREF: { variant v{std::cref(s)}; f(v); break; }
    case PTRF: { variant v{&s}; f(v); break; }
    case CPTRV: { variant const v{&s}; f(v); break; }
    case KPTR: { variant v{const_cast<S const *>(&s)}; f(v); break; }
    case CKPTR: { variant const v{const_cast<S const *>(&s)}; f(v); break; }
    case OBJ: f(s); break;
    case RAWPTR: f(&s); break;
    case RAWKPTR: f(const_cast<S const *>(&s)); break;
    default: f(std::ref(s)); break;
    }
}
template<class F> void with(Object &o, bool asOwner, int form, F &&f)
{ if (o.sub && !asOwner) with_as(*static_cast<Sub *>(o.at), o, form, f); else with_as(*static_cast<Owner *>(o.owner()), o, form, f); }

void history(pbt::Ctx &c, int refusals)
{
    setup15(); long live = Trk::live;
    {
    World w; std::vector<Alias> aliases; Other other{1}; Unreg unreg{1};
    do {
        int s = (int)c.weighted({5, 4, 2, 2}), i = (int)c.draw(N), k;
        if (s < 2) k = (int)c.draw(OBJ_CELLS); else if (s == 2) k = SMEM + (int)c.draw(4); else { static int const g[] = {GMEM, GCREF, SCMEM}; k = c.pick(g); }
        auto const *p = prop(s, i, k); auto name = prop_name(i, k); c.check(p != nullptr, "property %s is not found", name.c_str());
        bool readonly = k == CMEM || k == SCMEM, accessor = k != MEM && k != CMEM && k != SMEM && k != SCMEM && k != GMEM;
        c.check(p->readOnly() == readonly, "readOnly of %s is %d", name.c_str(), p->readOnly());
        bool set = c.chance(3, 5), byName = s < 2 && c.chance(1, 2), isStatic = s >= 2;
        size_t oi = c.draw(4); auto &o = *w.objs[oi]; bool asOwner = o.sub && c.chance(1, 3); int form = (int)c.draw(byName ? OBJ : FORMS_);
        if (!o.held && form <= RVAL) form = REF; if (o.held && c.chance(1, 3)) form = VAL_;
        if (set && form == RVAL) form = VAL_;
        if (byName && form == RVAL) form = VAL_;
        if (form <= RVAL || form == OBJ) asOwner = false;
        int misuse = c.chance((unsigned)refusals, 20) ? 1 + (int)c.draw(3) : 0;       // 1: instance for a static or none for a member; 2: wrong class; 3: unknown name
        if (byName && misuse == 1) misuse = 0;
        plog = Log{}; plog.boom = accessor && c.chance(1, 12); bool boom = plog.boom;
        std::unique_ptr<Holder> h;
        if (set) { Param pm{i, k == RR ? RREF : k == CREF_ || k == MUT || k == SCREF || k == GCREF ? CREF : BYVAL}; h = draw_arg(c, pm, !c.chance((unsigned)refusals, 8)); }
        Expect ex{OK, 0, nullptr, 0}; Param pm{i, k == RR ? RREF : k == CREF_ || k == MUT || k == SCREF || k == GCREF ? CREF : BYVAL}; if (set) ex = expect(pm, *h);
        std::string where = isStatic ? "" : std::string(" of a ") + form_text(form) + (o.sub ? " of a Sub" : " of an Owner") + (asOwner ? " seen as Owner" : "");
        std::string what = std::string(set ? "set " : "get ") + (s == 0 ? "Owner::" : s == 1 ? "Sub::" : s == 2 ? "static Owner::" : "::") + name + where + (byName ? " by name" : "") + (set ? " to " + calls::describe(pm, *h) : "") + (misuse == 1 ? isStatic ? " with an instance" : " without an instance" : misuse == 2 ? " on another class" : misuse == 3 ? " by an unknown name" : "") + (boom ? ", throwing" : "");
        c.note("%s", what.c_str());
        variant r; Outcome out; auto arg = [&]() -> argument && { return std::move(*h->arg); };
        int es = s;                                                         // the group really meant
        if (byName && !o.sub) es = 0; else if (byName) es = 1;              // Sub's property hides its base's
        auto dox = [&](auto &&inst) {
            using D = std::decay_t<decltype(inst)>;
            if (byName) {
                if constexpr (std::is_same_v<D, variant>) {
                    auto nm = misuse == 3 ? name + "_" : name;
                    if (!set) r = inst.get_property(nm);
                    else if constexpr (!std::is_const_v<std::remove_reference_t<decltype(inst)>>) inst.set_property(nm, arg());
                }
            } else if (set) p->set(std::forward<decltype(inst)>(inst), arg()); else r = p->get(std::forward<decltype(inst)>(inst));
        };
        if (byName && set && (form == CVAL || form == CREFV || form == CPTRV || form == CKPTR)) { c.excluded("const variants have no set_property"); continue; }
        if (byName && misuse == 2) {
            variant v = c.chance(1, 2) ? variant{std::ref(unreg)} : c.chance(1, 2) ? variant{5} : c.chance(1, 2) ? variant{} : variant{&other};
            out = attempt([&] { dox(v); }); c.check(out == RUNTIMEERR && !plog.gets && !plog.sets, "%s %s", what.c_str(), outcome_name(out)); if (set) c.check(h->fp() == h->fp0, "%s: the argument changed", what.c_str());
            w.verify(c, what); c.label("wrong class by name"); c.nontrivial(); continue;
        }
        if (misuse == 3 && !byName) misuse = 0;
        bool useInstance = (misuse == 1) == isStatic;
        out = attempt([&] {
            if (misuse == 2 && !isStatic) { if (c.chance(1, 2)) dox(std::ref(other)); else dox(&unreg); return; }
            if (!useInstance) { if (set) p->set(arg()); else r = p->get(); return; }
            if (misuse == 1) { with(o, asOwner, form, dox); return; }
            if (!set && form == OBJ && k != VAL) { form = STDREF; }        // an alias into a temporary
            with(o, asOwner, form, dox);
        });
        auto refuse = [&](bool ok, char const *label) {
            c.check(ok && !plog.gets && !plog.sets && r.empty(), "%s %s%s", what.c_str(), outcome_name(out), plog.gets + plog.sets ? ", an accessor ran" : "");
            if (set) c.check(h->fp() == h->fp0, "%s: the argument changed", what.c_str());
            c.label(label); c.nontrivial(); };
        void *cell = isStatic ? w.cell(0, s, i, k) : nullptr; size_t world = isStatic ? (size_t)s + 2 : oi;
        if (!isStatic && (es == 0 || o.sub)) cell = w.cell(oi, es, i, k);
        bool mo = i == MO_PARAM; bool cast = out == CASTERR || (set && mo && out == RUNTIMEERR);      // values which cannot be copied are refused otherwise
        if (misuse == 3) refuse(out == RUNTIMEERR, "unknown name");
        else if (misuse == 1) refuse(out == INVOKEERR, "static or not");
        else if (misuse == 2 && !isStatic) refuse(cast || (set && readonly && out == INVOKEERR), "wrong class");
        else if (!isStatic && !cell) refuse(cast || (set && readonly && out == INVOKEERR), "property of a derived class");
        else if (set && readonly) refuse(out == INVOKEERR || (!isStatic && !writable(form) && cast), "read-only");
        else if (set && !isStatic && !writable(form)) refuse(cast, "const instance");
        else if (set && (ex.v == REFUSE || (mo && k != RR))) {
            if (mo && (k == CREF_ || k == MUT || k == SCREF || k == GCREF) && ex.v == OK) {} else refuse(cast, "unsuitable value"); }
        else if (set && ex.v == EITHER && out != RETURNED && out != THREW) { c.excluded("argument not judged"); }
        else if (boom) { c.check(out == THREW && plog.gets + plog.sets == 1, "%s %s", what.c_str(), outcome_name(out)); c.label("accessor threw"); }
        else if (set) {
            c.check(out == RETURNED && plog.gets == 0 && plog.sets == accessor, "%s %s (%d reads, %d writes)", what.c_str(), outcome_name(out), plog.gets, plog.sets);
            if (ex.v == EITHER) w.want[world][World::slot(es == 1 && !isStatic, i, k)] = ops(i).fp(cell); else
            w.want[world][World::slot(es == 1 && !isStatic, i, k)] = ex.fp; if (ex.after == 0) c.check(h->fp() == h->fp0, "%s: the argument changed", what.c_str());
            c.label(isStatic ? "static written" : o.sub && es == 0 ? "inherited written" : "written"); c.nontrivial();
        } else {
            c.check(out == RETURNED && plog.gets == accessor && plog.sets == 0, "%s %s (%d reads, %d writes)", what.c_str(), outcome_name(out), plog.gets, plog.sets);
            bool byValue = k == VAL || k == SVAL, mut = k == MUT; long now = w.want[world][World::slot(es == 1 && !isStatic, i, k)];
            if (byValue) { if (!mo) c.check(ops(i).value(r, now), "%s: the result is not the value", what.c_str()); }
            else {
                c.check(ops(i).alias(r, cell, mut), "%s: the result is not a%s alias of the property", what.c_str(), mut ? " mutable" : "n immutable");
                if (mut && c.chance(1, 3)) { w.want[world][World::slot(es == 1 && !isStatic, i, k)] = ops(i).bump(r); c.label("written through an alias"); }
                if (aliases.size() < 6) aliases.push_back(Alias{std::move(r), i, world, World::slot(es == 1 && !isStatic, i, k), mut});
            }
            c.label(isStatic ? "static read" : o.sub && es == 0 ? "inherited read" : "read"); if (!isStatic || accessor) c.nontrivial();
        }
        plog.boom = false;
        w.verify(c, what);
        for (auto &a : aliases) c.check(ops(a.type).alias_fp(a.v) == w.want[a.w][a.slot], "after %s an alias got earlier does not show the current value", what.c_str());
    } while (c.more(10));
    for (int i = 0; i < N; ++i) ops(i).reset();
    }
    c.check(Trk::live == live, "%ld tracked objects are left", Trk::live - live);
    plog = Log{};
}
LAW(histories, pbt::LEAKS, 24000, 800000, "gets and sets of 224 properties (members, const members, statics, globals, accessor pairs by value, by reference and by rvalue; 14 value types) of four objects in 14 instance forms, directly and by name, with values of 17 types in 18 forms; all cells of all objects are compared with a model after each step; non-trivial: anything but reading a static")
{ history(c, 2); }
LAW(refusals, pbt::LEAKS, 16000, 400000, "as histories, but mostly accesses which must be refused: read-only properties, const objects, wrong classes, unknown names, unsuitable values, instances where there is none")
{ history(c, 9); }
LAW(listed, pbt::PLAIN, 2000, 20000, "a property is found by its name in its class, in derived classes and by index, with its owner; non-trivial: every case")
{
    setup15(); auto *g = rtti::MetaNamespace::global(); auto *o = g->getClass("Owner"), *s = g->getClass("Sub"); int i = (int)c.draw(N), k = (int)c.draw(CELLS); auto n = prop_name(i, k);
    auto *po = o->getProperty(n), *ps = s->getProperty(n), *pg = g->getProperty(n);
    c.check((po != nullptr) == (k <= SCREF) && (pg != nullptr) == (k >= SCMEM && k != SVAL && k != SCREF), "%s is found in the wrong places", n.c_str());
    c.check(k < OBJ_CELLS ? ps && ps != po && ps->owner() == s : ps == po, "%s of Sub is another", n.c_str());
    for (auto *p : {po, ps, pg}) if (p) c.check(p->name() == n && p->category() == rtti::mcatProperty && p->readOnly() == (k == CMEM || k == SCMEM), "property %s says it is %s", n.c_str(), p->name().c_str());
    c.nontrivial();
}
} // namespace
