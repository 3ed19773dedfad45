#include "stream.h"
#include "objs.h"
#include "dyn.h"

using namespace doc;
using namespace Srl;
using objs::new_parser;

/* every object is counted, alive objects are marked */
struct Count {
    static int live; static bool twice; uint32_t mark = 0xA11FE;
    Count() { live++; } Count(const Count&) { live++; } ~Count() { if(mark != 0xA11FE) twice = true; mark = 0; live--; }
};
int Count::live = 0; bool Count::twice = false;

struct Base : Count {
    int v = 0;
    virtual ~Base() { }
    virtual const TypeID& srl_type_id();
    virtual void srl_resolve(Context& c) { c("v", v); }
    virtual int kind() const { return 0; }
};
struct Derived : Base { std::string t; const TypeID& srl_type_id() override; void srl_resolve(Context& c) override { Base::srl_resolve(c); c("t", t); } int kind() const override { return 1; } };
struct Pad { int64_t pad = 0x7777; virtual ~Pad() { } virtual int other() const { return 9; } };
struct Offset : Pad, Base { std::vector<int> w; const TypeID& srl_type_id() override; void srl_resolve(Context& c) override { c("w", w)("v", v); } int kind() const override { return 2; } };
struct Deep : Derived { std::vector<std::unique_ptr<Base>> sub; const TypeID& srl_type_id() override; void srl_resolve(Context& c) override { c("sub", sub); Derived::srl_resolve(c); } int kind() const override { return 3; } };
struct Bare : virtual Base { const TypeID& srl_type_id() override; void srl_resolve(Context&) override { } int kind() const override { return 4; } };
/* no relation to Base */
struct Other : Count { int v = 0; virtual ~Other() { } virtual const TypeID& srl_type_id(); virtual void srl_resolve(Context& c) { c("v", v); } };
/* abstract base */
struct Shape : Count { virtual ~Shape() { } virtual const TypeID& srl_type_id() = 0; virtual void srl_resolve(Context& c) = 0; virtual double area() = 0; };
struct Circle : Shape { double r = 0; const TypeID& srl_type_id() override; void srl_resolve(Context& c) override { c("r", r); } double area() override { return 3 * r * r; } };
struct Box : Shape { int a = 0, b = 0; const TypeID& srl_type_id() override; void srl_resolve(Context& c) override { c("a", a)("b", b); } double area() override { return a * b; } };

static const auto r0 = register_type<Base>("Base"); static const auto r1 = register_type<Derived>("Derived"); static const auto r2 = register_type<Offset>("Offset"); static const auto r3 = register_type<Deep>("Deep"); static const auto r4 = register_type<Bare>("Name with spaces and \"quotes\"");
static const auto r5 = register_type<Other>("Other"); static const auto r6 = register_type<Circle>("Circle"); static const auto r7 = register_type<Box>("Box, a longer name than what is stored inside of a string");
const TypeID& Base::srl_type_id() { return r0; } const TypeID& Derived::srl_type_id() { return r1; } const TypeID& Offset::srl_type_id() { return r2; } const TypeID& Deep::srl_type_id() { return r3; } const TypeID& Bare::srl_type_id() { return r4; }
const TypeID& Other::srl_type_id() { return r5; } const TypeID& Circle::srl_type_id() { return r6; } const TypeID& Box::srl_type_id() { return r7; }

static Base* make(int kind, int i)
{
    Base* r = nullptr;
    switch(kind) {
        case 0: r = new Base(); break;
        case 1: { auto* d = new Derived(); d->t = std::string(i * 7, 'd'); r = d; break; }
        case 2: { auto* d = new Offset(); d->w.assign(i, i); r = d; break; }
        case 3: { auto* d = new Deep(); d->t = "deep"; for(int k = 0; k < i % 3 + 1; k++) d->sub.emplace_back(make(k, i + k)); r = d; break; }
        case 4: r = new Bare(); return r;
    }
    r->v = 10 * i + kind;
    return r;
}

/* "" or the difference */
static std::string diff(Base* a, Base* b)
{
    if(!a || !b) return a == b ? "" : "null";
    if(typeid(*a) != typeid(*b) || a->kind() != b->kind()) return "dynamic type changed";
    if(a->v != b->v) return "content of the base changed";
    if(auto* p = dynamic_cast<Derived*>(a)) if(p->t != dynamic_cast<Derived*>(b)->t) return "content changed";
    if(auto* p = dynamic_cast<Offset*>(a)) { auto* q = dynamic_cast<Offset*>(b); if(p->w != q->w || q->pad != 0x7777 || q->other() != 9) return "content changed"; }
    if(auto* p = dynamic_cast<Deep*>(a)) { auto* q = dynamic_cast<Deep*>(b); if(p->sub.size() != q->sub.size()) return "nested objects changed"; for(size_t i = 0; i < p->sub.size(); i++) { auto d = diff(p->sub[i].get(), q->sub[i].get()); if(!d.empty()) return "nested " + d; } }
    return "";
}

static void all_gone(mc::X& x, const std::string& where)
{
    if(Count::twice) { Count::twice = false; x.fail("object destroyed twice", where); }
    if(Count::live) { auto n = Count::live; Count::live = 0; x.fail("object is not destroyed", where + " " + std::to_string(n)); }
}

/* a type holding a sequence of Base */
struct Raws { std::vector<Base*> v; Raws() { } Raws(const Raws&) = delete; ~Raws() { for(auto* p : v) delete p; } void add(Base* p) { v.push_back(p); } std::vector<Base*> list() { return v; }
    void resolve_list(Context& c) { c("list", v); } };
struct Uniques { std::vector<std::unique_ptr<Base>> v; void add(Base* p) { v.emplace_back(p); } std::vector<Base*> list() { std::vector<Base*> r; for(auto& p : v) r.push_back(p.get()); return r; } void resolve_list(Context& c) { c("list", v); } };
struct Shareds { std::list<std::shared_ptr<Base>> v; void add(Base* p) { v.emplace_back(p); } std::vector<Base*> list() { std::vector<Base*> r; for(auto& p : v) r.push_back(p.get()); return r; } void resolve_list(Context& c) { c("list", v); } };
struct Mapped { std::map<int, std::shared_ptr<Base>> v; void add(Base* p) { v.emplace((int)v.size(), p); } std::vector<Base*> list() { std::vector<Base*> r; for(auto& p : v) r.push_back(p.second.get()); return r; } void resolve_list(Context& c) { c("list", v); } };
struct Fields { Base* a = nullptr; std::unique_ptr<Base> b; std::shared_ptr<Base> c_; Base* d = nullptr; int n = 0; Fields() { } Fields(const Fields&) = delete; ~Fields() { delete a; delete d; }
    void add(Base* p) { if(n == 0) { delete a; a = p; } if(n == 1) b.reset(p); if(n == 2) c_.reset(p); if(n == 3) { delete d; d = p; } if(n == 4) delete p; n = std::min(n + 1, 4); }
    std::vector<Base*> list() { std::vector<Base*> r; for(int i = 0; i < n; i++) r.push_back(i == 0 ? a : i == 1 ? b.get() : i == 2 ? c_.get() : d); return r; }
    void resolve_list(Context& c) { c("n", n); if(n > 0) c("a", a); if(n > 1) c("b", b); if(n > 2) c("c", c_); if(n > 3) c("d", d); } };
template<class H> struct Whole { H h; int end = 0; void srl_resolve(Context& c) { h.resolve_list(c); c("end", end); } };

static const int Routes = 6;
static const char* names[] { "memory", "stream", "tree", "re-loaded tree", "another format", "over other objects" };

template<class H> static void round(mc::X& x, const std::vector<int>& kinds, int f, int route, int old = 1)
{
    auto where = std::string(names[route]) + ", " + fmt_name(f);
    {
        std::unique_ptr<Parser> pp(new_parser(f)); auto& p = *pp;
        Whole<H> a, b;
        for(size_t i = 0; i < kinds.size(); i++) a.h.add(make(kinds[i], i + 1));
        a.end = 55;
        Buf c;
        try {
            switch(route) {
                case 0: { c = Tree().store(a, p); Exact e(c); Tree().restore(b, e.src(), p); break; }
                case 1: { c = Tree().store(a, p); ChunkStream s(c, { 1, 9 }); Tree().restore(b, s, p); break; }
                case 2: { Tree t; t.load_object(a); t.root().paste(b); break; }
                case 3: { Tree t; t.load_object(a); c = t.to_source(p); Tree u; u.load_source(c.data(), c.size(), p); u.root().paste(b); break; }
                case 4: { c = Tree().store(a, p); Tree u; u.load_source(c.data(), c.size(), p); std::unique_ptr<Parser> q(new_parser((f + 1) % NumFmt)); auto d = u.to_source(*q); Tree().restore(b, d, *q); break; }
                case 5: { if(!std::is_same<H, Raws>::value) for(size_t i = 0; i < kinds.size(); i++) b.h.add(old > 4 ? nullptr : make((kinds[i] + old) % 5, i + 3)); c = Tree().store(a, p); Tree().restore(b, c, p); break; }
            }
        } catch(Exception& e) { x.fail("polymorphic objects refused", where + " " + e.what()); }
        x.step(); x.state(mc::mix(mc::hash(c), route));
        x.note("%s %s", where.c_str(), mc::show(c, 600).c_str());
        auto l = a.h.list(), m = b.h.list();
        if(l.size() != m.size()) x.fail("number of objects changed", where);
        for(size_t i = 0; i < l.size(); i++) { auto d = diff(l[i], m[i]); if(!d.empty()) x.fail(d, where + " object " + std::to_string(i) + " " + mc::show(c, 400)); }
        if(b.end != 55) x.fail("neighbouring field changed", where);
    }
    all_gone(x, where);
}

template<class H> static void sequences(mc::X& x, int max)
{
    int s = x.shard(1 + 5 + 25);
    std::vector<int> kinds;
    if(s > 0) kinds.push_back((s < 6 ? s - 1 : (s - 6) / 5));
    if(s > 5) { kinds.push_back((s - 6) % 5); int more = x.choose(max - 1); for(int i = 0; i < more; i++) kinds.push_back(x.choose(5)); }
    int f = x.choose(NumFmt);
    for(int r = 0; r < Routes; r++) round<H>(x, kinds, f, r);
    /* over objects of the same, each other and no type */
    if(!std::is_same<H, Raws>::value) for(int old = 0; old < 6; old++) if(old != 1 && (x.thorough || kinds.size() < 3 || std::is_same<H, Fields>::value)) round<H>(x, kinds, f, 5, old);
}
static const char* SB = "all sequences of 0..4 (thorough 5) objects of 5 dynamic types (base, derived, second base at an offset, nested objects, virtual base), 6 routes, among them over objects of the same and each other type, 4 formats";
MC_SCENARIO("vector of raw pointers", SB) { sequences<Raws>(x, x.thorough ? 5 : 4); }
MC_SCENARIO("vector of unique pointers", SB) { sequences<Uniques>(x, x.thorough ? 5 : 4); }
MC_SCENARIO("list of shared pointers", SB) { sequences<Shareds>(x, x.thorough ? 5 : 4); }
MC_SCENARIO("map of shared pointers", SB) { sequences<Mapped>(x, x.thorough ? 5 : 4); }
MC_SCENARIO("fields of raw, unique and shared pointers", SB) { sequences<Fields>(x, 4); }

MC_SCENARIO("abstract base", "all sequences of 0..5 objects of two classes with an abstract base in a vector of unique pointers and in fields, memory, stream and tree, all formats")
{
    int n = x.shard(6); int bits = x.choose(1 << n), f = x.choose(NumFmt), route = x.choose(3);
    struct S { std::vector<std::unique_ptr<Shape>> v; std::unique_ptr<Shape> one; void srl_resolve(Context& c) { c("v", v)("one", one); } };
    {
        S a, b;
        for(int i = 0; i <= n; i++) { std::unique_ptr<Shape> p; if(bits >> i & 1) { auto q = std::make_unique<Circle>(); q->r = i + 0.5; p = std::move(q); } else { auto q = std::make_unique<Box>(); q->a = i; q->b = 3; p = std::move(q); } if(i == n) a.one = std::move(p); else a.v.push_back(std::move(p)); }
        std::unique_ptr<Parser> pp(new_parser(f)); auto& p = *pp;
        auto c = Tree().store(a, p);
        if(route == 0) { Exact e(c); Tree().restore(b, e.src(), p); }
        if(route == 1) { ChunkStream s(c, { 1, 9 }); Tree().restore(b, s, p); }
        if(route == 2) { Tree t; t.load_source(c.data(), c.size(), p); t.root().paste(b); }
        x.step(); x.state(mc::hash(c));
        if(a.v.size() != b.v.size()) x.fail("number of objects changed");
        for(int i = 0; i <= n; i++) { auto *l = i == n ? a.one.get() : a.v[i].get(), *m = i == n ? b.one.get() : b.v[i].get(); if(!m || typeid(*l) != typeid(*m) || l->area() != m->area()) x.fail("dynamic type or content changed"); }
    }
    all_gone(x, "abstract base");
}

/* type names which do not fit */
static std::string named(const std::string& id, const std::string& fields) { return "{" + (id.empty() ? "" : "\"srl_type_id\":" + id + ",") + fields + "}"; }
static const std::vector<std::string> wrong { "\"Unknown\"", "\"\"", "\"base\"", "\"Base \"", "\"Base\\u0000\"", "\"Other\"", "\"Circle\"", "5", "null", "true", "1.5", "\"Bas\"", "\"Based\"", "" };
static const char* all_fields = "\"v\":1,\"t\":\"x\",\"w\":[1],\"sub\":[],\"r\":1,\"a\":1,\"b\":2";

template<class H> static void refused(mc::X& x, const Buf& b, int f, int route, int old, const std::string& j)
{
    std::unique_ptr<Parser> pp(new_parser(f)); auto& p = *pp;
    Whole<H> h;
    for(int i = 0; i < old; i++) h.h.add(make(i % 5, i));
    bool threw = false;
    try {
        if(route == 0) { Exact e(b); Tree().restore(h, e.src(), p); }
        if(route == 1) { ChunkStream s(b, { 1, 9 }); Tree().restore(h, s, p); }
        if(route == 2) { Tree t; t.load_source(b.data(), b.size(), p); t.root().paste(h); }
    } catch(Exception&) { threw = true; }
    x.step(); x.state(mc::mix(mc::hash(b), typeid(H).hash_code() + route));
    if(!threw) x.fail("wrong type name accepted", j);
    for(auto* o : h.h.list()) if(o) { if(o->mark != 0xA11FE) x.fail("destroyed object remains in place", j); o->kind(); }
}

MC_SCENARIO("wrong type names", "14 unknown, malformed, unrelated and missing type names at all places of a sequence of 1..3 objects, 5 holders, restored over nothing or other objects, 4 formats, memory, stream, tree: refused, every object destroyed once, old objects still valid")
{
    int w = x.shard(wrong.size());
    int holder = x.choose(5), n = x.choose(3) + 1, at = x.choose(n), kind = x.choose(3), f = x.choose(NumFmt), route = x.choose(3); bool old = x.flip();
    static const char* ids[] { "\"Base\"", "\"Deep\"", "\"Offset\"" };
    std::string fields;
    auto obj = [&](int i) { return i == at ? named(wrong[w], all_fields) : named(ids[kind], all_fields); };
    std::string j;
    if(holder < 4) {
        j = "{\"list\":[";
        for(int i = 0; i < n; i++) {
            auto o = obj(i);
            if(holder >= 2) o = "{\"srl_shared_key\":" + std::to_string(i) + ",\"srl_shared_value\":" + o + "}";
            if(holder == 3) o = "{\"key\":" + std::to_string(i) + ",\"value\":" + o + "}";
            j += (i ? "," : "") + o;
        }
        j += "],\"end\":1}";
    } else {
        j = "{\"n\":" + std::to_string(n);
        for(int i = 0; i < n; i++) j += std::string(",\"") + "abcd"[i] + "\":" + (i == 2 ? "{\"srl_shared_key\":0,\"srl_shared_value\":" + obj(i) + "}" : obj(i));
        j += ",\"end\":1}";
    }
    Buf b;
    { Tree t; t.load_source(j.data(), j.size(), PJson()); std::unique_ptr<Parser> pp(new_parser(f)); b = t.to_source(*pp); }
    x.note("%s", j.c_str());
    switch(holder) {
        case 0: refused<Raws>(x, b, f, route, 0, j); break;
        case 1: refused<Uniques>(x, b, f, route, old ? n : 0, j); break;
        case 2: refused<Shareds>(x, b, f, route, old ? n : 0, j); break;
        case 3: refused<Mapped>(x, b, f, route, old ? n : 0, j); break;
        case 4: refused<Fields>(x, b, f, route, old ? n : 0, j); break;
    }
    all_gone(x, j);
}

MC_SCENARIO("null pointers", "null in place of every object of a sequence of 1..4 (raw pointers and unique pointers in fields, shared pointers anywhere), restored over old objects: null afterwards, old objects destroyed; storing a null pointer to a registered class is refused")
{
    int bits = x.shard(16), f = x.choose(NumFmt), route = x.choose(3); bool old = x.flip();
    {
        std::unique_ptr<Parser> pp(new_parser(f)); auto& p = *pp;
        std::string j = "{\"n\":4";
        for(int i = 0; i < 4; i++) { std::string o = bits >> i & 1 ? (i == 2 ? "{\"srl_shared_key\":null}" : "null") : named("\"Derived\"", all_fields); if(i == 2 && !(bits & 4)) o = "{\"srl_shared_key\":1,\"srl_shared_value\":" + o + "}"; j += std::string(",\"") + "abcd"[i] + "\":" + o; }
        j += ",\"end\":4}";
        Tree q; q.load_source(j.data(), j.size(), PJson()); auto b = q.to_source(p);
        Whole<Fields> h;
        if(old) for(int i = 0; i < 4; i++) h.h.add(make(i, i));
        if(route == 0) { Exact e(b); Tree().restore(h, e.src(), p); }
        if(route == 1) { ChunkStream s(b, { 1, 9 }); Tree().restore(h, s, p); }
        if(route == 2) { Tree t; t.load_source(b.data(), b.size(), p); t.root().paste(h); }
        x.step(); x.state(mc::mix(mc::hash(b), old));
        auto l = h.h.list();
        for(int i = 0; i < 4; i++) if(!l[i] != (bits >> i & 1) || (l[i] && l[i]->kind() != 1)) x.fail("null pointer changed", j);
        if(h.end != 4) x.fail("neighbouring field changed", j);
        Whole<Fields> out; out.h.n = 1;
        bool threw = false;
        try { Tree().store(out, p); } catch(Exception&) { threw = true; }
        if(!threw) x.fail("storing a null pointer to a registered class is not refused");
    }
    all_gone(x, "null pointers");
}

MC_SCENARIO("pointers to derived classes", "objects of 5 dynamic types read through pointers to each of 5 classes: accepted exactly if derived from it, raw, unique and shared, memory and tree, all formats")
{
    int s = x.shard(25), f = x.choose(NumFmt), how = x.choose(3); bool tree = x.flip();
    int kind = s / 5, as = s % 5;
    {
        std::unique_ptr<Parser> pp(new_parser(f)); auto& p = *pp;
        struct In { std::unique_ptr<Base> b; std::shared_ptr<Base> s; int how; void srl_resolve(Context& c) { if(how == 2) c("p", s); else c("p", b); } } in;
        in.how = how; in.b.reset(make(kind, 2)); in.s.reset(make(kind, 2));
        auto b = Tree().store(in, p);
        x.step(); x.state(mc::mix(mc::hash(b), as));
        static const bool ok[5][5] { { 1, 0, 0, 0, 0 }, { 1, 1, 0, 0, 0 }, { 1, 0, 1, 0, 0 }, { 1, 1, 0, 1, 0 }, { 1, 0, 0, 0, 1 } };
        auto go = [&](auto* null) {
            typedef typename std::remove_pointer<decltype(null)>::type C;
            struct Out { int how; C* r = nullptr; std::unique_ptr<C> b; std::shared_ptr<C> s; ~Out() { delete r; } void srl_resolve(Context& c) { if(how == 0) c("p", r); if(how == 1) c("p", b); if(how == 2) c("p", s); } } o { how };
            bool threw = false; std::string err;
            try { if(tree) { Tree t; t.load_source(b.data(), b.size(), p); t.root().paste(o); } else Tree().restore(o, b, p); } catch(Exception& e) { threw = true; err = e.what(); }
            if(threw == ok[kind][as]) x.fail(threw ? "object of a derived class refused" : "object of another class accepted", std::to_string(kind) + " as " + std::to_string(as) + " " + err);
            if(threw) { if(o.r || o.b || o.s) x.fail("refused object remains"); return; }
            Base* q = how == 0 ? o.r : how == 1 ? o.b.get() : o.s.get();
            auto d = diff(in.b.get(), q);
            if(!d.empty()) x.fail(d, std::to_string(kind) + " as " + std::to_string(as));
        };
        if(as == 0) go((Base*)0); if(as == 1) go((Derived*)0); if(as == 2) go((Offset*)0); if(as == 3) go((Deep*)0); if(as == 4) go((Bare*)0);
    }
    all_gone(x, "pointers to derived classes");
}

MC_SCENARIO("field orders", "srl_type_id at all places among the fields of an object and among unknown fields, 5 types, memory, stream and tree, all formats")
{
    int kind = x.shard(5), at = x.choose(6), f = x.choose(NumFmt), route = x.choose(3); bool extra = x.flip();
    {
        using dyn::Item;
        static const char* ids[] { "Base", "Derived", "Offset", "Deep", "Name with spaces and \"quotes\"" };
        dyn::Items o { Item::of("v", 8), Item::of("t", "text"), Item::ints("w", { 1, 2 }), Item::arr("sub", { }), Item::of("extra", extra ? std::string(100, 'e') : "") };
        o.insert(o.begin() + at, Item::of("srl_type_id", std::string(ids[kind])));
        if(extra) o.insert(o.begin(), Item::obj("srl_type_id", { Item::of("srl_type_id", "Other") }));
        std::unique_ptr<Parser> pp(new_parser(f)); auto& p = *pp;
        auto b = dyn::write({ Item::obj("p", o), Item::of("end", 5) }, p);
        struct O { std::unique_ptr<Base> p; int end = 0; void srl_resolve(Context& c) { c("p", p)("end", end); } } r;
        if(route == 0) { Exact e(b); Tree().restore(r, e.src(), p); }
        if(route == 1) { ChunkStream s(b, { 1, 9 }); Tree().restore(r, s, p); }
        if(route == 2) { Tree t; t.load_source(b.data(), b.size(), p); t.root().paste(r); }
        x.step(); x.state(mc::hash(b));
        if(!r.p || r.p->kind() != kind || (kind != 4 && r.p->v != 8) || r.end != 5) x.fail("object depends on the place of its type name", dyn::show(o));
        if(auto* d = dynamic_cast<Derived*>(r.p.get())) if(d->t != "text") x.fail("object depends on the place of its type name", dyn::show(o));
        if(auto* d = dynamic_cast<Offset*>(r.p.get())) if(d->w != std::vector<int> { 1, 2 }) x.fail("object depends on the place of its type name", dyn::show(o));
    }
    all_gone(x, "field orders");
}

MC_SCENARIO_OPT("names alike", "two classes registered under names which share a hash or nearly everything (14 pairs): objects of both come back, a look-up of one does not give the other; one registered alone: the other one is unknown", .noleak())
{
    std::vector<int> ps; for(size_t i = 0; i < gen::twins().size(); i++) { auto& t = gen::twins()[i]; if(t[0].find('\0') == std::string::npos && !t[1].empty()) ps.push_back(i); }
    int s = x.shard(ps.size() * 2), pair = ps[s / 2]; bool both = s & 1;
    /* registrations stay, names too */
    static std::map<std::string, std::unique_ptr<std::string>> regs;
    auto reg = [&](const std::string& n, bool derived) { if(!regs.count(n)) { regs[n] = std::make_unique<std::string>(n); if(derived) register_type<Derived>(regs[n]->c_str()); else register_type<Base>(regs[n]->c_str()); } };
    std::string pre = both ? "" : "\x01";   /* another pair */
    if(!both && pair > 1) pre = "only ";
    auto a = gen::twins()[pair][0], b = gen::twins()[pair][1];
    if(!both && pair < 2) { static const char* more[2][2] { { "fdfd2zzZn4F", "vXtu5yoBPoG" }, { "RVyvYZDa6xJ", "FHlKWHtZxVC" } }; a = more[pair][0]; b = more[pair][1]; }
    else { a = pre + a; b = pre + b; }
    reg(a, true); if(both) reg(b, false);
    for(int q = 0; q < 2; q++) for(int f = 0; f < NumFmt; f++) {
        dyn::Items o { dyn::Item::of("srl_type_id", q ? b : a), dyn::Item::of("v", 3), dyn::Item::of("t", "x") };
        std::unique_ptr<Parser> pp(new_parser(f));
        auto buf = dyn::write({ dyn::Item::obj("p", o) }, *pp);
        struct O { std::unique_ptr<Base> p; void srl_resolve(Context& c) { c("p", p); } } r;
        bool threw = false; x.step(); x.state(mc::hash(buf));
        try { Tree().restore(r, buf, *pp); } catch(Exception&) { threw = true; }
        bool known = q == 0 || both;
        if(threw == known) x.fail(threw ? "registered name refused" : "unknown name accepted", mc::show(q ? b : a, 60));
        if(known && (!r.p || r.p->kind() != (q == 0) || r.p->v != 3)) x.fail("name gives another class", mc::show(q ? b : a, 60));
    }
}

MC_SCENARIO_OPT("registration", "registering 40 more names, each refused a second time for the same and another class, first registration stays in force", .noleak())
{
    int n = x.shard(40);
    auto name = "more_" + std::string(n, 'n') + std::to_string(n);
    static std::map<std::string, std::unique_ptr<std::string>> names;  /* names stay valid */
    bool first = !names.count(name);
    if(first) { names[name] = std::make_unique<std::string>(name); register_type<Derived>(names[name]->c_str()); }
    for(int other = 0; other < 2; other++) {
        bool threw = false;
        try { if(other) register_type<Base>(names[name]->c_str()); else register_type<Derived>(names[name]->c_str()); } catch(Exception&) { threw = true; }
        if(!threw) x.fail("name registered twice", name);
    }
    std::unique_ptr<Base> p;
    auto j = "{\"p\":{\"srl_type_id\":\"" + name + "\",\"v\":3,\"t\":\"x\"}}";
    Tree t; t.load_source(j.data(), j.size(), PJson());
    t.root().paste_field("p", p);
    x.step(); x.state(mc::hash(name));
    if(!p || p->kind() != 1 || p->v != 3) x.fail("registered name gives another class", name);
}

int main(int argc, char** argv) { return mc::main("P15", argc, argv); }
