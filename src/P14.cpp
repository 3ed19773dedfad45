#include "stream.h"
#include "objs.h"

using namespace doc;
using namespace Srl;
using objs::new_parser;

/* a class without and classes with a registered type */
struct Plain { static int live; int v = 0; Plain() { live++; } Plain(const Plain& o) : v(o.v) { live++; } ~Plain() { live--; } void srl_resolve(Context& c) { c("v", v); } };
int Plain::live = 0;

struct Base {
    static int live; int v = 0;
    Base() { live++; } virtual ~Base() { live--; }
    virtual const TypeID& srl_type_id();
    virtual void srl_resolve(Context& c) { c("v", v); }
    virtual int kind() const { return 0; }
};
int Base::live = 0;
struct Derived : Base { int w = 0; const TypeID& srl_type_id() override; void srl_resolve(Context& c) override { Base::srl_resolve(c); c("w", w); } int kind() const override { return 1; } };
struct Pad { long pad = 77; virtual ~Pad() { } };
struct Offset : Pad, Base { std::string s; const TypeID& srl_type_id() override; void srl_resolve(Context& c) override { c("s", s)("v", v); } int kind() const override { return 2; } };
static const auto id_base = register_type<Base>("Base"); static const auto id_derived = register_type<Derived>("Derived"); static const auto id_offset = register_type<Offset>("Offset");
const TypeID& Base::srl_type_id() { return id_base; }
const TypeID& Derived::srl_type_id() { return id_derived; }
const TypeID& Offset::srl_type_id() { return id_offset; }

/* one reference: what holds it and which of the objects (0: none) */
static const int Max = 5;
struct Ref { int holder, object; };
typedef std::vector<Ref> Refs;

/* a set of objects and references of family F to them. F: make(object), holders, set(holder), get */
struct FPlain {
    static const int holders = 2;   /* shared, weak */
    std::shared_ptr<Plain> s[Max]; std::weak_ptr<Plain> w[Max];
    std::vector<std::shared_ptr<Plain>> own;
    std::shared_ptr<Plain> make(int o) { auto p = std::make_shared<Plain>(); p->v = 100 + o; return p; }
    void set(int i, int h, std::shared_ptr<Plain> p) { if(h == 0) s[i] = p; else w[i] = p; }
    template<class C> void resolve(C& c, const std::string& n, int i, int h) { if(h == 0) c(n, s[i]); else c(n, w[i]); }
    std::shared_ptr<Plain> object(int i, int h) { return h == 0 ? s[i] : w[i].lock(); }
    bool same(const Plain& p, int o) const { return p.v == 100 + o; }
    static const void* address(const Plain* p) { return p; }
    static bool fits(int, int) { return true; }
    static bool weak(int h) { return h == 1; }
    template<class Fn> void each(int i, int h, Fn fn) { if(h == 0) fn(s[i]); else fn(w[i]); }
};
struct FText {
    static const int holders = 2;
    std::shared_ptr<std::string> s[Max]; std::weak_ptr<std::string> w[Max];
    std::vector<std::shared_ptr<std::string>> own;
    std::shared_ptr<std::string> make(int o) { return std::make_shared<std::string>(o * 9, 't'); }
    void set(int i, int h, std::shared_ptr<std::string> p) { if(h == 0) s[i] = p; else w[i] = p; }
    template<class C> void resolve(C& c, const std::string& n, int i, int h) { if(h == 0) c(n, s[i]); else c(n, w[i]); }
    std::shared_ptr<std::string> object(int i, int h) { return h == 0 ? s[i] : w[i].lock(); }
    bool same(const std::string& p, int o) const { return p == std::string(o * 9, 't'); }
    static const void* address(const std::string* p) { return p; }
    static bool fits(int, int) { return true; }
    static bool weak(int h) { return h == 1; }
    template<class Fn> void each(int i, int h, Fn fn) { if(h == 0) fn(s[i]); else fn(w[i]); }
};
/* pointers to a base, to the classes themselves, weak pointers to the base; the objects are Derived, Offset, Base, Derived, Offset */
struct FPoly {
    static const int holders = 4;
    std::shared_ptr<Base> s[Max]; std::weak_ptr<Base> w[Max]; std::shared_ptr<Derived> d[Max]; std::shared_ptr<Offset> f[Max];
    std::vector<std::shared_ptr<Base>> own;
    static int kind(int o) { return o % 3; }
    std::shared_ptr<Base> make(int o)
    {
        if(kind(o) == 1) { auto p = std::make_shared<Derived>(); p->v = 100 + o; p->w = o; return p; }
        if(kind(o) == 2) { auto p = std::make_shared<Offset>(); p->v = 100 + o; p->s = std::string(o * 5, 'o'); return p; }
        auto p = std::make_shared<Base>(); p->v = 100 + o; return p;
    }
    void set(int i, int h, std::shared_ptr<Base> p)
    {
        if(h == 0) s[i] = p; if(h == 1) w[i] = p;
        if(h == 2) d[i] = std::dynamic_pointer_cast<Derived>(p); if(h == 3) f[i] = std::dynamic_pointer_cast<Offset>(p);
    }
    template<class C> void resolve(C& c, const std::string& n, int i, int h) { if(h == 0) c(n, s[i]); if(h == 1) c(n, w[i]); if(h == 2) c(n, d[i]); if(h == 3) c(n, f[i]); }
    std::shared_ptr<Base> object(int i, int h) { if(h == 0) return s[i]; if(h == 1) return w[i].lock(); if(h == 2) return d[i]; return f[i]; }
    bool same(Base& p, int o) const
    {
        if(p.kind() != kind(o) || p.v != 100 + o) return false;
        if(auto* q = dynamic_cast<Derived*>(&p)) return q->w == o;
        if(auto* q = dynamic_cast<Offset*>(&p)) return q->s == std::string(o * 5, 'o') && q->pad == 77;
        return true;
    }
    static const void* address(const Base* p) { return dynamic_cast<const void*>(p); }
    static bool fits(int h, int o) { return o == 0 || h < 2 || kind(o) == h - 1; }
    static bool weak(int h) { return h == 1; }
    template<class Fn> void each(int i, int h, Fn fn) { if(h == 0) fn(s[i]); if(h == 1) fn(w[i]); if(h == 2) fn(d[i]); if(h == 3) fn(f[i]); }
};

template<class F> struct Graph : F {
    Refs refs;
    int nest = 0;   /* the last two references are inside of a nested object */
    struct Sub { Graph& g; int from; void srl_resolve(Context& c) { for(int i = from; i < (int)g.refs.size(); i++) g.resolve(c, "r" + std::to_string(i), i, g.refs[i].holder); } };
    void srl_resolve(Context& c)
    {
        int n = refs.size(), top = nest ? std::max(0, n - 2) : n;
        for(int i = 0; i < top; i++) this->resolve(c, "r" + std::to_string(i), i, refs[i].holder);
        if(nest) { Sub sub { *this, top }; c("sub", sub); }
    }
    /* other objects, which stay alive, in all places */
    void use()
    {
        this->own.resize(Max + 1);
        for(int i = 0; i < (int)refs.size(); i++) {
            int h = refs[i].holder, k = h == 2 ? 4 : h == 3 ? 5 : 3;
            if(refs[i].object == k) k = h == 2 ? 1 : h == 3 ? 2 : 5;
            if(!this->own[k]) this->own[k] = this->make(k);
            this->set(i, h, this->own[k]);
        }
    }
    void fill()
    {
        this->own.resize(Max + 1);
        for(int i = 0; i < (int)refs.size(); i++) {
            int o = refs[i].object;
            if(o && !this->own[o]) this->own[o] = this->make(o);
            if(o) this->set(i, refs[i].holder, this->own[o]);
        }
    }
};

/* the references of r are those of refs */
template<class F> static void compare(mc::X& x, Graph<F>& r, const Refs& refs, const std::string& where)
{
    x.step();
    std::map<int, const void*> by_object; std::map<const void*, int> by_address;
    std::set<int> strong;
    for(auto& e : refs) if(!F::weak(e.holder)) strong.insert(e.object);
    for(int i = 0; i < (int)refs.size(); i++) {
        auto p = r.object(i, refs[i].holder);
        int o = refs[i].object;
        auto what = "reference " + std::to_string(i) + " " + where;
        if(!o) { if(p) x.fail("null reference is not null", what); continue; }
        if(!strong.count(o)) { if(p) x.fail("weak reference to nothing is not empty", what); continue; }
        if(!p) x.fail("reference is lost", what);
        auto* a = F::address(p.get());
        if(!r.same(*p, o)) x.fail("content of a shared object changed", what);
        if(by_object.count(o) && by_object[o] != a) x.fail("one object became two", what);
        if(by_address.count(a) && by_address[a] != o) x.fail("two objects became one", what);
        by_object[o] = a; by_address[a] = o;
    }
    /* one owner: released together */
}

static std::string show(const Refs& r) { std::string s; for(auto& e : r) s += "[" + std::to_string(e.holder) + "->" + std::to_string(e.object) + "]"; return s; }

static const int Routes = 7;
static const char* names[] { "memory", "stream", "tree", "re-loaded tree", "single items", "pack/unpack", "another format" };

template<class F> static void round(mc::X& x, const Refs& refs, int nest, int f, int route, bool used)
{
    std::unique_ptr<Parser> pp(new_parser(f)); auto& p = *pp;
    Graph<F> g; g.refs = refs; g.nest = nest; g.fill();
    Graph<F> r; r.refs = refs; r.nest = nest;
    if(used) r.use();
    auto where = std::string(names[route]) + (used ? " over other objects, " : ", ") + fmt_name(f) + " " + show(refs);
    Buf b;
    try {
        switch(route) {
            case 0: { b = Tree().store(g, p); Exact e(b); Tree().restore(r, e.src(), p); break; }
            case 1: { b = Tree().store(g, p); ChunkStream s(b, { 1, 9 }); Tree().restore(r, s, p); break; }
            case 2: { Tree t; t.load_object(g); t.root().paste(r); break; }
            case 3: { Tree t; t.load_object(g); b = t.to_source(p); Tree u; u.load_source(b.data(), b.size(), p); u.root().paste(r); break; }
            case 4: {
                Tree t; int i = 0;
                for(auto& e : refs) { g.each(i, e.holder, [&](auto& q) { t.root().insert("i" + std::to_string(i), q); }); i++; }
                b = t.to_source(p);
                Tree u; u.load_source(b.data(), b.size(), p); i = 0;
                for(auto& e : refs) { r.each(i, e.holder, [&](auto& q) { u.root().paste_field("i" + std::to_string(i), q); }); i++; }
                break;
            }
            case 5: {
                Tree t; Tree u; int k = 3;
                t.pack(b, p, "n", 3, "g", g, "o", std::shared_ptr<Plain>());
                u.unpack(b, p, "g", r, "n", k);
                break;
            }
            case 6: {
                b = Tree().store(g, p); Tree u; u.load_source(b.data(), b.size(), p);
                std::unique_ptr<Parser> q(new_parser((f + 1) % NumFmt)); b = u.to_source(*q); Tree().restore(r, b, *q); break;
            }
        }
    } catch(Exception& e) { x.fail("references refused", where + " " + e.what()); }
    x.state(mc::mix(mc::hash(b), route));
    x.note("%s %s", where.c_str(), mc::show(b, 500).c_str());
    compare(x, r, refs, where);
    if(route == 0) { /* each object is written once */
        Tree t; t.load_source(b.data(), b.size(), p);
        size_t n = t.root().find_nodes("srl_shared_value", true).size() + t.root().find_values("srl_shared_value", true).size();
        std::set<int> o; for(auto& e : refs) if(e.object) o.insert(e.object);
        if(n != o.size()) x.fail("objects are not stored once", where + " " + std::to_string(n));
    }
}

/* all ways to refer to objects: null, an object already referred to, or the next one */
template<class F> static void patterns(mc::X& x, int n, int shard)
{
    Refs refs;
    int used = 0;
    for(int i = 0; i < n; i++) {
        Ref r;
        if(i == 0) { r.holder = shard % F::holders; r.object = shard / F::holders; }
        else { r.holder = x.choose(F::holders); r.object = x.choose(used + 2); }
        if(r.object > used) used++;
        if(!F::fits(r.holder, r.object)) x.skip();
        refs.push_back(r);
    }
    int nest = x.choose(2), f = x.choose(NumFmt);
    if(n < 3 && nest) x.skip();
    for(int route = 0; route < Routes; route++) {
        if(n > 3 && !x.thorough && (route + f) % 3) continue;
        int plain = Plain::live, base = Base::live;
        round<F>(x, refs, nest, f, route, false);
        if(n < 4 || x.thorough || (f + n) % 4 == route % 4) round<F>(x, refs, nest, f, route, true);
        if(Plain::live != plain || Base::live != base) x.fail("objects are not destroyed", names[route]);
    }
}

template<class F> static void sized(mc::X& x, int max)
{
    int s = x.shard(F::holders * 2 * max);
    patterns<F>(x, s / (F::holders * 2) + 1, s % (F::holders * 2));
}

static const char* PB = "all patterns of null, shared and weak references (set partitions) with every assignment of holders, flat and nested, 7 routes, 4 formats, restored into empty places and over other objects";
MC_SCENARIO("patterns of references to objects of a plain class, 1..5 references", PB) { sized<FPlain>(x, 5); }
MC_SCENARIO("patterns of references to texts, 1..4 (thorough 5) references", PB) { sized<FText>(x, x.thorough ? 5 : 4); }
MC_SCENARIO("patterns of references to registered classes (base, derived, second base), 1..4 (thorough 5) references", PB) { sized<FPoly>(x, x.thorough ? 5 : 4); }

/* objects referring to others: all graphs without cycles */
struct Knot { int v = 0; std::shared_ptr<Knot> l, r; std::weak_ptr<Knot> w; void srl_resolve(Context& c) { c("v", v)("l", l)("w", w)("r", r); } };
struct Knots { std::vector<std::shared_ptr<Knot>> all; std::shared_ptr<Knot> again; void srl_resolve(Context& c) { c("all", all)("again", again); } };

MC_SCENARIO("graphs", "all graphs of 1..4 objects each with two shared and one weak reference to earlier objects or null, held by a vector in forward and backward order, 4 formats, memory, stream, tree")
{
    /* object k has (k+1)^3 ways */
    int s = x.shard(1 + 8 + 8 * 27);
    int n = s == 0 ? 1 : s < 9 ? 2 : 3;
    bool four = false;
    std::vector<std::vector<int>> e { { 0, 0, 0 } };
    if(n > 1) { int k = s < 9 ? s - 1 : (s - 9) % 8; e.push_back({ k & 1, k >> 1 & 1, k >> 2 & 1 }); }
    if(n > 2) { int k = (s - 9) / 8; e.push_back({ k % 3, k / 3 % 3, k / 9 }); }
    if(n == 3) { four = x.flip(); if(four) { e.push_back({ x.choose(4), x.choose(4), x.choose(4) }); n = 4; } }
    bool back = x.flip(); int f = x.choose(NumFmt), route = x.choose(3);
    if(four && !x.thorough && (f + route) % 4) x.skip();
    Knots a, b;
    for(int i = 0; i < n; i++) {
        auto k = std::make_shared<Knot>(); k->v = i + 1;
        auto at = [&](int j) { return j ? a.all[j - 1] : nullptr; };
        k->l = at(e[i][0]); k->r = at(e[i][1]); k->w = at(e[i][2]);
        a.all.push_back(k);
    }
    if(back) std::reverse(a.all.begin(), a.all.end());
    a.again = a.all[n / 2];
    std::unique_ptr<Parser> pp(new_parser(f)); auto& p = *pp;
    auto c = Tree().store(a, p);
    x.state(mc::hash(c)); x.step();
    x.note("%s", mc::show(c, 900).c_str());
    if(route == 0) { Exact ex(c); Tree().restore(b, ex.src(), p); }
    if(route == 1) { ChunkStream st(c, { 1, 9 }); Tree().restore(b, st, p); }
    if(route == 2) { Tree t; t.load_source(c.data(), c.size(), p); t.root().paste(b); }
    if((int)b.all.size() != n) x.fail("references are lost");
    auto idx = [&](Knots& k, const std::shared_ptr<Knot>& q) { for(int i = 0; i < n; i++) if(k.all[i] == q) return i; return q ? -2 : -1; };
    for(int i = 0; i < n; i++) {
        auto &p1 = a.all[i], &p2 = b.all[i];
        if(!p2 || p1->v != p2->v) x.fail("content of a shared object changed");
        if(idx(a, p1->l) != idx(b, p2->l) || idx(a, p1->r) != idx(b, p2->r) || idx(a, p1->w.lock()) != idx(b, p2->w.lock())) x.fail("graph changed", mc::show(c, 600));
        for(int j = 0; j < i; j++) if(b.all[i] == b.all[j]) x.fail("two objects became one");
    }
    if(idx(a, a.again) != idx(b, b.again)) x.fail("graph changed");
    /* only the graph owns its objects */
    std::vector<std::weak_ptr<Knot>> w(b.all.begin(), b.all.end());
    b = Knots();
    for(auto& q : w) if(!q.expired()) x.fail("objects stay alive");
}

/* containers of references */
MC_SCENARIO("containers", "all patterns of 0..4 references (null, same, new) in vector, list, map, pair, tuple, array and unique pointers to shared pointers, 4 formats, memory, stream, tree")
{
    struct C { std::vector<std::shared_ptr<Plain>> v; std::list<std::weak_ptr<Plain>> l; std::map<std::string, std::shared_ptr<Plain>> m; std::pair<std::shared_ptr<Plain>, std::shared_ptr<Plain>> p;
        std::tuple<std::shared_ptr<Plain>, std::weak_ptr<Plain>> t; std::shared_ptr<Plain> a[2]; std::unique_ptr<std::shared_ptr<Plain>> u;
        void srl_resolve(Context& c) { c("v", v)("l", l)("m", m)("p", p)("t", t)("a", a)("u", u); } };
    int s = x.shard(2 * 3 * 4 * 5);
    int o[4] { s % 2, s / 2 % 3, s / 6 % 4, s / 24 };
    for(int i = 0, used = 0; i < 4; i++) { if(o[i] > used + 1) x.skip(); used = std::max(used, o[i]); }
    int n = x.choose(5), f = x.choose(NumFmt), route = x.choose(3);
    std::shared_ptr<Plain> obj[5]; for(int i = 1; i < 5; i++) { obj[i] = std::make_shared<Plain>(); obj[i]->v = i; }
    auto build = [&](C& c) {
        for(int i = 0; i < n; i++) { c.v.push_back(obj[o[i]]); c.l.push_back(obj[o[i]]); c.m[std::to_string(i)] = obj[o[i]]; }
        c.p = { obj[o[0]], obj[o[1]] }; c.t = std::make_tuple(obj[o[2]], std::weak_ptr<Plain>(obj[o[3]])); c.a[0] = obj[o[3]]; c.a[1] = obj[o[0]]; c.u.reset(new std::shared_ptr<Plain>(obj[o[1]])); };
    C a, b;
    build(a);
    std::unique_ptr<Parser> pp(new_parser(f)); auto& p = *pp;
    auto c = Tree().store(a, p);
    x.state(mc::hash(c)); x.step();
    if(route == 0) { Exact ex(c); Tree().restore(b, ex.src(), p); }
    if(route == 1) { ChunkStream st(c, { 1, 9 }); Tree().restore(b, st, p); }
    if(route == 2) { Tree t; t.load_source(c.data(), c.size(), p); t.root().paste(b); }
    /* sequence of all references */
    auto seq = [&](C& q) {
        std::vector<std::shared_ptr<Plain>> r;
        for(auto& e : q.v) r.push_back(e); for(auto& e : q.l) r.push_back(e.lock()); for(auto& e : q.m) r.push_back(e.second);
        r.push_back(q.p.first); r.push_back(q.p.second); r.push_back(std::get<0>(q.t)); r.push_back(std::get<1>(q.t).lock()); r.push_back(q.a[0]); r.push_back(q.a[1]); r.push_back(q.u ? *q.u : nullptr);
        return r; };
    auto ra = seq(a), rb = seq(b);
    auto where = std::string(fmt_name(f)) + " " + mc::show(c, 700);
    if(ra.size() != rb.size()) x.fail("references in containers are lost", where);
    for(size_t i = 0; i < ra.size(); i++) {
        if(!ra[i] != !rb[i] || (ra[i] && ra[i]->v != rb[i]->v)) x.fail("reference in a container changed", std::to_string(i) + " " + where);
        for(size_t j = 0; j < i; j++) if((ra[i] == ra[j]) != (rb[i] == rb[j])) x.fail("sharing changed in containers", where);
    }
}

/* histories of operations on one tree */
struct Pair { std::shared_ptr<Plain> a, b; void srl_resolve(Context& c) { c("a", a)("b", b); } };
MC_SCENARIO("histories", "all sequences of 3 (thorough 4) storing and restoring operations of 8 kinds with 3 objects on one tree: every document is complete and restores with its own sharing, 4 formats")
{
    const int ops = 8;
    int first = x.shard(ops * NumFmt);
    int f = first % NumFmt, depth = x.thorough ? 4 : 3;
    std::unique_ptr<Parser> pp(new_parser(f)); auto& p = *pp;
    Tree t;
    Pair objs[3];
    auto o1 = std::make_shared<Plain>(), o2 = std::make_shared<Plain>();
    o1->v = 1; o2->v = 2;
    objs[0] = { o1, o1 }; objs[1] = { o1, o2 }; objs[2] = { o2, nullptr };
    auto ok = [&](const Pair& q, int i, const char* what) {
        x.step();
        auto& w = objs[i];
        if(!q.a || q.a->v != w.a->v || !q.b != !w.b || (q.b && q.b->v != w.b->v) || (q.a == q.b) != (w.a == w.b)) x.fail("document depends on earlier operations", std::string(what) + " " + fmt_name(f)); };
    std::vector<Pair> kept;     /* restored before */
    auto fresh = [&](const Pair& q, const char* what) {
        for(auto& k : kept) if(k.a == q.a || (q.b && (k.b == q.b || k.a == q.b)) || k.b == q.a) x.fail("restored object is one of an earlier document", what);
        kept.push_back(q); };
    Tree keep; keep.load_object(objs[1]); auto other = keep.to_source(p);
    for(int d = 0; d < depth; d++) {
        int op = d ? x.choose(ops) : first / NumFmt, i = x.choose(3);
        Pair q; Tree u;
        x.note("op %d object %d", op, i);
        switch(op) {
            case 0: { auto b = t.store(objs[i], p); u.restore(q, b, p); ok(q, i, "store"); x.state(mc::hash(b)); break; }
            case 1: { t.load_object(objs[i]); auto b = t.to_source(p); u.restore(q, b, p); ok(q, i, "load_object and write"); break; }
            case 2: { t.load_object(objs[i]); t.root().paste(q); ok(q, i, "load_object and paste"); fresh(q, "load_object and paste"); break; }
            case 3: { Buf b; t.pack(b, p, "x", objs[i], "y", objs[i].a); std::shared_ptr<Plain> y; u.unpack(b, p, "x", q, "y", y); ok(q, i, "pack"); if(y != q.a) x.fail("one object became two", "pack"); break; }
            case 4: { auto b = Tree().store(objs[i], p); t.restore(q, b, p); ok(q, i, "restore"); fresh(q, "restore"); break; }
            case 5: { auto b = Tree().store(objs[i], p); t.load_source(b.data(), b.size(), p); t.root().paste(q); ok(q, i, "load and paste"); fresh(q, "load and paste"); break; }
            case 6: { std::ostringstream os; t.store(objs[i], os, p); auto s = os.str(); u.restore(q, s, p); ok(q, i, "store to stream"); break; }
            case 7: { t.clear(); t.root().insert("p", objs[i]); auto b = t.to_source(p); std::ostringstream os; auto c = keep.to_source(p); if(c != other) x.fail("another tree changed"); u.load_source(b.data(), b.size(), p); u.root().paste_field("p", q); ok(q, i, "clear, insert and write"); break; }
        }
    }
}

/* a store which is interrupted or not written must not influence the next one */
struct Thrower { std::shared_ptr<Plain> a, b; int at = 0; int* n; void srl_resolve(Context& c) { if(at == 1) throw Exception("user"); c("a", a); if(at == 2) throw Exception("user"); c("b", b); if(at == 3) throw Exception("user"); } };
MC_SCENARIO("storing after a failed operation", "store, pack, load_object or stream output interrupted at 3 points, then every kind of storing the same objects again, 4 formats")
{
    int at = x.shard(3) + 1; int route = x.choose(4), then = x.choose(4), f = x.choose(NumFmt);
    std::unique_ptr<Parser> pp(new_parser(f)); auto& p = *pp;
    Thrower a; a.a = std::make_shared<Plain>(); a.b = x.flip() ? a.a : std::make_shared<Plain>(); a.at = at; a.a->v = 5; a.b->v = 5;
    Tree t; Buf b;
    bool threw = false;
    try {
        if(route == 0) t.store(a, p); if(route == 1) t.pack(b, p, "x", a); if(route == 2) t.load_object(a); if(route == 3) { std::ostringstream os; t.store(a, os, p); }
    } catch(Exception&) { threw = true; }
    if(!threw) x.fail("exception of user code is lost");
    Pair q { a.a, a.b }, r;
    if(then == 0) b = t.store(q, p);
    if(then == 1) { t.load_object(q); b = t.to_source(p); }
    if(then == 2) { t.clear(); t.root().insert("a", q.a, "b", q.b); b = t.to_source(p); }
    if(then == 3) { std::ostringstream os; t.store(q, os, p); auto s = os.str(); b.assign(s.begin(), s.end()); }
    x.step(); x.state(mc::hash(b));
    try { Tree().restore(r, b, p); } catch(Exception& e) { x.fail("document depends on a failed operation", e.what()); }
    if(!r.a || !r.b || r.a->v != 5 || (r.a == r.b) != (q.a == q.b)) x.fail("document depends on a failed operation");
}

/* what is refused */
static std::string key_doc(const std::string& a, const std::string& b) { return "{\"a\":" + a + ",\"b\":" + b + "}"; }
MC_SCENARIO("wrong references", "references of all pairs of 6 types to one object, references before their object, unknown keys, wrong kinds of key and value: refused (or right where the types are related), memory and tree")
{
    int s = x.shard(36);
    int ta = s / 6, tb = s % 6, what = x.choose(5); bool tree = x.flip();
    static const char* val[] { "{\"v\":5}", "\"text\"", "{\"srl_type_id\":\"Base\",\"v\":5}", "{\"srl_type_id\":\"Derived\",\"v\":5,\"w\":6}", "{\"srl_type_id\":\"Offset\",\"v\":5,\"s\":\"o\"}", "7" };
    std::string full = std::string("{\"srl_shared_key\":3,\"srl_shared_value\":") + val[ta] + "}", ref = "{\"srl_shared_key\":3}";
    std::string j;
    if(what == 0) j = key_doc(full, ref);
    if(what == 1) j = key_doc(ref, full);
    if(what == 2) j = key_doc(full, "{\"srl_shared_key\":4}");
    if(what == 3) j = key_doc("{\"srl_shared_key\":\"x\",\"srl_shared_value\":" + std::string(val[ta]) + "}", ref);
    if(what == 4) j = key_doc("{\"srl_shared_value\":" + std::string(val[ta]) + "}", full);
    struct T { int k[2]; std::shared_ptr<Plain> p[2]; std::shared_ptr<std::string> s[2]; std::shared_ptr<Base> b[2]; std::shared_ptr<Derived> d[2]; std::shared_ptr<Offset> o[2]; std::shared_ptr<int> i[2];
        void srl_resolve(Context& c) { for(int q = 0; q < 2; q++) { std::string n = q ? "b" : "a"; switch(k[q]) { case 0: c(n, p[q]); break; case 1: c(n, s[q]); break; case 2: c(n, b[q]); break; case 3: c(n, d[q]); break; case 4: c(n, o[q]); break; case 5: c(n, i[q]); break; } } } } t;
    t.k[0] = ta; t.k[1] = tb;
    bool threw = false; std::string err;
    int plain = Plain::live, base = Base::live;
    try { if(tree) { Tree q; q.load_source(j.data(), j.size(), PJson()); q.root().paste(t); } else Tree().restore(t, j, PJson()); } catch(Exception& e) { threw = true; err = e.what(); }
    x.step(); x.state(mc::mix(mc::hash(j), tb * 2 + tree));
    x.note("%s as %d %d: %s", j.c_str(), ta, tb, err.c_str());
    /* types by object: 2 Base, 3 Derived, 4 Offset */
    bool related = ta == tb || (tb == 2 && (ta == 3 || ta == 4));
    if(what == 0 && related) {
        if(threw) x.fail("reference of a related type refused", j + " " + err);
        if(ta != tb) { Base* q = ta == 3 ? (Base*)t.d[0].get() : (Base*)t.o[0].get(); if(t.b[1].get() != q || q->v != 5) x.fail("reference to a base has another address", j); }
    } else if(what == 1 && tb == 99) { }
    else if(!threw) x.fail("wrong reference accepted", j + " as types " + std::to_string(ta) + " and " + std::to_string(tb));
    t = T();
    if(Plain::live != plain || Base::live != base) x.fail("objects are not destroyed", j);
}

/* references to objects being restored (cycles) are refused without leaving anything behind */
struct Ring { int v = 0; std::shared_ptr<Ring> next; std::weak_ptr<Ring> back; static int live; Ring() { live++; } ~Ring() { live--; } void srl_resolve(Context& c) { c("v", v)("next", next)("back", back); } };
int Ring::live = 0;
MC_SCENARIO("cycles", "rings of 1..4 objects closed by a shared or weak reference: refused, nothing left behind, all formats and routes")
{
    int n = x.shard(4) + 1; bool weak = x.flip(); int f = x.choose(NumFmt), route = x.choose(3);
    std::unique_ptr<Parser> pp(new_parser(f)); auto& p = *pp;
    bool threw = false;
    {
        std::vector<std::shared_ptr<Ring>> r; for(int i = 0; i < n; i++) { r.push_back(std::make_shared<Ring>()); r[i]->v = i; if(i) r[i - 1]->next = r[i]; }
        if(weak) r[n - 1]->back = r[0]; else r[n - 1]->next = r[0];
        struct H { std::shared_ptr<Ring> h; void srl_resolve(Context& c) { c("h", h); } } a { r[0] }, b;
        auto c = Tree().store(a, p);
        x.state(mc::hash(c)); x.step();
        try {
            if(route == 0) { Exact ex(c); Tree().restore(b, ex.src(), p); }
            if(route == 1) { ChunkStream st(c, { 1, 9 }); Tree().restore(b, st, p); }
            if(route == 2) { Tree t; t.load_source(c.data(), c.size(), p); t.root().paste(b); }
        } catch(Exception&) { threw = true; }
        if(!threw) { /* then it has to be right */
            auto* q = b.h.get(); for(int i = 1; q && i < n; i++) q = q->next.get();
            if(!q || (weak ? q->back.lock() : q->next) != b.h) x.fail("cycle restored as something else");
            q->next.reset();
        }
        r[n - 1]->next.reset();
    }
    if(Ring::live) x.fail("objects are not destroyed", std::to_string(Ring::live));
}

int main(int argc, char** argv) { return mc::main("P14", argc, argv); }
