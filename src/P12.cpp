#include "objs.h"

using namespace doc;
using namespace objs;
using namespace Srl;

/* the tested type between two other fields */
template<class T> struct Holder {
    int before = 0; T t { }; std::string after;
    void srl_resolve(Context& c) { c("before", before)("the field", t)("after", after); }
};
template<class T> static void fill(Holder<T>& h, int k) { h.before = k + 1; S<T>::set(h.t, k); h.after = std::string(k, 'z'); }
namespace objs { template<class T> struct S<Holder<T>> { static const int n = S<T>::n; static void set(Holder<T>& h, int k) { fill(h, k); } static bool eq(const Holder<T>& a, const Holder<T>& b) { return a.before == b.before && a.after == b.after && same(a.t, b.t); } }; }

template<class T> static void same_holder(mc::X& x, const Holder<T>& a, const Holder<T>& b, const char* how, int f)
{
    x.step();
    if(a.before != b.before || a.after != b.after) x.fail("neighbouring field changed", std::string(how) + ", " + fmt_name(f));
    if(!same(a.t, b.t)) x.fail("object changed", std::string(how) + ", " + fmt_name(f));
}

static const int Routes = 8;

/* what goes wrong is reported with the route */
template<class T> static void field_route(mc::X& x, int k, int k2, int route, int f)
{
    std::unique_ptr<Parser> pp(new_parser(f));
    Parser& p = *pp;
    Holder<T> h, r;
    fill(h, k);
    static const char* names[] { "store/restore in memory", "store to stream/restore from stream", "load_object/paste", "load_object/write/load/paste", "store/load/write in another format/restore", "insert/unwrap fields", "pack/unpack", "restore into a used object" };
    x.label(names[route]);
    /* an array is written to its end, whatever it held */
    if constexpr(std::is_array<T>::value && std::is_arithmetic<typename std::remove_all_extents<T>::type>::value) memset(&r.t, 0x2A, sizeof(r.t));
    try {
        Buf b;
        switch(route) {
            case 0: { b = Tree().store(h, p); Exact e(b); Tree().restore(r, e.src(), p); break; }
            case 1: { std::ostringstream os; Tree().store(h, os, p); auto s = os.str(); b.assign(s.begin(), s.end()); ChunkStream cs(b, { 1, 2, 5, 20 }); Tree().restore(r, cs, p); break; }
            case 2: { Tree t; t.load_object(h); t.root().paste(r); break; }
            case 3: { Tree t; t.load_object(h); b = t.to_source(p); Tree u; Exact e(b); u.load_source(e.p, e.n, p); u.root().paste(r); break; }
            case 4: {
                b = Tree().store(h, p); Tree u; { Exact e(b); u.load_source(e.p, e.n, p); }
                std::unique_ptr<Parser> q(new_parser((f + 1) % NumFmt));
                auto c = u.to_source(*q); Exact e(c); Tree().restore(r, e.src(), *q); break;
            }
            case 5: { Tree t; t.root().insert("before", h.before, "the field", h.t, "after", h.after); r.before = t.root().template unwrap_field<int>("before"); t.root().paste_field("the field", r.t); t.root().paste_field("after", r.after); break; }
            case 6: { Tree t; t.pack(b, p, "before", h.before, "the field", h.t, "after", h.after); Exact e(b); Tree().unpack(e.src(), p, "before", r.before, "the field", r.t, "after", r.after); break; }
            case 7: { b = Tree().store(h, p); S<T>::set(r.t, k2); r.after = "old"; Exact e(b); Tree().restore(r, e.src(), p); break; }
        }
        x.note("%s %s", names[route], mc::show(b, 400).c_str());
        x.state(mc::mix(mc::hash(b), route));
    } catch(Exception& e) { x.fail("object refused", std::string(names[route]) + ", " + fmt_name(f) + ": " + e.what()); }
    same_holder<T>(x, h, r, names[route], f);
}

template<class T> static void fields(mc::X& x)
{
    for(int k = 0; k < S<T>::n; k++)
        for(int f = 0; f < NumFmt; f++)
            for(int r = 0; r < Routes; r++) {
                if((r == 2 || r == 5) && f) continue;
                if(r == 7) for(int k2 = 0; k2 < S<T>::n; k2++) field_route<T>(x, k, k2, r, f);
                else field_route<T>(x, k, 0, r, f);
            }
}

/* T as the whole document */
template<class T> static void roots(mc::X& x)
{
    for(int k = 0; k < S<T>::n; k++) for(int k2 = 0; k2 < S<T>::n; k2++) for(int f = 0; f < NumFmt; f++) {
        std::unique_ptr<Parser> pp(new_parser(f));
        Parser& p = *pp;
        auto o = make<T>(k);
        auto cmp = [&](const T& r, const char* how) { x.step(); if(!same(o, r)) x.fail("object changed", std::string(how) + " as root, " + fmt_name(f)); };
        try {
            auto b = Tree().store(o, p);
            x.state(mc::hash(b));
            Exact e(b);
            { auto r = make<T>(k2); Tree().restore(r, e.src(), p); cmp(r, "restore"); }
            { cmp(Tree().restore<T>(e.src(), p), "restore by value"); cmp(Tree().restore<T>(e.p, e.n, p), "restore by value"); }
            { auto r = make<T>(k2); ChunkStream s(b, { 3, 1 }); Tree().restore(r, s, p); cmp(r, "restore from stream"); }
            { std::ostringstream os; Tree().store(o, os, p); auto s = os.str(); if(s != std::string(b.begin(), b.end())) x.fail("stream output differs"); }
            { Tree t; t.load_object(o); auto r = make<T>(k2); t.root().paste(r); cmp(r, "load_object"); cmp(t.root().template unwrap<T>(), "unwrap");
              auto c = t.to_source(p); if(c != b) { T q = make<T>(k2); Tree().restore(q, c, p); cmp(q, "tree output"); } }
            { Tree t; t.load_source(e.p, e.n, p); auto r = make<T>(k2); t.root().paste(r); cmp(r, "load/paste"); cmp(t.root().template unwrap<T>(), "unwrap"); }
        } catch(Exception& ex) { x.fail("object refused", std::string(fmt_name(f)) + " as root: " + ex.what()); }
    }
}

/* by name, index and generic item */
template<class T> static void accessors(mc::X& x)
{
    for(int k = 0; k < S<T>::n; k++) for(int f = -1; f < NumFmt; f++) {
        auto o = make<T>(k);
        auto cmp = [&](const T& r, const char* how) { x.step(); if(!same(o, r)) x.fail("object changed", std::string(how) + ", " + (f < 0 ? "inserted" : fmt_name(f))); };
        try {
            Tree t;
            t.root().insert("a", o, "b", 1, "c", o);
            if(f >= 0) { std::unique_ptr<Parser> p(new_parser(f)); auto b = t.to_source(*p); Tree u; u.load_source(b.data(), b.size(), *p); t = std::move(u); x.state(mc::hash(b)); }
            auto& n = t.root();
            cmp(n.template unwrap_field<T>("c"), "unwrap_field");
            cmp(n.get("a").template unwrap<T>(), "get by name"); cmp(n["c"].template unwrap<T>(), "operator[]"); cmp(t.get("c").template unwrap<T>(), "tree get");
            { T r { }; n.get("c").copy_to(r); cmp(r, "copy_to"); }
            { auto r = n.get("a").template unwrap_if<T>(); if(!r) x.fail("unwrap_if is empty"); cmp(*r, "unwrap_if"); }
            { auto r = n.try_get("c"); if(!r) x.fail("try_get is empty"); cmp(r->template unwrap<T>(), "try_get"); }
            { std::unique_ptr<Parser> p(new_parser(f < 0 ? 0 : f)); auto b = t.to_source(*p); Union u, w; T m { }; Tree q; q.unpack(b, *p, "c", u, "a", w); u.copy_to(m); cmp(m, "unpacked"); cmp(w.template unwrap<T>(), "unpacked"); }
            const bool scope = TpTools::is_scope(Lib::Switch<T>::type);
            { T r { }; n.paste_field(scope ? 1 : f < 0 ? 2 : 2, r); cmp(r, "by index"); }
        } catch(Exception& ex) { x.fail("object refused", std::string(f < 0 ? "inserted" : fmt_name(f)) + ": " + ex.what()); }
    }
}

typedef void (*Fn)(mc::X&);

template<class... T> struct List { };
template<class... T> static std::vector<Fn> field_fns(List<T...>) { return { fields<T>... }; }
template<class... T> static std::vector<Fn> root_fns(List<T...>) { return { roots<T>... }; }
template<class... T> static std::vector<Fn> acc_fns(List<T...>) { return { accessors<T>... }; }

typedef List<bool, int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, float, double, long double, long, unsigned long,
    char, wchar_t, char16_t, char32_t, std::string, std::wstring, std::u16string, std::u32string, char[6], char16_t[4], char32_t[3], wchar_t[5]> Plain;
typedef List<Point, Split, Outer, Empty, Blob<uint8_t>, Blob<uint32_t>, Blob<double>, Raw> Classes;
typedef List<std::vector<int>, std::vector<std::string>, std::vector<Point>, std::vector<Outer>, std::vector<std::vector<int>>, std::vector<std::u16string>, std::list<double>, std::list<std::vector<std::string>>, std::deque<uint8_t>, std::deque<Split>,
    std::set<int>, std::set<std::string>, std::multiset<int>, std::vector<char>, std::vector<Empty>, std::list<bool>, std::vector<std::unique_ptr<Point>>, std::list<std::unique_ptr<std::string>>, std::vector<std::set<std::string>>> Containers;
typedef List<std::map<std::string, int>, std::map<int, std::string>, std::map<std::string, Point>, std::map<std::string, std::vector<int>>, std::map<std::string, std::map<int, std::string>>, std::multimap<int, int>, std::unordered_map<std::string, double>,
    std::unordered_map<int, Point>, Lib::HTable<std::string, int>, Lib::HTable<std::string, std::string>, Lib::HTable<std::string, Point>, std::map<std::pair<int, int>, int>> Maps;
typedef List<std::pair<int, std::string>, std::pair<Point, std::vector<int>>, std::pair<std::string, std::pair<int, double>>, std::tuple<int>, std::tuple<std::string, int, Point>, std::tuple<std::vector<int>, std::vector<int>, int, double>,
    std::tuple<std::tuple<int, std::string>, std::pair<int, int>, bool>, std::vector<std::tuple<int, std::string>>, std::map<std::string, std::tuple<int, int>>> Pairs;
typedef List<int[3], std::string[2], Point[2], int[2][3], std::vector<int>[2], double[1], std::unique_ptr<int>, std::unique_ptr<std::string>, std::unique_ptr<Point>, std::unique_ptr<Outer>, std::unique_ptr<std::vector<int>>, std::unique_ptr<std::map<std::string, int>>,
    std::shared_ptr<Point>, std::shared_ptr<Outer>, std::shared_ptr<int>, std::shared_ptr<std::string>, std::vector<std::shared_ptr<Point>>, std::map<std::string, std::shared_ptr<Point>>> Pointers;

static const char* FB = "all sample values as a field between two others, 8 routes (memory, stream, tree, re-loaded tree, change of format, single fields, pack/unpack, restore over every other sample) x 4 formats";
#define FIELDS(name, list) MC_SCENARIO("fields: " name, FB) { static const auto f = field_fns(list()); f[x.shard(f.size())](x); }
FIELDS("plain types", Plain)
FIELDS("classes", Classes)
FIELDS("containers", Containers)
FIELDS("maps", Maps)
FIELDS("pairs and tuples", Pairs)
FIELDS("arrays and pointers", Pointers)

typedef List<Point, Split, Outer, Empty, Blob<uint8_t>, Raw, std::vector<int>, std::vector<std::string>, std::vector<Point>, std::list<std::vector<int>>, std::deque<double>, std::set<std::string>, std::map<std::string, int>, std::map<int, Point>, std::unordered_map<std::string, double>,
    std::vector<std::unique_ptr<Point>>, Holder<int>, Holder<std::vector<Point>>, std::vector<std::shared_ptr<Point>>> Roots;
MC_SCENARIO("whole documents", "19 object and container types as the whole document, all pairs of old and new value, 9 ways to store and restore, 4 formats") { static const auto f = root_fns(Roots()); f[x.shard(f.size())](x); }

typedef List<bool, int, uint64_t, double, std::string, std::u16string, Point, Split, Outer, Blob<uint8_t>, Raw, std::vector<int>, std::vector<Point>, std::map<std::string, int>, std::pair<int, std::string>, std::tuple<int, std::string>> Acc;
MC_SCENARIO("accessors", "16 types read by name, index and generic item in 10 ways, from the inserted tree and after each format") { static const auto f = acc_fns(Acc()); f[x.shard(f.size())](x); }

/* raw pointers: owned by the object */
struct Owner {
    int* i = nullptr; Point* p = nullptr; std::vector<int>* v = nullptr; std::string* s = nullptr;
    Owner() { } Owner(const Owner&) = delete;
    ~Owner() { delete i; delete p; delete v; delete s; }
    void fill(int m) { if(m & 1) i = new int(m); if(m & 2) { p = new Point(); p->x = m; } if(m & 4) v = new std::vector<int> { 1, m }; if(m & 8) s = new std::string("owned text"); }
    void srl_resolve(Context& c) { c("i", i)("p", p)("v", v)("s", s); }
    bool operator==(const Owner& o) const { return !i == !o.i && (!i || *i == *o.i) && !p == !o.p && (!p || same(*p, *o.p)) && !v == !o.v && (!v || *v == *o.v) && !s == !o.s && (!s || *s == *o.s); }
};
MC_SCENARIO("owned raw pointers", "all subsets of 4 null and set pointers (number, object, container, text), restored over all 16 old subsets, memory and stream and tree, all formats")
{
    int m = x.shard(16);
    int old = x.choose(16), f = x.choose(NumFmt), route = x.choose(3);
    Owner a, b;
    a.fill(m); b.fill(old);
    std::unique_ptr<Parser> p(new_parser(f));
    auto s = Tree().store(a, *p);
    x.state(mc::hash(s));
    if(route == 0) { Exact e(s); Tree().restore(b, e.src(), *p); }
    if(route == 1) { ChunkStream cs(s, { 1, 4 }); Tree().restore(b, cs, *p); }
    if(route == 2) { Tree t; t.load_source(s.data(), s.size(), *p); t.root().paste(b); }
    x.step();
    if(!(a == b)) x.fail("object changed", fmt_name(f));
}

/* types without default constructor */
struct Mades { std::vector<Made> v; std::list<Made> l; std::unique_ptr<Made> u; std::shared_ptr<Made> s; std::map<std::string, Made> m; Made* r = nullptr;
    Mades() { } Mades(const Mades&) = delete; ~Mades() { delete r; }
    void srl_resolve(Context& c) { c("v", v)("l", l)("u", u)("s", s)("m", m)("r", r); } };
MC_SCENARIO("specialised construction", "vector, list, map, unique, shared and raw pointer of a class constructed by a specialised Ctor, all counts 0..3, all formats and routes")
{
    int k = x.shard(8);
    int f = x.choose(NumFmt), route = x.choose(3);
    Mades a, b;
    for(int i = 0; i < (k & 3); i++) { a.v.emplace_back(i); a.l.emplace_back(-i); a.m.emplace(std::to_string(i), Made(i + 7)); }
    if(k & 4) { a.u = std::make_unique<Made>(3); a.s = std::make_shared<Made>(4); a.r = new Made(9); } else { b.u = std::make_unique<Made>(3); b.s = std::make_shared<Made>(4); b.r = new Made(9); }
    std::unique_ptr<Parser> p(new_parser(f));
    auto s = Tree().store(a, *p);
    if(route == 0) { Exact e(s); Tree().restore(b, e.src(), *p); }
    if(route == 1) { ChunkStream cs(s, { 1, 4 }); Tree().restore(b, cs, *p); }
    if(route == 2) { Tree t; t.load_object(a); t.root().paste(b); }
    x.step(); x.state(mc::hash(s));
    auto eq = [](auto& c, auto& d) { return c.size() == d.size() && std::equal(c.begin(), c.end(), d.begin(), [](auto& q, auto& w) { return q.v == w.v; }); };
    bool ok = eq(a.v, b.v) && eq(a.l, b.l) && a.m.size() == b.m.size() && !a.u == !b.u && !a.s == !b.s && !a.r == !b.r;
    for(auto& e : a.m) { auto it = b.m.find(e.first); ok = ok && it != b.m.end() && it->second.v == e.second.v; }
    if(ok && a.u) ok = a.u->v == b.u->v && a.s->v == b.s->v && a.r->v == b.r->v;
    if(!ok) x.fail("object changed", fmt_name(f));
}

/* many fields of mixed kinds, unnamed ones among them */
struct Mixed {
    int code = 0;
    std::vector<int> ints { 0, 0, 0, 0, 0 }; std::vector<std::string> strs { "", "", "", "", "" }; Point pts[5];
    /* digits of code: kind of each field; unnamed: mask of fields known by position */
    int unnamed = 0, n = 0;
    void srl_resolve(Context& c)
    {
        int k = code;
        for(int i = 0; i < n; i++, k /= 3) {
            auto name = unnamed >> i & 1 ? std::string() : "f" + std::to_string(i);
            if(k % 3 == 0) c(name, ints[i]); if(k % 3 == 1) c(name, strs[i]); if(k % 3 == 2) c(name, pts[i]);
        }
    }
};
MC_SCENARIO("field sequences", "all sequences of 1..5 fields of 3 kinds (number, text, object), each named or unnamed, memory, stream and tree, all formats")
{
    int n = x.shard(5) + 1;
    int total = 1; for(int i = 0; i < n; i++) total *= 3;
    Mixed a;
    a.n = n; a.code = x.choose(total); a.unnamed = x.choose(1 << n);
    int f = x.choose(NumFmt);
    Mixed b = a;
    for(int i = 0; i < n; i++) { a.ints[i] = 100 * i + 1; a.strs[i] = std::string(i * 4, 'x'); a.pts[i].x = i + 50; }
    std::unique_ptr<Parser> p(new_parser(f));
    auto s = Tree().store(a, *p);
    x.state(mc::hash(s));
    for(int route = 0; route < 4; route++) {
        Mixed r = b;
        if(route == 0) { Exact e(s); Tree().restore(r, e.src(), *p); }
        if(route == 1) { ChunkStream cs(s, { 1, 4 }); Tree().restore(r, cs, *p); }
        if(route == 2) { Tree t; t.load_source(s.data(), s.size(), *p); t.root().paste(r); }
        if(route == 3) { Tree t; t.load_object(a); t.root().paste(r); }
        x.step();
        int k = a.code;
        for(int i = 0; i < n; i++, k /= 3)
            if((k % 3 == 0 && r.ints[i] != a.ints[i]) || (k % 3 == 1 && r.strs[i] != a.strs[i]) || (k % 3 == 2 && !same(r.pts[i], a.pts[i])))
                x.fail("field changed", std::to_string(i) + " of " + std::to_string(n) + ", route " + std::to_string(route) + " " + mc::show(s));
    }
}

MC_SCENARIO("sizes", "vectors and maps of 0..300 and around 1024, 4096, 16384, 65536 numbers, texts and objects: restored from memory and stream, all formats")
{
    static const auto ns = gen::counts(300, x.thorough ? 66000 : 17000);
    size_t n = ns[x.shard(ns.size())];
    int kind = x.choose(5), f = x.choose(NumFmt);
    if(!x.thorough && n > 40 && n % 3 && f != 1 && n < 1000) x.skip();
    std::unique_ptr<Parser> p(new_parser(f));
    auto run = [&](auto o) {
        auto s = Tree().store(o, *p);
        decltype(o) r, q;
        { Exact e(s); Tree().restore(r, e.src(), *p); }
        { ChunkStream cs(s, { 1000 }); Tree().restore(q, cs, *p); }
        x.step(2); x.state(mc::hash(s));
        if(!same(o, r) || !same(o, q)) x.fail("container changed", std::to_string(n) + " elements, " + fmt_name(f));
    };
    if(kind == 0) { std::vector<int> v; for(size_t i = 0; i < n; i++) v.push_back(i * i); run(v); }
    if(kind == 1) { std::vector<std::string> v; for(size_t i = 0; i < n; i++) v.push_back(std::string(i % 50, 'a' + i % 26)); run(v); }
    if(kind == 2) { std::vector<Point> v(n); for(size_t i = 0; i < n; i++) v[i].x = i; run(v); }
    if(kind == 3) { std::map<std::string, int> m; for(size_t i = 0; i < n; i++) m[std::to_string(i)] = -(int)i; run(m); }
    if(kind == 4) { std::vector<std::vector<int>> v; for(size_t i = 0; i < n; i++) v.push_back(std::vector<int>(i % 4, i)); run(v); }
}

MC_SCENARIO("names and keys alike", "objects of two fields and maps, hash tables and multimaps of keys out of two texts which share a hash or nearly everything (19 pairs) and others, 3 kinds of elements, all orders, old content in the target, 4 routes, all formats")
{
    auto& t = gen::twins()[x.shard(gen::twins().size())];
    int kind = x.choose(4), f = x.choose(NumFmt), mask = x.choose(15) + 1, old = x.choose(3);
    std::vector<std::string> ks { t[0], t[1], "other", "" };
    if(t[1].empty() && (mask & 8)) x.skip();
    std::unique_ptr<Parser> pp(new_parser(f)); auto& p = *pp;
    auto run = [&](auto o, auto r) {
        typedef decltype(o) C; C was = r;
        auto s = Tree().store(o, p); x.state(mc::hash(s)); Exact e(s);
        for(int route = 0; route < 4; route++) {
            C q = was;
            if(route == 0) Tree().restore(q, e.src(), p);
            if(route == 1) { ChunkStream cs(s, { 1, 5 }); Tree().restore(q, cs, p); }
            if(route == 2) { Tree tr; tr.load_source(e.p, e.n, p); tr.root().paste(q); }
            if(route == 3) { Tree tr; tr.load_object(o); auto c = tr.to_source(p); Tree().restore(q, c, p); }
            x.step();
            if(!same(o, q)) x.fail("container with similar keys changed", std::to_string(route) + " " + mc::show(s));
        }
    };
    auto fill = [&](auto m, int bits, auto make) { int n = 0; for(int i = 0; i < 4; i++) if(bits >> i & 1) m.emplace(ks[i], make(i + n++)); return m; };
    int obits = old == 0 ? 0 : old == 1 ? 15 : mask ^ 3;
    auto num = [](int i) { return i; };
    if(kind == 0) run(fill(std::map<std::string, int>(), mask, num), fill(std::map<std::string, int>(), obits, num));
    if(kind == 1) run(fill(std::unordered_map<std::string, int>(), mask, num), fill(std::unordered_map<std::string, int>(), obits, num));
    if(kind == 2) { std::multimap<std::string, std::string> m, w; for(int i = 0; i < 4; i++) { if(mask >> i & 1) { m.emplace(ks[i], "first"); m.emplace(ks[i], "second"); } if(obits >> i & 1) w.emplace(ks[i], "old"); } run(m, w); }
    if(kind == 3) {
        Lib::HTable<std::string, int> m, q; for(int i = 0; i < 4; i++) { if(mask >> i & 1) m.insert(ks[i], i); if(obits >> i & 1) q.insert(ks[i], 50); }
        struct H { Lib::HTable<std::string, int>& t; void srl_resolve(Context& c) { c("t", t); } } a { m }, b { q };
        auto s = Tree().store(a, p); Tree().restore(b, s, p); x.step();
        if(!same(m, q)) x.fail("container with similar keys changed", mc::show(s));
    }
}

/* known defect: null pointers to objects in containers */
MC_SCENARIO("null objects in containers", "all patterns of null and set pointers in vectors of 1..4 pointers to objects, restored from memory and tree, all formats")
{
    int n = x.shard(4) + 1;
    int m = x.choose(1 << n), f = x.choose(NumFmt), route = x.choose(2);
    std::vector<std::unique_ptr<Point>> a, b;
    for(int i = 0; i < n; i++) { a.emplace_back(); if(m >> i & 1) { a.back() = std::make_unique<Point>(); a.back()->x = i + 1; } }
    std::unique_ptr<Parser> p(new_parser(f));
    auto s = Tree().store(a, *p);
    if(route == 0) { Exact e(s); Tree().restore(b, e.src(), *p); } else { Tree t; t.load_source(s.data(), s.size(), *p); t.root().paste(b); }
    x.step(); x.state(mc::hash(s));
    if(same(a, b)) return;
    std::vector<std::unique_ptr<Point>> c;
    for(auto& e : a) if(e) { c.emplace_back(std::make_unique<Point>()); *c.back() = *e; }
    if(same(c, b)) x.fail("null pointer to object in a container is dropped", fmt_name(f));
    x.fail("container of pointers changed", fmt_name(f));
}

int main(int argc, char** argv) { return mc::main("P12", argc, argv); }
