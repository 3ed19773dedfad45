#include "dyn.h"
#include "objs.h"

using namespace doc;
using namespace dyn;
using namespace Srl;
using objs::new_parser;

/* the restored types */
struct Inner {
    int c = -1; std::string t = "-"; std::vector<int> w { -1 };
    void srl_resolve(Context& k) { k("c", c)("t", t)("w", w); }
    bool operator==(const Inner& o) const { return c == o.c && t == o.t && w == o.w; }
};
struct Big {
    int a = -1; std::string s = "-"; std::vector<int> v { -1 }; Inner in; std::map<std::string, int> m { { "-", -1 } };
    void srl_resolve(Context& k) { k("a", a)("s", s)("v", v)("in", in)("m", m); }
    bool operator==(const Big& o) const { return a == o.a && s == o.s && v == o.v && in == o.in && m == o.m; }
};

static Items inner_items(int k) { return { Item::of("c", 10 + k), Item::of("t", "inner text " + std::to_string(k)), Item::ints("w", { k, 2, 3 }) }; }
static Inner inner_value(int k) { Inner r; r.c = 10 + k; r.t = "inner text " + std::to_string(k); r.w = { k, 2, 3 }; return r; }
static Item map_item(const std::string& n) { return Item::arr(n, { Item::obj("", { Item::of("key", "one"), Item::of("value", 1) }), Item::obj("", { Item::of("value", 2), Item::of("key", "two") }) }); }
static Items big_items(const Items& in) { return { Item::of("a", 77), Item::of("s", "text"), Item::ints("v", { 4, 5 }), Item::obj("in", in), map_item("m") }; }
static Big big_value() { Big r; r.a = 77; r.s = "text"; r.v = { 4, 5 }; r.in = inner_value(0); r.m = { { "one", 1 }, { "two", 2 } }; return r; }

static Items permuted(const Items& s, std::vector<int> order) { Items r; for(int i : order) r.push_back(s[i]); return r; }
static std::vector<std::vector<int>> perms(int n) { std::vector<int> o(n); for(int i = 0; i < n; i++) o[i] = i; std::vector<std::vector<int>> r; do r.push_back(o); while(std::next_permutation(o.begin(), o.end())); return r; }

static const int Routes = 6;
static const char* names[] { "memory", "stream", "tree", "re-written tree", "item of unpack", "element of a vector" };

/* restore T from items: the exception, or nothing */
template<class T> static std::string restore(mc::X& x, const Items& items, T& out, int f, int route)
{
    std::unique_ptr<Parser> pp(new_parser(f));
    auto& p = *pp;
    x.step();
    x.note("%s %s %s", fmt_name(f), names[route], show(items).c_str());
    Buf b;
    if(route == 4) b = dyn::write({ Item::of("x", 1), Item::obj("it", items), Item::of("y", 2) }, p);
    else if(route == 5) b = dyn::write({ Item::arr("list", { Item::obj("", items), Item::obj("", items) }) , Item::of("end", 5) }, p);
    else b = dyn::write(items, p);
    x.state(mc::mix(mc::hash(b), route));
    Exact e(b);
    try {
        switch(route) {
            case 0: Tree().restore(out, e.src(), p); break;
            case 1: { ChunkStream s(b, { 1, 7 }); Tree().restore(out, s, p); break; }
            case 2: { Tree t; t.load_source(e.p, e.n, p); t.root().paste(out); break; }
            case 3: { Tree t; t.load_source(e.p, e.n, p); auto c = t.to_source(p); Tree().restore(out, c, p); break; }
            case 4: { int a = 0, c = 0; Tree().unpack(e.src(), p, "y", c, "it", out, "x", a); if(a != 1 || c != 2) x.fail("neighbouring item changed", names[route]); break; }
            case 5: {
                struct L { std::vector<T> list; int end = 0; void srl_resolve(Context& c) { c("list", list)("end", end); } } l;
                Tree().restore(l, e.src(), p);
                if(l.end != 5 || l.list.size() != 2 || !(l.list[0] == l.list[1])) x.fail("elements differ or the rest is lost", names[route]);
                out = l.list[1]; break;
            }
        }
    } catch(Exception& ex) { return ex.what(); }
    return "";
}

template<class T> static void expect(mc::X& x, const Items& items, const T& want, int f, int route)
{
    T got;
    auto err = restore(x, items, got, f, route);
    auto where = std::string(names[route]) + ", " + fmt_name(f) + ": " + show(items);
    if(!err.empty()) x.fail("complete object refused", where + " " + err);
    if(!(got == want)) x.fail("object depends on the order of the fields or on unknown fields", where);
}

MC_SCENARIO("field orders", "all 120 orders of five fields (2 values, array, object, map) x all 6 orders of the fields of the nested object, 6 routes, 4 formats")
{
    static const auto p5 = perms(5), p3 = perms(3);
    auto& o = p5[x.shard(p5.size())];
    auto& q = x.pick(p3);
    int f = x.choose(NumFmt), route = x.choose(Routes);
    expect(x, permuted(big_items(permuted(inner_items(0), q)), o), big_value(), f, route);
}

static std::vector<Item> extra_items()
{
    return {
        Item::of("extra", 5), Item::of("", 5), Item::of("in", 5), Item::of("extra", "text \"with\" {braces} [and] brackets, \\escapes\\ and more"), Item::of("extra", std::string(300, 'e')),
        Item::other("extra", Null), Item::other("v", Null, ""), Item::other("extra", Real), Item::other("extra", Blob, "\x01\x02\x03}"),
        Item::obj("extra", { }), Item::arr("extra", { }), Item::obj("", { }), Item::obj("a", { Item::of("a", 1), Item::of("s", "wrong") }), Item::arr("s", { Item::of("", 1), Item::obj("", { Item::of("a", 9) }) }),
        Item::obj("extra", { Item::of("a", 1), Item::ints("v", { 9 }), Item::of("c", 0), Item::obj("in", inner_items(7)) }),
        Item::obj("extra", { Item::obj("in", { Item::obj("in", { Item::of("a", 3) }) }), Item::arr("", { Item::arr("", { Item::arr("", { }) }), Item::of("", 1) }) }),
        Item::arr("extra", { Item::obj("", { Item::of("a", 1) }), Item::obj("", { }), Item::of("", "x") }),
        Item::of("extra name which is longer than the storage inside of a string", 6), Item::of("aa", 1), Item::of("A", 1), Item::obj("inn", inner_items(8)) };
}

MC_SCENARIO("one unknown field", "21 unknown fields (values and scopes, also with names of known fields of the other kind) at all positions of both levels, 12 orders of the known fields, 6 routes, 4 formats")
{
    static const auto p5 = perms(5), p3 = perms(3);
    static const auto ex = extra_items();
    auto& e = ex[x.shard(ex.size())];
    int oi = x.choose(x.thorough ? 120 : 12);
    auto& o = p5[x.thorough ? oi : oi * 11 - oi / 11 * 2];
    auto in = permuted(inner_items(0), p3[oi % 6]);
    int at = x.choose(10);
    /* position 0..5: outer level, 6..9: inner level */
    if(at > 5) { if(e.name == "a" || e.name == "s" || e.name == "in" || e.name == "v") { } in.insert(in.begin() + (at - 6), e); }
    auto all = permuted(big_items(in), o);
    if(at <= 5) all.insert(all.begin() + at, e);
    int f = x.choose(NumFmt), route = x.choose(Routes);
    /* null in place of an array: not an unknown field */
    expect(x, all, big_value(), f, route);
}

MC_SCENARIO("two unknown fields", "all pairs of 12 unknown fields at all pairs of positions (outer, nested), 3 orders of the known fields, 3 routes, 4 formats")
{
    static const auto p5 = perms(5);
    static const auto ex = extra_items();
    static const std::vector<int> some { 0, 1, 2, 5, 9, 10, 11, 12, 13, 14, 15, 16 };
    int n = some.size();
    int s = x.shard(n * n);
    auto &e = ex[some[s / n]], &g = ex[some[s % n]];
    auto& o = p5[x.pick(std::vector<int> { 0, 119, 67 })];
    int at = x.choose(6), at2 = x.choose(4);
    auto in = inner_items(0);
    in.insert(in.begin() + at2, g);
    auto all = permuted(big_items(in), o);
    all.insert(all.begin() + at, e);
    int f = x.choose(NumFmt), route = x.choose(3);
    expect(x, all, big_value(), f, route);
}

MC_SCENARIO("repeated names", "all fields repeated with another content at all later positions, all orders of four fields: the first one is restored, all routes and formats")
{
    struct R { int a = -1; std::string s = "-"; std::vector<int> v { -1 }; Inner in;
        void srl_resolve(Context& k) { k("a", a)("s", s)("v", v)("in", in); }
        bool operator==(const R& o) const { return a == o.a && s == o.s && v == o.v && in == o.in; } };
    static const auto p4 = perms(4);
    auto& o = p4[x.shard(p4.size())];
    int which = x.choose(4), at = x.choose(5), f = x.choose(NumFmt), route = x.choose(Routes);
    Items base { Item::of("a", 77), Item::of("s", "text"), Item::ints("v", { 4, 5 }), Item::obj("in", inner_items(0)) };
    Items again { Item::of("a", 1), Item::of("s", "wrong"), Item::ints("v", { 9 }), Item::obj("in", inner_items(9)) };
    auto all = permuted(base, o);
    int pos = 0;
    while(all[pos].name != base[which].name) pos++;
    if(at <= pos) x.skip();
    all.insert(all.begin() + at, again[which]);
    R want; want.a = 77; want.s = "text"; want.v = { 4, 5 }; want.in = inner_value(0);
    expect(x, all, want, f, route);
}

/* required and optional fields */
struct Opt {
    int a = -1; std::string s = "-"; std::vector<int> v { -1 }; Inner in; int mask = 0;
    void srl_resolve(Context& k)
    {
        auto fl = [this](int i) { return mask >> i & 1 ? CtxFlags::Optional : CtxFlags::None; };
        k("a", a, fl(0))("s", s, fl(1))("v", v, fl(2))("in", in, fl(3));
    }
    bool operator==(const Opt& o) const { return a == o.a && s == o.s && v == o.v && in == o.in; }
};

MC_SCENARIO("missing fields", "all subsets of four fields missing x all subsets optional x all orders of the present ones, an unknown field first, in the middle, last or absent, memory, stream and tree, all formats")
{
    static const auto p4 = perms(4);
    int s = x.shard(256);
    int missing = s >> 4, optional = s & 15;
    auto& o = x.pick(p4);
    int ex = x.choose(4), f = x.choose(NumFmt), route = x.choose(3);
    Items base { Item::of("a", 77), Item::of("s", "text"), Item::ints("v", { 4, 5 }), Item::obj("in", inner_items(0)) }, all;
    int last = -1;
    for(int i : o) if(!(missing >> i & 1)) all.push_back(base[i]); else { if(i < last) x.skip(); last = i; } /* one order of the missing ones */
    auto e = Item::obj("extra", { Item::of("a", 3), Item::of("s", "wrong"), Item::ints("v", { 1 }) });
    if(ex < 3) all.insert(all.begin() + (ex == 0 ? 0 : ex == 1 ? all.size() / 2 : all.size()), e);
    Opt got, want;
    got.mask = optional;
    if(!(missing & 1)) want.a = 77; if(!(missing & 2)) want.s = "text"; if(!(missing & 4)) want.v = { 4, 5 }; if(!(missing & 8)) want.in = inner_value(0);
    auto err = restore(x, all, got, f, route);
    auto where = std::string(names[route]) + ", " + fmt_name(f) + ": " + show(all) + " missing " + std::to_string(missing) + " optional " + std::to_string(optional) + " " + err;
    if(missing & ~optional) { if(err.empty()) x.fail("missing field is not refused", where); }
    else if(!err.empty()) x.fail("missing optional field is refused", where);
    else if(!(got == want)) x.fail("missing optional field changes the object", where);
}

MC_SCENARIO("optional fields named like others", "two optional fields (value, object), a field of the other kind with the same name at all places before and after or alone, all orders, missing or not, memory, stream and tree, all formats")
{
    struct O { int a = -1; Inner in; int z = -1; void srl_resolve(Context& k) { k("a", a, CtxFlags::Optional)("in", in, CtxFlags::Optional)("z", z); }
        bool operator==(const O& o) const { return a == o.a && in == o.in && z == o.z; } };
    Items base { Item::of("a", 7), Item::obj("in", inner_items(2)), Item::of("z", 8), Item::obj("a", inner_items(3)), Item::of("in", 9), Item::obj("z", { }) };
    static const auto p6 = perms(6);
    auto& o = p6[x.shard(p6.size())];
    int present = x.choose(64), f = x.choose(NumFmt), route = x.choose(3);
    if(!(present & 4)) x.skip();
    if(!x.thorough && f % 2) x.skip();
    Items all; int last = -1;
    for(int i : o) if(present >> i & 1) all.push_back(base[i]); else { if(i < last) x.skip(); last = i; }
    O want; if(present & 1) want.a = 7; if(present & 2) want.in = inner_value(2); want.z = 8;
    expect(x, all, want, f, route);
}

MC_SCENARIO("optional pointers", "all subsets of 4 optional pointers (number, text, object, vector) missing, null or set, restored over empty and set pointers, all formats, memory, stream and tree")
{
    struct P { std::unique_ptr<int> i; std::unique_ptr<std::string> s; std::unique_ptr<Inner> o; std::shared_ptr<Inner> h; int end = 0;
        void srl_resolve(Context& k) { k("i", i, CtxFlags::Optional)("s", s, CtxFlags::Optional)("o", o, CtxFlags::Optional)("h", h, CtxFlags::Optional)("end", end); } };
    int s = x.shard(81);
    bool old = x.flip(), last = x.flip(); int f = x.choose(NumFmt), route = x.choose(3);
    P got;
    if(old) { got.i = std::make_unique<int>(1); got.s = std::make_unique<std::string>("old"); got.o = std::make_unique<Inner>(); got.h = std::make_shared<Inner>(); }
    Items all;
    int kind[4]; for(int i = 0, k = s; i < 4; i++, k /= 3) kind[i] = k % 3;
    auto add = [&](int i) { static const char* n[] { "i", "s", "o", "h" };
        if(kind[i] == 1) all.push_back(i < 3 ? Item::other(n[i], Null) : Item::obj("h", { Item::other("srl_shared_key", Null) }));
        if(kind[i] == 2) all.push_back(i == 0 ? Item::of("i", 5) : i == 1 ? Item::of("s", "text") : i == 2 ? Item::obj("o", inner_items(1)) : Item::obj("h", { Item::of("srl_shared_key", 1), Item::obj("srl_shared_value", inner_items(1)) })); };
    if(last) { all.push_back(Item::of("end", 3)); for(int i = 3; i >= 0; i--) add(i); } else { for(int i = 0; i < 4; i++) add(i); all.push_back(Item::of("end", 3)); }
    std::unique_ptr<Parser> pp(new_parser(f));
    auto b = dyn::write(all, *pp);
    x.step(); x.state(mc::hash(b));
    Exact e(b);
    try {
        if(route == 0) Tree().restore(got, e.src(), *pp);
        if(route == 1) { ChunkStream st(b, { 1, 7 }); Tree().restore(got, st, *pp); }
        if(route == 2) { Tree t; t.load_source(e.p, e.n, *pp); t.root().paste(got); }
    } catch(Exception& ex) { x.fail("object with optional pointers refused", show(all) + " " + ex.what()); }
    auto where = std::string(fmt_name(f)) + " " + names[route] + " " + show(all) + (old ? " over set pointers" : "");
    auto ok = [&](int k, bool has, bool fresh, bool oldval) { return k == 0 ? has == old && (!old || oldval) : k == 1 ? !has : has && fresh; };
    if(!ok(kind[0], !!got.i, got.i && *got.i == 5, got.i && *got.i == 1)) x.fail("optional pointer to a number is wrong", where);
    if(!ok(kind[1], !!got.s, got.s && *got.s == "text", got.s && *got.s == "old")) x.fail("optional pointer to a text is wrong", where);
    if(!ok(kind[2], !!got.o, got.o && *got.o == inner_value(1), got.o && *got.o == Inner())) x.fail("optional pointer to an object is wrong", where);
    if(!ok(kind[3], !!got.h, got.h && *got.h == inner_value(1), got.h && *got.h == Inner())) x.fail("optional shared pointer is wrong", where);
    if(got.end != 3) x.fail("neighbouring field changed", where);
}

MC_SCENARIO("missing fields of nested objects", "all subsets of the fields of an object in the middle of a vector, of a map and of a nested object missing, all formats and routes")
{
    struct C { std::vector<Inner> v; std::map<std::string, Inner> m; Inner i; int end = 0; void srl_resolve(Context& k) { k("v", v)("m", m)("i", i)("end", end); }
        bool operator==(const C& o) const { return v == o.v && m == o.m && i == o.i && end == o.end; } };
    int place = x.shard(3), missing = x.choose(8), f = x.choose(NumFmt), route = x.choose(Routes);
    auto order = x.pick(perms(4));
    Items cut; auto in = inner_items(0);
    for(int i = 0; i < 3; i++) if(!(missing >> i & 1)) cut.push_back(in[i]);
    auto kv = [](const char* k, const Items& i) { return Item::obj("", { Item::of("key", k), Item::obj("value", i) }); };
    Items all { Item::arr("v", { Item::obj("", inner_items(1)), Item::obj("", place == 0 ? cut : in), Item::obj("", inner_items(2)) }),
        Item::arr("m", { kv("x", inner_items(3)), kv("y", place == 1 ? cut : in), kv("z", inner_items(4)) }), Item::obj("i", place == 2 ? cut : in), Item::of("end", 6) };
    all = permuted(all, order);
    C want; want.v = { inner_value(1), inner_value(0), inner_value(2) }; want.m = { { "x", inner_value(3) }, { "y", inner_value(0) }, { "z", inner_value(4) } }; want.i = inner_value(0); want.end = 6;
    if(!missing) { expect(x, all, want, f, route); return; }
    C got;
    if(restore(x, all, got, f, route).empty()) x.fail("missing field is not refused", std::string(names[route]) + ", " + fmt_name(f) + ": " + show(all));
}

/* field of the same kind consumed in any order by user code which looks fields up itself */
struct Reader {
    std::vector<int> order; long num[2] { }; std::string text[2]; Inner in[2];
    bool operator==(const Reader& o) const { return order == o.order; }
    void srl_resolve(Context& k)
    {
        if(k.mode() == Mode::Insert) return;
        for(int i : order) {
            auto n = "f" + std::to_string(i);
            if(i < 2) k(n, num[i]); else if(i < 4) k(n, text[i - 2]); else k(n, in[i - 4]);
        }
    }
};
MC_SCENARIO("read orders", "six fields (2 numbers, 2 texts, 2 objects) in 4 orders read in all 720 orders and all prefixes of them, 3 routes, 4 formats")
{
    static const auto p6 = perms(6);
    auto& o = p6[x.shard(p6.size())];
    int n = x.thorough ? x.choose(7) : 6, w = x.choose(4), f = x.choose(NumFmt), route = x.choose(3);
    Items base { Item::of("f0", 100), Item::of("f1", -1), Item::of("f2", "two"), Item::of("f3", std::string(40, 't')), Item::obj("f4", inner_items(4)), Item::obj("f5", inner_items(5)) };
    auto all = permuted(base, p6[std::vector<int> { 0, 719, 307, 450 }[w]]);
    Reader r;
    r.order.assign(o.begin(), o.begin() + n);
    auto err = restore(x, all, r, f, route == 2 ? 2 : route);
    auto where = std::string(names[route]) + ", " + fmt_name(f) + ": " + show(all) + " " + err;
    if(!err.empty()) x.fail("fields are refused in this order", where);
    for(int i : r.order)
        if(i < 2 ? r.num[i] != base[i].num : i < 4 ? r.text[i - 2] != base[i].text : !(r.in[i - 4] == inner_value(i)))
            x.fail("field depends on the order of reading", std::to_string(i) + " " + where);
}

/* fields with names given at run time, of 3 kinds */
struct Alike {
    std::vector<std::string> name; std::vector<int> kind, order, enc; long num[4] { -1, -1, -1, -1 }; std::string text[4] { "-", "-", "-", "-" }; Inner in[4];
    bool operator==(const Alike& o) const { return name == o.name; }
    void srl_resolve(Context& k)
    {
        if(k.mode() == Mode::Insert) return;
        for(int i : order) {
            auto u = to32(name[i]); auto w = to16(u);
            String id = enc[i] == 0 ? String(name[i]) : enc[i] == 1 ? String(w) : String(u);
            if(kind[i] == 0) k(id, num[i]); else if(kind[i] == 1) k(id, text[i]); else k(id, in[i]);
        }
    }
};
MC_SCENARIO("names alike", "4 fields of 3 kinds named by two names which share a hash or nearly everything (18 pairs), a third and a fourth, in all 24 orders, read in 4 (thorough: all 24) orders by names in all encodings, 6 kinds of mixtures, all routes and formats")
{
    static const auto p4 = perms(4);
    auto& t = gen::twins()[x.shard(gen::twins().size())];
    if(t[1].empty()) x.skip();   /* no name: the next field, whatever it is */
    auto& o = x.pick(p4); auto& q = x.thorough ? x.pick(p4) : p4[x.pick(std::vector<int> { 0, 23, 10, 7 })];
    int mix = x.choose(6), f = x.choose(NumFmt), route = x.choose(3);
    static const int mixes[6][4] { { 0, 0, 0, 0 }, { 1, 1, 1, 1 }, { 2, 2, 2, 2 }, { 0, 1, 2, 0 }, { 2, 0, 1, 1 }, { 2, 2, 0, 1 } };
    Alike r; r.name = { t[0], t[1], "third", "fourth name, a longer one than the others" };
    r.kind.assign(mixes[mix], mixes[mix] + 4); r.order.assign(q.begin(), q.end());
    for(int i = 0; i < 4; i++) r.enc.push_back((i + mix + route + q[0]) % 3);
    Items base;
    for(int i = 0; i < 4; i++) base.push_back(r.kind[i] == 0 ? Item::of(r.name[i], 10 + i) : r.kind[i] == 1 ? Item::of(r.name[i], std::string(i * 9, 't')) : Item::obj(r.name[i], inner_items(i)));
    auto all = permuted(base, o);
    static const int routes[] { 0, 1, 2 };
    auto err = restore(x, all, r, f, routes[route]);
    auto where = std::string(names[routes[route]]) + ", " + fmt_name(f) + ": " + show(all) + " " + err;
    if(!err.empty()) x.fail("fields with similar names are refused", where);
    for(int i = 0; i < 4; i++) if(r.kind[i] == 0 ? r.num[i] != 10 + i : r.kind[i] == 1 ? r.text[i] != std::string(i * 9, 't') : !(r.in[i] == inner_value(i))) x.fail("field taken for another", std::to_string(i) + " " + where);
}
MC_SCENARIO("a similar name is not the field", "a required field is missing, another of the same kind has a name which shares its hash or nearly everything (19 pairs, both ways), 3 kinds, read first, in the middle or last by names in all encodings: refused, all formats and routes")
{
    auto& t = gen::twins()[x.shard(gen::twins().size())];
    int which = x.choose(2), kind = x.choose(3), at = x.choose(3), f = x.choose(NumFmt), route = x.choose(3), enc = x.choose(3);
    Alike r; r.name = { t[which], "b", "c" }; r.kind = { kind, 0, 1 }; r.enc = { enc, 0, 0 };
    r.order = at == 0 ? std::vector<int> { 0, 1, 2 } : at == 1 ? std::vector<int> { 1, 0, 2 } : std::vector<int> { 2, 1, 0 };
    if(t[1].empty()) x.skip();
    Items all { Item::of("c", "text"), kind == 0 ? Item::of(t[1 - which], 1) : kind == 1 ? Item::of(t[1 - which], "x") : Item::obj(t[1 - which], inner_items(1)), Item::of("b", 7) };
    if(restore(x, all, r, f, route).empty()) x.fail("missing field is not refused", std::string(names[route]) + ", " + fmt_name(f) + ": " + show(all) + " for '" + mc::show(t[which], 50) + "'");
}

MC_SCENARIO("many unknown fields", "0..40 and up to 3000 unknown values or scopes before, between and after known fields, 4 sizes of them, 3 routes, 4 formats")
{
    static const auto ns = gen::counts(40, 3000);
    int n = ns[x.shard(ns.size())];
    int kind = x.choose(3), place = x.choose(3), size = x.choose(4), f = x.choose(NumFmt), route = x.choose(3);
    Items all = big_items(inner_items(0)), ex;
    std::swap(all[0], all[4]);
    for(int i = 0; i < n; i++) {
        auto nm = size % 2 ? "n" + std::to_string(i) : "same";
        if(kind == 0) ex.push_back(Item::of(nm, std::string(size * 15, 'q')));
        if(kind == 1) ex.push_back(Item::obj(nm, { Item::of("a", i) }));
        if(kind == 2) ex.push_back(i % 2 ? Item::of(nm, i) : Item::ints(nm, std::vector<int>(size * 5, i)));
    }
    all.insert(all.begin() + (place == 0 ? 0 : place == 1 ? 3 : 5), ex.begin(), ex.end());
    Big got;
    auto err = restore(x, all, got, f, route);
    auto where = std::string(names[route]) + ", " + fmt_name(f) + ", " + std::to_string(n) + " fields of kind " + std::to_string(kind) + " at " + std::to_string(place) + " " + err;
    if(!err.empty()) x.fail("complete object refused", where);
    if(!(got == big_value())) x.fail("object depends on unknown fields", where);
}

int main(int argc, char** argv) { return mc::main("P13", argc, argv); }
