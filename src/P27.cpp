#include "dyn.h"
#include "objs.h"
using namespace doc;
using namespace Srl;
using dyn::Item; using dyn::Items;
using objs::new_parser; using objs::Point; using objs::Split;

/* items of every kind, inserted by the library and as expected */
static const int Kinds = 24;
static const char* kind_name[] { "int", "text", "null", "real", "blob", "vector", "object", "map", "initializer list", "nested object", "nested array", "node of a tree", "value of a tree", "unique_ptr", "shared_ptr", "UTF-16 text", "pair", "empty scope", "two items", "literal", "object without names", "vector of objects", "bool", "deep" };

static Tree& other()
{
    static Tree* t = nullptr;
    if(!t) { t = new Tree(); t->root().insert("n", ScopeWrap([](Node& n) { n.insert("v", 5); n.insert("s", std::string("a text which is not short")); n.insert("m", ScopeWrap([](Node& k) { k.insert("", 1); k.insert("", true); }, Type::Array)); })); t->root().insert("x", std::string("value of another tree")); }
    return *t;
}
static void ins(Node& n, const std::string& name, int kind)
{
    switch(kind) {
        case 0: n.insert(name, 7); break;
        case 1: n.insert(name, std::string("t\"e\\x\nt which is not short")); break;
        case 2: n.insert(name, nullptr); break;
        case 3: n.insert(name, 2.3); break;
        case 4: n.insert(name, BitWrap((const uint8_t*)"\0\1\xff bytes", 9)); break;
        case 5: n.insert(name, std::vector<int> { 1, -2 }); break;
        case 6: { Point p; p.x = 3; p.y = 4; n.insert(name, p); break; }
        case 7: n.insert(name, std::map<std::string, int> { { "a", 1 }, { "b", 2 } }); break;
        case 8: n.insert(name, { 4, 5, 6 }); break;
        case 9: n.insert(name, ScopeWrap([](Node& c) { c.insert("p", 1); c.insert("q", ScopeWrap()); c.insert("p", std::string("again")); })); break;
        case 10: n.insert(name, ScopeWrap([](Node& c) { c.insert(1); c.insert(std::vector<int>()); c.insert("ignored", 2); }, Type::Array)); break;
        case 11: n.insert(name, other().root().node("n")); break;
        case 12: n.insert(name, other().root().value("x")); break;
        case 13: { std::unique_ptr<Point> p(new Point); p->x = 8; n.insert(name, p); break; }
        case 14: { auto p = std::make_shared<Point>(); p->y = 9; n.insert(name, p); break; }
        case 15: n.insert(name, std::u16string(u"\u20acuro and more text")); break;
        case 16: n.insert(name, std::make_pair(1, std::string("second"))); break;
        case 17: n.insert(name, ScopeWrap()); break;
        case 18: n.insert(name, 1, name + "2", std::string("two")); break;
        case 19: n.insert(name, "literal"); break;
        case 20: { Split s; objs::S<Split>::set(s, 3); n.insert(name, s); break; }
        case 21: n.insert(name, std::vector<Point>(2)); break;
        case 22: n.insert(name, true); break;
        case 23: n.insert(name, ScopeWrap([](Node& a) { a.insert("a", ScopeWrap([](Node& b) { b.insert("b", ScopeWrap([](Node& c) { c.insert("a", 1); c.insert("b", 2); }, Type::Array)); b.insert("a", 3); })); a.insert("b", 4); })); break;
    }
}
static Doc pt(int x, int y) { Doc d; d.v("x", Val::i32(x)).v("y", Val::i32(y)); return d; }
static void expect(Doc& d, const std::string& name_, int kind)
{
    std::string name = d.array ? "" : name_;
    Doc a(true), o;
    switch(kind) {
        case 0: d.v(name, Val::i32(7)); break;
        case 1: d.v(name, Val::str("t\"e\\x\nt which is not short")); break;
        case 2: d.v(name, Val::null()); break;
        case 3: d.v(name, Val::dbl(2.3)); break;
        case 4: d.v(name, Val::bin(std::string("\0\1\xff bytes", 9))); break;
        case 5: d.n(name, a.v("", Val::i32(1)).v("", Val::i32(-2))); break;
        case 6: d.n(name, pt(3, 4)); break;
        case 7: { Doc e, f; e.v("key", Val::str("a")).v("value", Val::i32(1)); f.v("key", Val::str("b")).v("value", Val::i32(2)); d.n(name, a.n("", e).n("", f)); break; }
        case 8: d.n(name, a.v("", Val::i32(4)).v("", Val::i32(5)).v("", Val::i32(6))); break;
        case 9: d.n(name, o.v("p", Val::i32(1)).v("p", Val::str("again")).n("q", Doc())); break;
        case 10: d.n(name, a.v("", Val::i32(1)).v("", Val::i32(2)).n("", Doc(true))); break;
        case 11: { Doc m(true); m.v("", Val::i32(1)).v("", Val::boolean(true)); d.n(name, o.v("v", Val::i32(5)).v("s", Val::str("a text which is not short")).n("m", m)); break; }
        case 12: d.v(name, Val::str("value of another tree")); break;
        case 13: d.n(name, pt(8, 0)); break;
        case 14: break;     /* not expressed */
        case 15: d.v(name, Val::str("\xe2\x82\xacuro and more text")); break;
        case 16: d.n(name, o.v("first", Val::i32(1)).v("second", Val::str("second"))); break;
        case 17: d.n(name, Doc()); break;
        case 18: d.v(name, Val::i32(1)).v(d.array ? "" : name + "2", Val::str("two")); break;
        case 19: d.v(name, Val::str("literal")); break;
        case 20: { Split s; Doc v(true); for(int i = 0; i < 9; i++) v.v("", Val::i32(objs::make<std::vector<int>>(3)[i])); d.n(name, o.v("", Val::i32(3)).v("", Val::str(objs::make<std::string>(3))).n("", v)); break; }
        case 21: d.n(name, a.n("", pt(0, 0)).n("", pt(0, 0))); break;
        case 22: d.v(name, Val::boolean(true)); break;
        case 23: { Doc c(true); c.v("", Val::i32(1)).v("", Val::i32(2)); Doc b; b.v("a", Val::i32(3)).n("b", c); d.n(name, o.v("b", Val::i32(4)).n("a", b)); break; }
    }
}

/* what a route of writing gives: bytes of all routes have to be documents of equal content */
static Doc pack_load(mc::X& x, int f, bool stream, const std::function<void(Node&)>& items, Type tp, const char* what, Buf* out = nullptr)
{
    std::unique_ptr<Parser> p(new_parser(f));
    Buf b; Tree t;
    x.step();
    if(stream) { std::stringstream s; t.pack(s, *p, "r", ScopeWrap(items, tp), "after", 1); auto k = s.str(); b.assign(k.begin(), k.end()); }
    else t.pack(b, *p, "r", ScopeWrap(items, tp), "after", 1);
    Tree u;
    try { load(u, f, b); } catch(Exception& e) { x.fail("items written directly cannot be loaded", std::string(what) + " " + fmt_name(f) + ": " + e.what() + " " + mc::show(b)); }
    auto d = extract(u.root());
    if(d.values.size() != 1 || d.nodes.size() != 1 || d.values[0].second.i != 1) x.fail("items behind are lost", std::string(what) + " " + fmt_name(f) + mc::show(b));
    if(out) *out = b;
    return d.nodes[0].second;
}
struct Storer { std::function<void(Node&)> f; void srl_store(StoreContext& c) const { c("r", ScopeWrap(f)); } void srl_restore(RestoreContext&) { } };

static void compare(mc::X& x, const std::function<void(Node&)>& items, Type tp, const Doc* want, const std::string& what)
{
    Tree t; t.root().insert("r", ScopeWrap(items, tp), "after", 1);
    for(int f = 0; f < NumFmt; f++) {
        Doc m; { Tree u; load(u, f, write(t, f)); m = extract(u.root().node("r")); }
        if(want) { auto r = diff(*want, m, is_text(f)); if(!r.empty()) x.fail("items inserted into a tree are not those given", what + " " + fmt_name(f) + ": " + r); }
        Buf a, b;
        auto d = pack_load(x, f, false, items, tp, what.c_str(), &a);
        auto r = diff(m, d, false);
        if(!r.empty()) x.fail("items written directly differ from a tree's", what + " " + fmt_name(f) + ": " + r);
        pack_load(x, f, true, items, tp, what.c_str(), &b);
        if(a != b) x.fail("items written to a stream differ from memory", what + " " + fmt_name(f));
        x.state(mc::hash(a));
        if(tp == Type::Object) {
            std::unique_ptr<Parser> p(new_parser(f));
            Storer s { items }; auto c = Tree().store(s, *p);
            Tree u; load(u, f, c);
            r = diff(m, extract(u.root().node("r")), false);
            if(!r.empty()) x.fail("items of a stored object differ from a tree's", what + " " + fmt_name(f) + ": " + r);
        }
    }
}

MC_SCENARIO("kinds of items", "all sequences of 0..3 items out of 24 kinds with equal, distinct or empty names, in an object and in an array, written by pack, store and from a tree, memory and stream, all formats")
{
    int s = x.shard(Kinds * (Kinds + 1) + 1), k[3], n = 0;
    if(s) { s--; k[n++] = s % Kinds; if(s / Kinds) { k[n++] = s / Kinds - 1; int c = x.choose(x.thorough ? Kinds + 1 : 9); if(c) k[n++] = x.thorough ? c - 1 : (c * 3 + k[0]) % Kinds; } }
    int names = n > 1 ? x.choose(3) : x.choose(2) * 2; bool array = x.flip();
    static const char* nm[3][3] { { "a", "b", "c" }, { "a", "a", "a" }, { "", "b", "" } };
    std::string what = array ? "array:" : "object:"; bool model = true; Doc d(array);
    for(int i = 0; i < n; i++) { what += std::string(" ") + kind_name[k[i]]; expect(d, nm[names][i], k[i]); model &= k[i] != 14; }
    x.note("%s", what.c_str());
    compare(x, [&](Node& r) { for(int i = 0; i < n; i++) ins(r, nm[names][i], k[i]); }, array ? Type::Array : Type::Object, model ? &d : nullptr, what);
}

/* any nesting, values and scopes in any order */
struct Ev { int what; std::string name; };  /* 0 value, 1 object, 2 array, 3 end */
static size_t play(Node& n, const std::vector<Ev>& ev, size_t i)
{
    while(i < ev.size()) {
        auto& e = ev[i];
        if(e.what == 3) return i + 1;
        if(e.what == 0) { n.insert(e.name, (int)i); i++; continue; }
        size_t end = 0;
        n.insert(e.name, ScopeWrap([&](Node& c) { end = play(c, ev, i + 1); }, e.what == 1 ? Type::Object : Type::Array));
        i = end;
    }
    return i;
}
static size_t play(Doc& d, const std::vector<Ev>& ev, size_t i)
{
    while(i < ev.size()) {
        auto& e = ev[i];
        if(e.what == 3) return i + 1;
        auto nm = d.array ? std::string() : e.name;
        if(e.what == 0) { d.v(nm, Val::i32(i)); i++; continue; }
        Doc c(e.what == 2); i = play(c, ev, i + 1); d.n(nm, c);
    }
    return i;
}
MC_SCENARIO("nesting", "all well-formed sequences of 6 (thorough 7) events (value, object, array, end of scope) with names out of two, written by nested callbacks")
{
    int len = x.thorough ? 7 : 6, open = 0;
    std::vector<Ev> ev; std::string what;
    for(int i = 0; i < len; i++) {
        int c = i ? x.choose(7) : x.shard(7);
        if(c == 6) { if(!open) { if(i) x.skip(); break; } open--; ev.push_back({ 3, "" }); what += ") "; continue; }
        ev.push_back({ c / 2, c % 2 ? "name" : "n" }); if(c >= 2) open++;
        what += c < 2 ? "v " : c < 4 ? "obj( " : "arr( ";
    }
    Doc d; play(d, ev, 0);
    auto f = [&](Node& n) { play(n, ev, 0); };
    if(x.thorough || !(what.size() % 2)) { compare(x, f, Type::Object, &d, what); return; }
    for(int k = 0; k < NumFmt; k++) { auto r = diff(d, pack_load(x, k, false, f, Type::Object, what.c_str()), is_text(k)); if(!r.empty()) x.fail("items written directly are not those given", what + r); }
}

MC_SCENARIO("parts of trees", "all documents with up to 3 (thorough 4) items in up to 3 levels, names out of a, b and empty, as the root of a tree, as a scope of it and as its values one by one, inserted at the top, in an object and in an array, written directly and through another tree, all formats")
{
    gen::Gen g(x, x.thorough ? 4 : 3, 4);
    auto d = g.root({ "a", "b", "" }, { Val::i32(7), Val::str("a text which is not short") });
    int how = x.choose(3); auto where = x.choose(3);
    Tree src(d.array ? Type::Array : Type::Object);
    Node* from = &src.root();
    if(how == 1) { src.root().insert("k", ScopeWrap([&](Node& n) { build(n, d); }, d.array ? Type::Array : Type::Object)); from = &src.root().node(0); }
    else build(src.root(), d);
    Doc in(where == 2), want;
    auto put = [&](Node& n) {
        n.insert("first", 1);
        if(how == 2) { from->foreach_value([&](Value& v) { n.insert(v.name(), v); }); from->foreach_node([&](Node& c) { n.insert(c.name(), c); }); }
        else n.insert("m", *from);
    };
    in.v(where == 2 ? "" : "first", Val::i32(1));
    if(how == 2) {
        for(auto& v : d.values) in.v(where == 2 ? "" : d.array ? "" : v.first, v.second);
        for(auto& c : d.nodes) in.n(where == 2 ? "" : c.first, c.second);
    } else in.n(where == 2 ? "" : "m", d);
    auto what = show(d) + " as " + (how == 0 ? "root" : how == 1 ? "scope" : "items") + (where == 0 ? "" : where == 1 ? " in an object" : " in an array");
    x.note("%s", what.c_str());
    if(where == 0) compare(x, put, Type::Object, &in, what);
    else { want.n("in", in); compare(x, [&](Node& r) { r.insert("in", ScopeWrap(put, where == 2 ? Type::Array : Type::Object)); }, Type::Object, &want, what); }
}

/* names which do not outlive the call */
template<class C> static std::basic_string<C> temp_name(int k)
{
    static const char* base[] { "a", "eightchr", "a name which is longer than others", "a name which is longer than Others", "" };
    std::string b = base[k]; std::basic_string<C> r(b.begin(), b.end());
    if(sizeof(C) > 1 && k) r += C(0x20ac);
    return r;
}
static std::string name8(int k, int enc) { return from32(to32(temp_name<char>(k))) + (enc && k ? "\xe2\x82\xac" : ""); }
static void insert_named(Node& n, int k, int enc, int v)
{
    if(enc == 0) n.insert(temp_name<char>(k), v);
    else if(enc == 1) n.insert(temp_name<char16_t>(k), v);
    else n.insert(temp_name<char32_t>(k), v);
}
static void scope_named(Node& n, int k, int enc, const std::function<void(Node&)>& f)
{
    if(enc == 0) n.insert(temp_name<char>(k), ScopeWrap(f));
    else if(enc == 1) n.insert(temp_name<char16_t>(k), ScopeWrap(f));
    else n.insert(temp_name<char32_t>(k), ScopeWrap(f));
}
struct Fields { std::vector<int> ks; int enc; void srl_store(StoreContext& c) const { int i = 0; for(int k : ks) { if(enc == 0) c(temp_name<char>(k), i); else if(enc == 1) c(temp_name<char16_t>(k), i); else c(temp_name<char32_t>(k), i); i++; } } void srl_restore(RestoreContext&) { } };
MC_SCENARIO("names made on the fly", "all sequences of 1..5 (thorough 6) items whose names are out of 5 (1 to 34 characters, equal but for one, empty), given as temporary UTF-8, UTF-16 and UTF-32 text, flat, nested in scopes and as fields of objects")
{
    int s = x.shard(75), enc = s / 25, how = x.choose(3);
    std::vector<int> k { s % 5, s / 5 % 5 };
    int d = x.thorough ? 6 : 5;
    for(int i = 2; i < d; i++) { int c = x.choose(6); if(!c) break; k.push_back(c - 1); }
    Doc want;
    std::string what = "names"; for(int i : k) what += " " + std::to_string(i);
    what += enc == 0 ? " UTF-8" : enc == 1 ? " UTF-16" : " UTF-32";
    if(how == 2) {
        for(size_t i = 0; i < k.size(); i++) want.v(name8(k[i], enc), Val::i32(i));
        for(int f = 0; f < NumFmt; f++) {
            std::unique_ptr<Parser> p(new_parser(f)); Fields o { k, enc }; auto b = Tree().store(o, *p); x.step();
            auto r = diff(want, load_doc(f, b), is_text(f)); if(!r.empty()) x.fail("fields with names made on the fly", what + " " + fmt_name(f) + ": " + r);
            std::vector<Fields> v { o, o }; b = Tree().store(v, *p);
            auto q = load_doc(f, b); for(int j = 0; j < 2; j++) { r = q.nodes.size() == 2 ? diff(want, q.nodes[j].second, is_text(f)) : "elements"; if(!r.empty()) x.fail("fields with names made on the fly", what + " " + fmt_name(f) + ": " + r); }
        }
        return;
    }
    std::function<void(Node&, size_t)> put = [&](Node& n, size_t i) {
        if(i >= k.size()) return;
        insert_named(n, k[i], enc, i);
        if(how) scope_named(n, k[i], enc, [&](Node& c) { put(c, i + 1); insert_named(c, k[i], enc, 50); });
        else put(n, i + 1);
    };
    std::function<void(Doc&, size_t)> model = [&](Doc& n, size_t i) {
        if(i >= k.size()) return;
        n.v(name8(k[i], enc), Val::i32(i));
        if(how) { Doc c; model(c, i + 1); c.v(name8(k[i], enc), Val::i32(50)); n.n(name8(k[i], enc), c); }
        else model(n, i + 1);
    };
    model(want, 0);
    compare(x, [&](Node& n) { put(n, 0); }, Type::Object, &want, what);
}

/* several items of pack itself */
struct Sample { int i = 7; std::string s = "text of some length"; std::vector<int> v { 1, 2 }; Point p; std::nullptr_t z = nullptr; };
template<class F> static void with_item(int k, const Sample& s, const F& f) { switch(k) { case 0: f(s.i); break; case 1: f(s.s); break; case 2: f(s.v); break; case 3: f(s.p); break; default: f(s.z); } }
MC_SCENARIO("arguments of pack", "all pairs and triples of arguments out of 5 types with equal, distinct and empty names, memory and stream, all formats")
{
    Sample s; int a = x.shard(5), b = x.choose(5), c = x.choose(6), names = x.choose(3), f = x.choose(4); bool stream = x.flip();
    static const char* nm[3][3] { { "first", "second", "third" }, { "n", "n", "n" }, { "", "x", "" } };
    auto* n = nm[names];
    std::unique_ptr<Parser> p(new_parser(f)); Buf out; std::stringstream ss; Tree t, m;
    auto dest = [&]() -> Lib::Out::Source { if(stream) return Lib::Out::Source(ss); return Lib::Out::Source(out); };
    with_item(a, s, [&](auto& q) { with_item(b, s, [&](auto& r) {
        if(c == 5) { t.pack(dest(), *p, n[0], q, n[1], r); m.root().insert(n[0], q, n[1], r); }
        else with_item(c, s, [&](auto& w) { t.pack(dest(), *p, n[0], q, n[1], r, n[2], w); m.root().insert(n[0], q, n[1], r, n[2], w); });
    }); });
    if(stream) { auto k = ss.str(); out.assign(k.begin(), k.end()); }
    x.step(); x.state(mc::hash(out));
    auto want = load_doc(f, write(m, f));
    auto r = diff(want, load_doc(f, out), false);
    if(!r.empty()) x.fail("items written directly differ from a tree's", fmt_name(f) + std::string(": ") + r);
}

/* reading back ***********************************************************************************/
static const std::vector<Item>& pool()
{
    static std::vector<Item> p {
        Item::of("i", 42), Item::of("s", "a text which is not short"), Item::ints("v", { 1, 2, 3 }), Item::obj("p", { Item::of("y", -4), Item::of("x", 3) }),
        /* others of the same names and of other kinds */
        Item::of("i", 43), Item::obj("i", { Item::of("x", 1) }), Item::of("v", 9), Item::ints("v", { 7 }), Item::of("p", "value"), Item::obj("s", { Item::of("s", "inner") }), Item::obj("unknown", { Item::of("i", 1), Item::obj("p", { Item::of("x", 5) }) }), Item::of("", 1) };
    return p;
}
struct Got { int i = -1; std::string s = "-"; std::vector<int> v { -1 }; Point p; Union u[2];
    std::string text() { return std::to_string(i) + "|" + s + "|" + std::to_string(v.size()) + (v.empty() ? "" : ":" + std::to_string(v[0])) + "|" + std::to_string(p.x) + "," + std::to_string(p.y); } };

static const char* field_names[] { "i", "s", "v", "p" };
template<class F> static void with_target(int k, Got& g, const F& f) { switch(k) { case 0: f("i", g.i); break; case 1: f("s", g.s); break; case 2: f("v", g.v); break; default: f("p", g.p); break; } }

/* n targets in an order; the text of the result or of the exception */
static std::string unpack_them(Tree& t, Lib::In::Source src, Parser& p, const int* k, int n)
{
    Got g;
    try {
        with_target(k[0], g, [&](const char* a, auto& ta) {
            if(n == 1) { t.unpack(src, p, a, ta); return; }
            with_target(k[1], g, [&](const char* b, auto& tb) {
                if(n == 2) { t.unpack(src, p, a, ta, b, tb); return; }
                with_target(k[2], g, [&](const char* c, auto& tc) {
                    if(n == 3) { t.unpack(src, p, a, ta, b, tb, c, tc); return; }
                    /* the last one is what is left */
                    int d = 6 - k[0] - k[1] - k[2];
                    if(d == 0) t.unpack(src, p, a, ta, b, tb, c, tc, "i", g.i); else if(d == 1) t.unpack(src, p, a, ta, b, tb, c, tc, "s", g.s); else if(d == 2) t.unpack(src, p, a, ta, b, tb, c, tc, "v", g.v); else t.unpack(src, p, a, ta, b, tb, c, tc, "p", g.p);
                });
            });
        });
    } catch(Exception&) { return "refused"; }
    return g.text();
}
static std::string look_up(Tree& t, const int* k, int n)
{
    Got g;
    try { for(int i = 0; i < n; i++) with_target(k[i], g, [&](const char* a, auto& ta) { t.root().paste_field(a, ta); }); } catch(Exception&) { return "refused"; }
    return g.text();
}
static const char* const names_of_items = "items of a document";

MC_SCENARIO("reading items", "documents of up to 3 (thorough 4) items out of 12 (four known ones, others with the same names, unknown ones) in every order, read in every order of 1..4 targets, memory and stream, all formats: as looked up in the loaded document")
{
    auto& P = pool(); int N = P.size();
    int s = x.shard(N * N), f = x.choose(4);
    Items doc { P[s % N], P[s / N] };
    for(int i = 2; i < (x.thorough ? 4 : 3); i++) { int c = x.choose(N + 1); if(!c) break; doc.push_back(P[c - 1]); }
    std::unique_ptr<Parser> p(new_parser(f));
    auto b = dyn::write(doc, *p); Exact e(b);
    Tree full; full.load_source(e.p, e.n, *p);
    int k[4];
    std::function<void(int)> rec = [&](int n) {
        if(n) {
            auto want = look_up(full, k, n);
            for(int stream = 0; stream < 2; stream++) {
                Tree t; ChunkStream cs(b, { 1, 9 });
                auto got = unpack_them(t, stream ? Lib::In::Source(cs) : Lib::In::Source(e.p, e.n), *p, k, n);
                x.step();
                if(got != want) {
                    std::string q; for(int i = 0; i < n; i++) q += std::string(field_names[k[i]]) + " ";
                    x.fail("items read directly differ from those looked up", std::string(fmt_name(f)) + (stream ? " stream " : " memory ") + dyn::show(doc) + " read " + q + ": " + got + " instead of " + want);
                }
                if(n == 1 || n == 4) { /* the tree is usable */ int z = 0; Tree w; w.root().insert("z", 5); auto wb = w.to_source(*p); t.unpack(wb, *p, "z", z); if(z != 5) x.fail("nothing can be read afterwards"); }
            }
        }
        if(n < 4) for(int i = 0; i < 4; i++) { bool used = false; for(int j = 0; j < n; j++) used |= k[j] == i; if(used) continue; k[n] = i; rec(n + 1); }
    };
    rec(0);
    x.state(mc::hash(b));
}

MC_SCENARIO("names alike", "two to four items under two names which share a hash or nearly everything (19 pairs) and a third in every order, written by pack and read in every order by unpack, one of them alone, memory and stream, all formats")
{
    auto& t = gen::twins()[x.shard(gen::twins().size())];
    int f = x.choose(4), perm = x.choose(6), rd = x.choose(6), kind = x.choose(3);
    bool stream = x.flip();
    static const int p3[6][3] { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
    std::string names[] { t[0], t[1], "third" };
    auto go = [&](auto make) {
        typedef decltype(make(0)) T;
        T v[3] { make(0), make(1), make(2) }, g[3];
        auto *o = p3[perm], *q = p3[rd];
        std::unique_ptr<Parser> p(new_parser(f)); Tree w; Buf b;
        w.pack(b, *p, names[o[0]], v[o[0]], names[o[1]], v[o[1]], names[o[2]], v[o[2]]);
        x.step(2); x.state(mc::mix(mc::hash(b), rd));
        auto where = [&] { return std::string(fmt_name(f)) + " " + mc::show(b) + " read " + std::to_string(rd); };
        try {
            ChunkStream s(b, { 1, 9 }); Tree r; Exact e(b);
            Lib::In::Source src = stream ? Lib::In::Source(s) : Lib::In::Source(e.p, e.n);
            r.unpack(src, *p, names[q[0]], g[q[0]], names[q[1]], g[q[1]], names[q[2]], g[q[2]]);
            for(int i = 0; i < 3; i++) if(!(g[i] == v[i])) x.fail("item taken for another", std::to_string(i) + " " + where());
            T one { };
            Tree().unpack(Lib::In::Source(e.p, e.n), *p, names[q[0]], one);
            if(!(one == v[q[0]])) x.fail("item taken for another", "alone " + where());
        } catch(Exception& ex) { x.fail("items refused", where() + " " + ex.what()); }
        /* what is not there under its own name is not found under a similar one */
        if(perm == 0 && !t[0].empty() && !t[1].empty()) for(int i = 0; i < 2; i++) {
            Tree u; Buf c; u.pack(c, *p, names[1 - i], v[0], "third", v[1]);
            T one { }; bool threw = false; Exact e(c); ChunkStream s(c, { 3 });
            try { Tree().unpack(stream ? Lib::In::Source(s) : Lib::In::Source(e.p, e.n), *p, names[i], one); } catch(Exception&) { threw = true; }
            if(!threw) x.fail("missing item found under a similar name", where());
        }
    };
    if(kind == 0) go([](int i) { return i + 5; });
    if(kind == 1) go([](int i) { return std::string(i * 9, 'a' + i); });
    if(kind == 2) go([](int i) { return std::vector<int>(i + 1, i); });
}

MC_SCENARIO("reading generic items", "documents of up to 3 items out of 12 in every order read into two Unions, and into a Union before and behind a typed target, memory and stream, all formats: as looked up in the loaded document")
{
    auto& P = pool(); int N = P.size();
    int s = x.shard(N * N), f = x.choose(4);
    Items doc { P[s % N], P[s / N] }; int c = x.choose(N + 1); if(c) doc.push_back(P[c - 1]);
    std::unique_ptr<Parser> p(new_parser(f));
    auto b = dyn::write(doc, *p); Exact e(b);
    Tree full; full.load_source(e.p, e.n, *p);
    auto show = [&](Union u) { if(u.is_node()) { auto d = extract(*u.node()); return (d.array ? "array " : "object ") + doc::show(d); } if(u.is_value()) return doc::show(get(*u.value())); return std::string("nothing"); };
    static const char* q[] { "i", "s", "v", "p", "unknown", "" };
    /* by name there may be a value and a scope; both are right */
    auto right = [&](const char* name, const std::string& got) {
        bool any = false, hit = false;
        full.root().foreach_value([&](Value& v) { if(v.name() == String(std::string(name))) { any = true; hit |= got == doc::show(get(v)); } });
        full.root().foreach_node([&](Node& n) { if(n.name() == String(std::string(name))) { any = true; auto d = extract(n); hit |= got == (d.array ? "array " : "object ") + doc::show(d); } });
        return any ? hit : got == "refused";
    };
    for(int stream = 0; stream < 2; stream++) for(int a = 0; a < 6; a++) for(int b2 = 0; b2 < 6; b2++) for(int how = 0; how < 3; how++) {
        if(how && b2 > 0) continue;
        Tree t; ChunkStream cs(b, { 3 }); Union u, w; int i = -1; bool refused = false;
        Lib::In::Source src = stream ? Lib::In::Source(cs) : Lib::In::Source(e.p, e.n);
        x.step();
        try { if(how == 0) t.unpack(src, *p, q[a], u, q[b2], w); else if(how == 1) t.unpack(src, *p, q[a], u, "i", i); else t.unpack(src, *p, "i", i, q[a], u); } catch(Exception&) { refused = true; }
        auto where = [&] { return std::string(fmt_name(f)) + (stream ? " stream " : " memory ") + dyn::show(doc) + " read " + q[a] + (how == 0 ? std::string(" and ") + q[b2] : how == 1 ? " and i" : " behind i"); };
        auto has = [&](const char* n) { return full.root().has_value(std::string(n)) || full.root().has_node(std::string(n)); };
        bool can = has(q[a]) && (how == 0 ? has(q[b2]) : full.root().has_value("i"));
        if(how && a == 0) continue;     /* the same item twice */
        if(how == 0 && a == b2) continue;
        if(refused == can) x.fail(can ? "items refused which are there" : "items read which are missing", where());
        if(refused) continue;
        if(!right(q[a], show(u))) x.fail("wrong generic item", where() + ": " + show(u));
        if(how == 0 && !right(q[b2], show(w))) x.fail("wrong generic item", where() + ": " + show(w));
        if(how && i != full.root().unwrap_field<int>("i")) x.fail("wrong item next to a generic one", where());
    }
    x.state(mc::hash(b));
}

int main(int argc, char** argv) { return mc::main("P27", argc, argv); }
