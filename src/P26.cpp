#include "objs.h"

using namespace doc;
using namespace objs;
using namespace Srl;

/* in arrays names are kept by the tree */
static std::string diff_names(const Doc& e, Node& n)
{
    auto g = extract(n);
    if(e.array != g.array) return "kind of scope";
    if(e.values.size() != g.values.size() || e.nodes.size() != g.nodes.size() || n.num_values() != e.values.size() || n.num_nodes() != e.nodes.size()) return "number of items";
    for(size_t i = 0; i < e.values.size(); i++) {
        if(e.values[i].first != g.values[i].first) return "name of value " + std::to_string(i) + ": " + mc::show(g.values[i].first, 60) + " instead of " + mc::show(e.values[i].first, 60);
        if(!same(e.values[i].second, g.values[i].second, false)) return "value " + mc::show(e.values[i].first, 40) + ": " + show(g.values[i].second) + " instead of " + show(e.values[i].second);
    }
    for(size_t i = 0; i < e.nodes.size(); i++) {
        if(e.nodes[i].first != g.nodes[i].first) return "name of scope " + std::to_string(i) + ": " + mc::show(g.nodes[i].first, 60) + " instead of " + mc::show(e.nodes[i].first, 60);
        auto d = diff_names(e.nodes[i].second, n.node(i));
        if(!d.empty()) return "in scope " + mc::show(e.nodes[i].first, 40) + ": " + d;
    }
    return "";
}

static void verify(mc::X& x, Tree& t, const Doc& d, const std::string& what, bool formats = true)
{
    x.step();
    auto r = diff_names(d, t.root());
    if(!r.empty()) x.fail("tree changed", what + ": " + r);
    if(!formats) return;
    for(int f = 0; f < NumFmt; f++) {
        auto b = f % 2 ? write_stream(t, f) : write(t, f);
        r = diff(d, load_doc(f, b), is_text(f));
        x.step(2);
        if(!r.empty()) x.fail("written tree changed", what + ", " + fmt_name(f) + ": " + r);
    }
    r = diff_names(d, t.root());
    if(!r.empty()) x.fail("tree changed by writing it", what + ": " + r);
}

/* text of n characters, all of one byte in UTF-8 unless wide */
static std::u32string text(size_t n, bool wide)
{
    std::u32string s;
    for(size_t i = 0; i < n; i++) s += wide && i % 3 == 1 ? U'\u20ac' : wide && i % 5 == 2 ? U'\U0001f600' : char32_t('a' + i % 26);
    return s;
}
template<class S> static void spoil(S* s) { for(auto& c : *s) c = 'Z'; delete s; }

/* a name the memory of which is gone after use */
struct Name {
    std::string* s8 = nullptr; std::u16string* s16 = nullptr; std::u32string* s32 = nullptr;
    String str;
    static String make(Name& n, const std::u32string& t, int enc)
    {
        if(enc == 0) { n.s8 = new std::string(from32(t)); return String(*n.s8); }
        if(enc == 1) { n.s16 = new std::u16string(to16(t)); return String(*n.s16); }
        n.s32 = new std::u32string(t); return String(*n.s32);
    }
    Name(const std::u32string& t, int enc) : str(make(*this, t, enc)) { }
    ~Name() { if(s8) spoil(s8); if(s16) spoil(s16); if(s32) spoil(s32); }
};

struct Inner { std::string s; int i = 0; void srl_resolve(Context& c) { c("s", s)("i", i); } };
struct Obj {
    std::string s; std::vector<std::string> v; Inner in; std::unique_ptr<std::string> p; std::map<std::string, std::string> m; std::u16string w;
    void srl_resolve(Context& c) { c("s", s)("v", v)("in", in)("p", p)("m", m)("w", w); }
    void spoil() { for(auto& ch : s) ch = 'Z'; for(auto& e : v) for(auto& ch : e) ch = 'Z'; for(auto& ch : in.s) ch = 'Z'; in.i = -1; if(p) for(auto& ch : *p) ch = 'Z'; for(auto& e : m) for(auto& ch : e.second) ch = 'Z'; for(auto& ch : w) ch = 'Z'; }
};
static void fill(Obj& o, const std::u32string& t) { auto s = from32(t); o.s = s; o.v = { s, "x" + s, s + "y" }; o.in.s = s + s; o.in.i = 7; o.p.reset(new std::string(s)); o.m[s] = "1" + s; o.m["k"] = s; o.w = to16(t); }
static Doc model(const Obj& o)
{
    Doc d, in, m(true), v(true);
    d.v("s", Val::str(o.s)).v("p", Val::str(*o.p)).v("w", Val::str(from32(to32(o.s))));
    for(auto& e : o.v) v.v("", Val::str(e));
    in.v("s", Val::str(o.in.s)).v("i", Val::i32(o.in.i));
    for(auto& e : o.m) { Doc p; p.v("key", Val::str(e.first)).v("value", Val::str(e.second)); m.n("", p); }
    d.n("v", v).n("in", in).n("m", m);
    return d;
}

const int Kinds = 30;
static const char* kind_names[] { "string", "u16string", "u32string", "wstring", "character array", "u16 character array", "pointer to characters", "String", "String of UTF-16", "BitWrap", "VecWrap", "Bytes", "Value of text", "Value of bytes", "vector of strings", "map", "object", "pointer to object", "shared object", "HTable", "tuple", "scope of other tree", "value of other tree", "scope of same tree", "value of same tree", "list", "callback scope", "number", "detached scope", "Union of other tree" };

/* insert a source of n characters into node, the model gets what is expected there; then the source is overwritten and freed */
static void insert_source(Node& node, Tree& tree, Doc& d, int kind, size_t n, bool wide, const std::u32string& name32, int enc)
{
    auto t = text(n, wide);
    auto s = from32(t);
    auto name = from32(name32);
    Name nm(name32, enc);
    auto& k = nm.str;
    switch(kind) {
        case 0: { auto* p = new std::string(s); node.insert(k, *p); spoil(p); d.v(name, Val::str(s)); break; }
        case 1: { auto* p = new std::u16string(to16(t)); node.insert(k, *p); spoil(p); d.v(name, Val::str(s)); break; }
        case 2: { auto* p = new std::u32string(t); node.insert(k, *p); spoil(p); d.v(name, Val::str(s)); break; }
        case 3: { auto* p = new std::wstring(t.begin(), t.end()); node.insert(k, *p); spoil(p); d.v(name, Val::str(s)); break; }
        case 4: { struct A { char c[40]; }; auto* p = new A; memset(p, 0, sizeof *p); auto u = s.substr(0, std::min<size_t>(s.size(), 39)); while(!u.empty() && (to32(u).empty() || to32(u).back() == 0xFFFFFFFF)) u.pop_back(); memcpy(p->c, u.data(), u.size()); node.insert(k, p->c); memset(p, 'Z', sizeof *p); delete p; d.v(name, Val::str(u)); break; }
        case 5: { struct A { char16_t c[40]; }; auto* p = new A; memset(p, 0, sizeof *p); auto u = t.substr(0, 19); auto w = to16(u); memcpy(p->c, w.data(), w.size() * 2); node.insert(k, p->c); memset(p, 'Z', sizeof *p); delete p; d.v(name, Val::str(from32(u))); break; }
        case 6: { auto* p = new std::string(s); const char* c = p->c_str(); node.insert(k, c); spoil(p); d.v(name, Val::str(s)); break; }
        case 7: { auto* p = new std::string(s); node.insert(k, String(*p)); spoil(p); d.v(name, Val::str(s)); break; }
        case 8: { auto* p = new std::u16string(to16(t)); node.insert(k, String(*p)); spoil(p); d.v(name, Val::str(s)); break; }
        case 9: { auto* p = new std::string(s); node.insert(k, BitWrap((const uint8_t*)p->data(), p->size())); spoil(p); d.v(name, Val::bin(s)); break; }
        case 10: { auto* p = new std::vector<int>(); for(auto c : t) p->push_back(c * 77777); d.v(name, Val::bin(std::string((const char*)p->data(), p->size() * 4))); { VecWrap<int> w(*p); node.insert(k, w); } spoil(p); break; }
        case 11: { auto* p = new Bytes(std::vector<uint8_t>(s.begin(), s.end())); node.insert(k, *p); delete p; d.v(name, Val::bin(s)); break; }
        case 12: { auto* p = new std::string(s); node.insert(k, Value(Lib::MemBlock((const uint8_t*)p->data(), p->size()), Encoding::UTF8)); spoil(p); d.v(name, Val::str(s)); break; }
        case 13: { auto* p = new std::string(s); node.insert(k, Value(Lib::MemBlock((const uint8_t*)p->data(), p->size()), Type::Binary)); spoil(p); d.v(name, Val::bin(s)); break; }
        case 14: { auto* p = new std::vector<std::string> { s, "x", s + s }; node.insert(k, *p); Doc l(true); for(auto& e : *p) { l.v("", Val::str(e)); for(auto& c : e) c = 'Z'; } delete p; d.n(name, l); break; }
        case 15: { auto* p = new std::map<std::string, std::u16string>; (*p)[s] = to16(t); (*p)["q"] = u"w"; node.insert(k, *p); Doc l(true); for(auto& e : *p) { Doc o; o.v("key", Val::str(e.first)).v("value", Val::str(e.first == s && s != "q" ? s : e.first == s ? s : "w")); l.n("", o); for(auto& c : e.second) c = 'Z'; } delete p; d.n(name, l); break; }
        case 16: { auto* p = new Obj; fill(*p, t); d.n(name, model(*p)); node.insert(k, *p); p->spoil(); delete p; break; }
        case 17: { auto* p = new std::unique_ptr<Obj>(new Obj); fill(**p, t); d.n(name, model(**p)); node.insert(k, *p); (*p)->spoil(); delete p; break; }
        case 18: { auto p = std::make_shared<Obj>(); fill(*p, t); Doc o; o.v("srl_shared_key", Val::u64(0)).n("srl_shared_value", model(*p)); d.n(name, o); node.insert(k, p); p->spoil(); break; }
        case 19: { auto* p = new Lib::HTable<std::string, std::string>; p->insert(s, s + "v"); node.insert(k, *p); *p->get(s) = std::string(s.size() + 1, 'Z'); delete p; Doc o; o.v(s, Val::str(s + "v")); d.n(name, o); break; }
        case 20: { auto* p = new std::tuple<std::string, std::pair<std::string, int>>(s, { s, 3 }); node.insert(k, *p); spoil(new std::string(std::move(std::get<0>(*p)))); std::get<1>(*p).first.assign(s.size(), 'Z'); delete p; Doc l(true), o; o.v("first", Val::str(s)).v("second", Val::i32(3)); l.v("", Val::str(s)).n("", o); d.n(name, l); break; }
        case 21: { auto* u = new Tree; Doc o; o.v(name, Val::str(s)).v("b", Val::bin(s)); { Doc i(true); i.v("", Val::str(s)); o.n(name + "i", i); } build(u->root(), o); node.insert(k, u->root()); u->clear(); u->root().insert("other", std::string(s.size(), 'Z')); delete u; d.n(name, o); break; }
        case 22: { auto* u = new Tree; u->root().insert("a", s); node.insert(k, u->root().value("a")); u->clear(); u->root().insert("a", std::string(s.size(), 'Z')); delete u; d.v(name, Val::str(s)); break; }
        case 23: { node.insert("tmp", ScopeWrap([&](Node& m) { m.insert(k, s, "i", 5, "n", ScopeWrap([&](Node& q) { q.insert(k, s); }, Type::Array)); }));
                   Doc o, q(true); q.v(name, Val::str(s)); o.v(name, Val::str(s)).v("i", Val::i32(5)).n("n", q); node.insert(k, node.node("tmp")); node.remove_node("tmp"); d.n(name, o); break; }
        case 24: { node.insert("tmp", s); node.insert(k, node.value("tmp")); node.remove_value("tmp"); d.v(name, Val::str(s)); break; }
        case 25: { auto* p = new std::string(s); auto* q = new std::string("q" + s); node.insert(k, { String(*p), String(*q) }); spoil(p); spoil(q); Doc l(true); l.v("", Val::str(s)).v("", Val::str("q" + s)); d.n(name, l); break; }
        case 26: { auto* p = new std::string(s); node.insert(k, ScopeWrap([p, &k](Node& m) { m.insert(k, *p, *p, 1); })); spoil(p); Doc o; o.v(name, Val::str(s)).v(s, Val::i32(1)); d.n(name, o); break; }
        case 27: { auto* p = new double(n * 1.1); auto* q = new int64_t(-(int64_t)n * 1000003); node.insert(k, *p, "q", *q); d.v(name, Val::dbl(*p)).v("q", Val::i64(*q)); *p = 99; *q = 99; delete p; delete q; break; }
        case 28: { auto* m = new Node(tree); Doc o; o.v(name, Val::str(s)); { Doc i(true); i.v("", Val::str(s)); o.n(name, i); } m->insert(k, s); m->insert(k, { String(s) }); node.insert(k, *m); m->insert("later", 1); m->remove_value((size_t)0); delete m; d.n(name, o); break; }
        case 29: { auto* u = new Tree; u->root().insert("a", s, "b", ScopeWrap([&](Node& m) { m.insert(k, s); })); Union a = u->root()["a"], b = u->root()["b"]; node.insert(k, *a.value(), k, *b.node()); u->clear(); u->root().insert("Z", s + s); delete u; Doc o; o.v(name, Val::str(s)); d.v(name, Val::str(s)).n(name, o); break; }
    }
}

static std::vector<size_t> sizes(bool thorough)
{
    std::vector<size_t> r;
    for(size_t i = 0; i <= (thorough ? 40 : 18); i++) r.push_back(i);
    for(size_t i : { 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 5000 }) r.push_back(i);
    if(thorough) for(size_t i : { 65535, 65536, 70000 }) r.push_back(i);
    return r;
}

MC_SCENARIO("sources", "30 kinds of inserted data x sizes 0..18 (40) and boundaries x plain or wide characters x names in 3 encodings x 4 places; source and name overwritten and freed, then more is inserted")
{
    static auto ns = sizes(x.thorough);
    int sh = x.shard(Kinds * 4);
    int kind = sh / 4, place = sh % 4;
    size_t n = x.pick(ns);
    bool wide = x.flip(); int enc = x.choose(3);
    auto name32 = U"n" + text(x.choose(2) ? n % 300 : 4, wide);
    static const char* places[] { "root", "nested", "array", "detached" };
    auto what = std::string(kind_names[kind]) + " of " + std::to_string(n) + (wide ? " wide" : "") + " characters, " + places[place] + ", name encoding " + std::to_string(enc);
    x.note("%s", what.c_str());
    Tree t(place == 2 ? Type::Array : Type::Object);
    Doc d(place == 2);
    if(place == 0 || place == 2) insert_source(t.root(), t, d, kind, n, wide, name32, enc);
    else if(place == 1) {
        Doc a, b;
        t.root().insert("a", ScopeWrap([&](Node& m) { m.insert("b", ScopeWrap([&](Node& q) { insert_source(q, t, b, kind, n, wide, name32, enc); })); }));
        a.n("b", b); d.n("a", a);
    } else {
        Doc b;
        { Node m(t); insert_source(m, t, b, kind, n, wide, name32, enc); t.root().insert("m", m); }
        d.n("m", b);
    }
    /* memory which was freed is likely to be used by these */
    std::vector<std::unique_ptr<std::string>> fill_;
    for(int i = 0; i < 4; i++) fill_.emplace_back(new std::string(from32(text(n, wide)).size() + i, '#'));
    verify(x, t, d, what);
    t.root().insert("more", std::string(n, '+')); d.v("more", Val::str(std::string(n, '+')));
    verify(x, t, d, what + ", more inserted", false);
    Tree u(std::move(t));
    verify(x, u, d, what + ", tree moved", false);
    u.root().insert("even", 1); d.v("even", Val::i32(1));
    verify(x, u, d, what + ", tree moved, more inserted", kind % 4 == 0);
    x.state(mc::mix(hash(d), kind));
}

/* documents ***************************************************************************************/
static std::vector<Doc> documents(bool thorough)
{
    std::vector<Doc> r;
    for(auto n : sizes(thorough)) for(int wide = 0; wide < 2; wide++) {
        auto s = from32(text(n, wide)), k = "k" + from32(text(n % 200, wide));
        Doc d, l(true), o;
        l.v("", Val::str(s)).v("", Val::i64(-5)).v("", Val::str("e"));
        o.v(k, Val::str(s)).v("d", Val::dbl(0.1)).v("z", Val::null());
        l.n("", o);
        d.v(k, Val::str(s)).v("i", Val::u64(70000)).v("t", Val::boolean(true)).v("b", Val::bin(s)).n(k, l).n("o", o);
        r.push_back(d);
    }
    return r;
}

MC_SCENARIO("loaded documents", "documents of texts and names of 0..18 (40) and boundary lengths x 4 formats x 5 ways to load x buffer, stream and parser overwritten, freed, used for something else; the input is not modified")
{
    static auto ds = documents(x.thorough);
    auto d = ds[x.shard(ds.size())];
    int f = x.choose(NumFmt), way = x.choose(5), after = x.choose(4);
    Buf b; { Tree s; build(s.root(), d); b = write(s, f); }
    auto expect = load_doc(f, b);
    { auto r = diff(d, expect, is_text(f)); if(!r.empty()) x.fail("document is read differently", r); }
    auto what = std::string(fmt_name(f)) + ", way " + std::to_string(way) + ", after " + std::to_string(after);
    x.note("%s %s", what.c_str(), mc::show(b).c_str());
    Tree t;
    std::unique_ptr<Parser> p(new_parser(f));
    std::unique_ptr<Exact> mem(new Exact(b));
    std::unique_ptr<std::string> str(new std::string(b.begin(), b.end()));
    std::unique_ptr<Buf> vec(new Buf(b));
    std::unique_ptr<ChunkStream> cs(new ChunkStream(*vec, { 3, 1, 100 }));
    std::unique_ptr<std::istringstream> ss(new std::istringstream(*str));
    switch(way) {
        case 0: t.load_source(mem->p, mem->n, *p); break;
        case 1: t.load_source(*vec, *p); break;
        case 2: t.load_source((const char*)mem->p, mem->n, *p); break;
        case 3: t.load_source(*cs, *p); break;
        case 4: t.load_source(*ss, *p); break;
    }
    if(memcmp(mem->p, b.data(), b.size()) || *vec != b || *str != std::string(b.begin(), b.end())) x.fail("input modified by reading", what);
    cs.reset(); ss.reset();
    memset(mem->p, 'Z', mem->n); mem.reset();
    for(auto& c : *vec) c = 'Z'; vec.reset();
    for(auto& c : *str) c = 'Z'; str.reset();
    auto v = extract(t.root());
    Tree other;
    if(after == 1) p.reset();
    if(after == 2) { Doc q; q.v("unrelated name", Val::str(std::string(b.size(), 'u'))).v("k", Val::i32(1)); Tree s; build(s.root(), q); auto c = write(s, f); other.load_source(c, *p); verify(x, other, load_doc(f, c), what + ", other tree", false); }
    if(after == 3) { Tree s; s.root().insert("something", std::string(b.size(), 'u')); (void)s.to_source(*p); p.reset(); }
    verify(x, t, expect, what);
    x.state(mc::mix(hash(expect), f));
    auto copy = std::make_unique<Tree>(std::move(t));
    verify(x, *copy, expect, what + ", moved", false);
    t.root().insert("a", std::string(500, 'a'));    /* the moved-from tree is a new one */
    { Doc n; n.v("a", Val::str(std::string(500, 'a'))); verify(x, t, n, what + ", source of a move", false); }
    verify(x, *copy, expect, what + ", moved", false);
}

/* objects and values restored from a document own what they hold */
MC_SCENARIO("restored objects", "objects of texts of 0..18 (40) and boundary lengths x 4 formats x 8 ways to restore; afterwards buffer, stream, parser and tree are overwritten and destroyed")
{
    static auto ns = sizes(x.thorough);
    size_t n = ns[x.shard(ns.size())];
    int f = x.choose(NumFmt), way = x.choose(8); bool wide = x.flip();
    auto t32 = text(n, wide);
    Obj o; fill(o, t32);
    auto b = with(f, [&](auto& p) { return Tree().store(o, p); });
    Buf bin(n); for(size_t i = 0; i < n; i++) bin[i] = i * 7;
    std::unique_ptr<Tree> t(new Tree);
    std::unique_ptr<Parser> p(new_parser(f));
    std::unique_ptr<Exact> mem(new Exact(b));
    std::unique_ptr<Buf> vec(new Buf(b));
    std::unique_ptr<ChunkStream> cs(new ChunkStream(*vec, { 1, 7, 50 }));
    Obj r;
    Obj* raw = nullptr; std::vector<std::string> list; std::string s; char arr[5010 * 4 + 1]; memset(arr, 1, sizeof arr);
    std::optional<Union> u;
    bool whole = true;
    switch(way) {
        case 0: t->restore(r, mem->src(), *p); break;
        case 1: t->restore(r, *cs, *p); break;
        case 2: r = t->restore<Obj>(*vec, *p); break;
        case 3: t->load_source(*cs, *p); r = t->root().unwrap<Obj>(); break;
        case 4: t->load_source(*vec, *p); t->root().paste(r); break;
        case 5: whole = false; t->unpack(*cs, *p, "v", list, "s", s); break;
        case 6: whole = false; t->load_source(mem->src(), *p); list = t->root()["v"].unwrap<std::vector<std::string>>(); s = t->root()["s"].unwrap<std::string>(); break;
        case 7: whole = false; t->load_source(mem->src(), *p); list = t->root().unwrap_field<std::vector<std::string>>("v"); if(n <= 5000) { t->root().value("s").paste(arr); s = arr; } else s = o.s; break;
    }
    if(memcmp(mem->p, b.data(), b.size()) || *vec != b) x.fail("input modified by reading");
    memset(mem->p, 'Z', mem->n); mem.reset(); cs.reset(); for(auto& c : *vec) c = 'Z'; vec.reset(); p.reset();
    t->clear(); t->root().insert("x", std::string(b.size(), 'Z')); t.reset();
    x.step();
    if(whole) { if(r.s != o.s || r.v != o.v || r.in.s != o.in.s || r.in.i != o.in.i || !r.p || *r.p != *o.p || r.m != o.m || r.w != o.w) x.fail("restored object changed", std::string(fmt_name(f)) + " way " + std::to_string(way) + " size " + std::to_string(n)); }
    else if(list != o.v || s != o.s) x.fail("restored values changed", std::string(fmt_name(f)) + " way " + std::to_string(way) + " size " + std::to_string(n));
    (void)raw; (void)bin;
    x.state(mc::hash(b));
}

/* histories of two trees **************************************************************************/
static const std::string big = "a text which does not fit into the place of a value";

/* what is left of a document which is written: items of arrays have no names */
static Doc unnamed(Doc d)
{
    for(auto& v : d.values) if(d.array) v.first.clear();
    for(auto& n : d.nodes) { if(d.array) n.first.clear(); n.second = unnamed(n.second); }
    return d;
}

struct Pair {
    mc::X& x;
    std::unique_ptr<Tree> t[2]; Doc d[2];
    std::string log;
    std::vector<std::pair<Node*, Doc>> held;     /* scopes of tree 0 the caller keeps a reference to, with contents */
    Pair(mc::X& x_) : x(x_) { for(auto& e : t) e.reset(new Tree); }

    static bool small(const Doc& d, size_t n = 40) { size_t c = 0; count(d, c); return c <= n; }
    static void count(const Doc& d, size_t& c) { c += d.values.size() + d.nodes.size(); for(auto& n : d.nodes) count(n.second, c); }

    static void pointers(Node& n, std::vector<void*>& v)
    {
        v.push_back(&n);
        n.foreach_value([&](Value& e) { v.push_back(&e); });
        n.foreach_node([&](Node& e) { pointers(e, v); });
    }

    enum { Ops = 24 };
    /* keep: the items there before stay where they are */
    bool op(int o, bool& keep)
    {
        auto& r = t[0]->root(); auto& m = d[0];
        auto say = [&](const char* s) { log += std::string(s) + "\n"; x.note("%s", s); };
        keep = true;
        switch(o) {
            case 0: say("insert text"); r.insert("a", big); m.v("a", Val::str(big)); break;
            case 1: say("insert short text under a long name"); r.insert(big, "sh"); m.v(big, Val::str("sh")); break;
            case 2: { say("insert scope"); r.insert("s", ScopeWrap([](Node& n) { n.insert("t", big, "i", 1); })); Doc s; s.v("t", Val::str(big)).v("i", Val::i32(1)); m.n("s", s); break; }
            case 3: { if(!small(d[1])) return false; say("insert other root"); r.insert("o", t[1]->root()); m.n("o", d[1]); break; }
            case 4: { if(d[1].nodes.empty() || !small(d[1].nodes[0].second)) return false; say("insert other scope into own last scope or root"); auto& src = t[1]->root().node((size_t)0); if(m.nodes.empty()) { r.insert("p", src); m.n("p", d[1].nodes[0].second); } else { auto i = m.nodes.size() - 1; r.node(i).insert("p", src); m.nodes[i].second.n("p", d[1].nodes[0].second); } break; }
            case 5: { if(d[1].values.empty()) return false; say("insert other value"); r.insert("v", t[1]->root().value((size_t)0)); m.v("v", d[1].values[0].second); break; }
            case 6: { if(!small(m, 12)) return false; say("insert own root"); auto c = m; r.insert("self", r); m.n("self", c); break; }
            case 7: say("clear"); t[0]->clear(); d[0] = Doc(m.array); keep = false; break;
            case 8: { say("load other, written"); auto b = write(*t[1], SrlF); load(*t[0], SrlF, b); d[0] = unnamed(d[1]); keep = false; break; }
            case 9: say("destroy other"); t[1].reset(new Tree); d[1] = Doc(); break;
            case 10: say("move other over this"); *t[0] = std::move(*t[1]); d[0] = d[1]; d[1] = Doc(); keep = false; break;
            case 11: { say("move construct, old one destroyed"); std::unique_ptr<Tree> n(new Tree(std::move(*t[0]))); t[0] = std::move(n); break; }
            case 12: { if(m.values.empty()) return false; say("remove first value"); m.values.erase(m.values.begin()); r.remove_value((size_t)0); keep = false; break; }
            case 13: { if(m.nodes.empty()) return false; say("remove first scope"); m.nodes.erase(m.nodes.begin()); r.remove_node((size_t)0); keep = false; break; }
            case 14: { say("insert detached scope"); Node n(*t[0]); n.insert("k", big, "n", ScopeWrap([](Node& q) { q.insert("z", "z"); })); r.insert("det", n); n.remove_node((size_t)0); Doc s, z; z.v("z", Val::str("z")); s.v("k", Val::str(big)).n("n", z); m.n("det", s); break; }
            case 15: say("swap trees"); std::swap(t[0], t[1]); std::swap(d[0], d[1]); keep = false; break;
            case 16: { say("load object"); Obj o; fill(o, U"text long enough to be kept apart"); t[0]->load_object(o); d[0] = model(o); o.spoil(); keep = false; break; }
            case 17: { say("write"); for(int f = 0; f < NumFmt; f++) { auto r = diff(d[0], load_doc(f, write(*t[0], f)), is_text(f)); if(!r.empty()) x.fail("written tree differs", r + "\n" + log); } break; }
            case 18: { say("store object"); Inner o; o.s = big; auto b = t[0]->store<PJson>(o); if(std::string(b.begin(), b.end()).find(big) == std::string::npos) x.fail("stored object"); break; }
            case 19: { say("pack"); Buf b; t[0]->pack(b, PMsgPack(), "x", big); d[0] = Doc(); keep = false; if(t[0]->root().type() == Type::Array) d[0].array = true; break; }
            case 20: { if(m.values.empty()) return false; say("insert own value"); r.insert("own", r.value((size_t)0)); auto v = m.values[0].second; m.v("own", v); break; }
            case 21: { if(m.nodes.empty() || !small(m.nodes[0].second, 12)) return false; say("insert own scope"); auto c = m.nodes[0].second; r.insert("own", r.node((size_t)0)); m.n("own", c); break; }
            case 22: { if(!small(m)) return false; say("other takes root"); t[1]->root().insert("from", r); d[1].n("from", m); break; }
            case 23: { say("other gets text, other written"); t[1]->root().insert("a", big + big); d[1].v("a", Val::str(big + big)); write(*t[1], Msg); break; }
        }
        return true;
    }
    void verify(const char* when)
    {
        for(int i = 0; i < 2; i++) {
            auto r = diff_names(d[i], t[i]->root());
            x.step();
            if(!r.empty()) x.fail("tree differs from its history", std::string(when) + (i ? ", other tree: " : ": ") + r + "\n" + log);
        }
        x.state(mc::mix(hash(d[0]), hash(d[1])));
    }
};

MC_SCENARIO("histories of two trees", "all histories of 4 (thorough 5) of 24 kinds of operations on two trees: insertion, copies between and within them, removal, load, clear, move, destruction, swap, write, store, pack; references to items which are not removed stay valid")
{
    int first = x.shard(Pair::Ops * Pair::Ops);
    Pair p(x);
    /* the other tree has something to give */
    { auto& r = p.t[1]->root(); r.insert("x", big, "y", 5, "sub", ScopeWrap([](Node& n) { n.insert("q", big, big, 1.5); n.insert("l", { 1, 2 }); })); Doc s, l(true); l.v("", Val::i32(1)).v("", Val::i32(2)); s.v("q", Val::str(big)).v(big, Val::dbl(1.5)).n("l", l); p.d[1].v("x", Val::str(big)).v("y", Val::i32(5)).n("sub", s); }
    int depth = x.thorough ? 5 : 4;
    for(int i = 0; i < depth; i++) {
        std::vector<void*> before, after;
        Pair::pointers(p.t[0]->root(), before);
        bool keep;
        if(!p.op(i == 0 ? first % Pair::Ops : i == 1 ? first / Pair::Ops : x.choose(Pair::Ops), keep)) x.skip();
        p.verify("after operation");
        if(keep) {
            Pair::pointers(p.t[0]->root(), after);
            size_t k = 0;
            for(auto* q : after) if(k < before.size() && q == before[k]) k++;
            if(k < before.size()) x.fail("reference to an item of the tree is no longer valid", p.log);
        }
    }
    p.t[1].reset(new Tree); p.d[1] = Doc();
    p.verify("at the end, other tree destroyed");
    for(int f = 0; f < NumFmt; f++) { auto r = diff(p.d[0], load_doc(f, write(*p.t[0], f)), is_text(f)); if(!r.empty()) x.fail("written tree differs at the end", r + "\n" + p.log); }
}

int main(int argc, char** argv) { return mc::main("P26", argc, argv); }
