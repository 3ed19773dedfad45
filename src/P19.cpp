#include "stream.h"
#include "gen.h"
#include "objs.h"
#include "dyn.h"

using namespace doc;
using namespace Srl;
using objs::new_parser;

struct UserError { };

struct Part { int v = 0; std::string s; void srl_resolve(Context& c) { c("v", v)("s", s); } };
/* shared and weak references */
struct Graph {
    std::shared_ptr<Part> a, b; std::weak_ptr<Part> w; std::vector<std::shared_ptr<Part>> l; std::unique_ptr<Part> u;
    void srl_resolve(Context& c) { c("a", a)("b", b)("w", w)("l", l)("u", u); }
    static Graph make() { Graph g; g.a = std::make_shared<Part>(); g.a->v = 5; g.a->s = std::string(40, 'g'); g.b = std::make_shared<Part>(); g.b->v = 6; g.w = g.b; g.l = { g.b, g.a, nullptr, g.b }; g.u.reset(new Part); return g; }
    std::string show() const
    {
        auto p = [&](const std::shared_ptr<Part>& p) { return !p ? std::string("-") : std::to_string(p->v) + p->s + (p == a ? "A" : "") + (p == b ? "B" : ""); };
        std::string r = p(a) + "," + p(b) + "," + p(w.lock());
        for(auto& x : l) r += "," + p(x);
        return r + (u ? "," + std::to_string(u->v) : ",null");
    }
};
struct Base { virtual ~Base() { } virtual const TypeID& srl_type_id() = 0; virtual void srl_resolve(Context& c) = 0; };
struct Derived : Base { int d = 4; const TypeID& srl_type_id() override;  void srl_resolve(Context& c) override { c("d", d); } };
static const auto& derived_id = Srl::register_type<Derived>("P19Derived");
const TypeID& Derived::srl_type_id() { return derived_id; }

/* fails while being stored or restored, at a depth and after some fields */
struct Bomb {
    int depth, after; int a = 1; std::string s = "text"; std::vector<int> v { 1, 2, 3 };
    std::shared_ptr<Part> sp = std::make_shared<Part>();
    static bool armed;
    Bomb(int d = 0, int n = 0) : depth(d), after(n) { }
    void srl_resolve(Context& c)
    {
        if(after > 0) c("a", a)("v", v);
        if(depth == 0) { if(armed) throw UserError(); c("s", s); return; }
        if(after > 1) c("sp", sp);
        Bomb b(depth - 1, after);
        c("in", b);
        if(after > 2) c("s", s);
    }
};
bool Bomb::armed = false;

struct Obj {
    int i = 1; std::string s = "text", big = std::string(300, 'b'); std::vector<std::string> v { "a", "b" }; std::map<std::string, int> m { { "x", 1 }, { "y", 2 } }; Part p;
    void srl_resolve(Context& c) { c("i", i)("s", s)("big", big)("v", v)("m", m)("p", p); }
    std::string show() const { std::string r = std::to_string(i) + s + big + std::to_string(p.v) + p.s; for(auto& e : v) r += "," + e; for(auto& e : m) r += e.first + std::to_string(e.second); return r; }
};

/* throws when it is asked for more than a number of bytes, or signals an error */
struct BadBuf : std::streambuf {
    std::string data; bool done = false; bool thr;
    BadBuf(std::string d, bool t) : data(d), thr(t) { }
    int_type underflow() override { if(done) { if(thr) throw UserError(); return traits_type::eof(); } done = true; setg(&data[0], &data[0], &data[0] + data.size()); return traits_type::to_int_type(data[0]); }
    size_t room = 0;
    int_type overflow(int_type) override { if(thr) throw UserError(); return traits_type::eof(); }
    std::streamsize xsputn(const char*, std::streamsize n) override { if(room >= (size_t)n) { room -= n; return n; } if(thr) throw UserError(); return 0; }
    pos_type seekoff(off_type, std::ios_base::seekdir, std::ios_base::openmode) override { return 0; }
    pos_type seekpos(pos_type p, std::ios_base::openmode) override { return p; }
};

/* documents to read, by format */
struct Sources { Buf obj, arr, graph, deep, names, bomb, poly, scalar; Doc obj_d, arr_d; };
static const Sources& sources(int f)
{
    static Sources s[NumFmt];
    auto& r = s[f];
    if(r.obj.empty()) {
        std::unique_ptr<Parser> p(new_parser(f));
        r.obj = Tree().store(Obj(), *p);
        r.obj_d = load_doc(f, r.obj);
        { Tree t(Type::Array); for(int i = 0; i < 40; i++) t.root().insert(i * 1000); t.root().insert("e", ScopeWrap([](Node& n) { n.insert("v", 3, "s", std::string(1500, 'x'), "other", true); })); r.arr = t.to_source(*p); r.arr_d = extract(t.root()); r.arr_d.nodes[0].first = ""; }
        r.graph = Tree().store(Graph::make(), *p);
        { Tree t; std::function<void(Node&, int)> in = [&](Node& n, int k) { n.insert("v", k); if(k) n.insert("d", ScopeWrap([&](Node& m) { in(m, k - 1); }, k % 2 ? Type::Array : Type::Object)); }; in(t.root(), 100); r.deep = t.to_source(*p); }
        { Tree t; for(int i = 0; i < 200; i++) t.root().insert("name" + std::to_string(i), i); t.root().insert("v", 9, "s", "late"); r.names = t.to_source(*p); }
        Bomb::armed = false;
        r.bomb = Tree().store(Bomb(2, 3), *p);
        { std::unique_ptr<Base> b(new Derived); Tree t; std::ostringstream os; t.pack(os, *p, "b", b); auto k = os.str(); r.poly = Buf(k.begin(), k.end()); }
        r.scalar = Tree().store(77, *p);
    }
    return r;
}

struct Res { std::string out; bool known = false, keep = false; Doc content; bool ok = true; };

template<class F> static Res attempt(F fn)
{
    Res r;
    try { fn(r); }
    catch(Exception& e) { r.out = std::string("refused: ") + e.what(); r.ok = false; }
    catch(UserError&) { r.out = "user"; r.ok = false; }
    catch(std::exception& e) { throw mc::Violation { "another exception than the library's", e.what() }; }
    return r;
}
static std::string str(const Buf& b) { return std::string(b.begin(), b.end()); }

/* operations which do not depend on what the tree holds; all but the last group define its content */
typedef std::function<void(Res&, Tree&, Parser&, int)> Fn;
struct Op { const char* name; bool ok; Fn fn; };
static const std::vector<Op>& ops()
{
    static const std::vector<Op> r {
        { "load object", true, [](Res& r, Tree& t, Parser& p, int f) { auto& s = sources(f); t.load_source(s.obj.data(), s.obj.size(), p); r.known = true; r.content = s.obj_d; } },
        { "load list from stream", true, [](Res& r, Tree& t, Parser& p, int f) { auto& s = sources(f); ChunkStream is(s.arr, { 1, 7, 600 }); t.load_source(is, p); r.known = true; r.content = s.arr_d; } },
        { "load truncated", false, [](Res&, Tree& t, Parser& p, int f) { auto& s = sources(f); t.load_source(s.arr.data(), s.arr.size() - 9, p); } },
        { "load truncated in the middle of depth", false, [](Res&, Tree& t, Parser& p, int f) { auto& s = sources(f); t.load_source(s.deep.data(), s.deep.size() / 2, p); } },
        { "load truncated stream", false, [](Res&, Tree& t, Parser& p, int f) { auto& s = sources(f); Buf b(s.names.begin(), s.names.end() - 5); ChunkStream is(b, { 100 }); t.load_source(is, p); } },
        { "load stream which throws", false, [](Res&, Tree& t, Parser& p, int f) { auto s = str(sources(f).names); BadBuf b(s.substr(0, s.size() / 2), true); std::istream is(&b); is.exceptions(std::ios::badbit); t.load_source(is, p); } },
        { "load garbage", false, [](Res&, Tree& t, Parser& p, int) { Buf b { 0x85, 0xA1, 'a', 0xC1, 0xFF, 0xFF, 0xFF }; t.load_source(b.data(), b.size(), p); } },
        { "load nothing", false, [](Res&, Tree& t, Parser& p, int) { t.load_source("", 0, p); } },
        { "store object", true, [](Res& r, Tree& t, Parser& p, int) { Obj o; r.out = str(t.store(o, p)); r.keep = true; } },
        { "store shared objects to stream", true, [](Res& r, Tree& t, Parser& p, int) { auto g = Graph::make(); std::ostringstream os; t.store(g, os, p); r.out = os.str(); r.keep = true; } },
        { "store scalar", true, [](Res& r, Tree& t, Parser& p, int) { r.out = str(t.store(std::string(100, 'z'), p)); r.keep = true; } },
        { "store list", true, [](Res& r, Tree& t, Parser& p, int) { r.out = str(t.store(std::vector<int> { 1, 2, 3 }, p)); r.keep = true; } },
        { "store fails at once", false, [](Res&, Tree& t, Parser& p, int) { Bomb::armed = true; t.store(Bomb(0, 0), p); } },
        { "store fails in depth", false, [](Res&, Tree& t, Parser& p, int) { Bomb::armed = true; std::ostringstream os; t.store(Bomb(3, 2), os, p); } },
        { "store of null pointer refused", false, [](Res&, Tree& t, Parser& p, int) { std::unique_ptr<Base> b; std::vector<int> v { 1 }; std::ostringstream os; t.pack(os, p, "v", v, "b", b); } },
        { "store to a stream which throws", false, [](Res&, Tree& t, Parser& p, int) { BadBuf b("", true); std::ostream os(&b); os.exceptions(std::ios::badbit); Obj o; o.big = std::string(5000, 'o'); t.store(o, os, p); } },
        { "store to a stream which fails", true, [](Res& r, Tree& t, Parser& p, int) { BadBuf b("", false); std::ostream os(&b); Obj o; o.big = std::string(5000, 'o'); try { t.store(o, os, p); } catch(Exception&) { } r.out = os.good() ? "good" : "bad"; } },
        { "restore object", true, [](Res& r, Tree& t, Parser& p, int f) { auto& s = sources(f); Obj o; o.i = 0; o.s = o.big = ""; o.v.clear(); o.m.clear(); t.restore(o, s.obj.data(), s.obj.size(), p); r.out = o.show(); } },
        { "restore shared objects from stream", true, [](Res& r, Tree& t, Parser& p, int f) { Graph g; ChunkStream is(sources(f).graph, { 3 }); t.restore(g, is, p); r.out = g.show(); } },
        { "restore part of a document", true, [](Res& r, Tree& t, Parser& p, int f) { auto& s = sources(f); Part o; t.restore(o, s.names.data(), s.names.size(), p); r.out = std::to_string(o.v) + o.s; } },
        { "restore with missing field", false, [](Res&, Tree& t, Parser& p, int f) { auto& s = sources(f); Part o; t.restore(o, s.obj.data(), s.obj.size(), p); } },
        { "restore with wrong type", false, [](Res&, Tree& t, Parser& p, int f) { auto& s = sources(f); struct W { std::vector<Part> v; void srl_resolve(Context& c) { c("m", v); } } o; t.restore(o, s.obj.data(), s.obj.size(), p); } },
        { "restore fails in user code", false, [](Res&, Tree& t, Parser& p, int f) { auto& s = sources(f); Bomb::armed = true; Bomb b(2, 3); t.restore(b, s.bomb.data(), s.bomb.size(), p); } },
        { "restore truncated stream", false, [](Res&, Tree& t, Parser& p, int f) { auto& g = sources(f).graph; Buf b(g.begin(), g.begin() + g.size() * 2 / 3); ChunkStream is(b, { 50 }); Graph o; t.restore(o, is, p); } },
        { "restore scalar", true, [](Res& r, Tree& t, Parser& p, int f) { auto& s = sources(f); int i = 0; t.restore(i, s.scalar.data(), s.scalar.size(), p); r.out = std::to_string(i); } },
        { "restore polymorphic", true, [](Res& r, Tree& t, Parser& p, int f) { auto& s = sources(f); struct H { std::unique_ptr<Base> b; void srl_resolve(Context& c) { c("b", b); } } o; t.restore(o, s.poly.data(), s.poly.size(), p); r.out = std::to_string(dynamic_cast<Derived&>(*o.b).d); } },
        { "pack", true, [](Res& r, Tree& t, Parser& p, int) { std::ostringstream os; auto sp = std::make_shared<Part>(); t.pack(os, p, "a", 1, "s", std::string(30, 's'), "p", sp, "q", sp, "w", ScopeWrap([](Node& n) { n.insert("in", 2); })); r.out = os.str(); } },
        { "pack fails", false, [](Res&, Tree& t, Parser& p, int) { std::ostringstream os; Bomb::armed = true; t.pack(os, p, "a", 1, "b", Bomb(1, 2), "c", 2); } },
        { "unpack", true, [](Res& r, Tree& t, Parser& p, int f) { std::string s; int i = 0; Part q; t.unpack(sources(f).obj, p, "p", q, "s", s, "i", i); r.out = std::to_string(i) + s + std::to_string(q.v); } },
        { "unpack generic item", true, [](Res& r, Tree& t, Parser& p, int f) { Union u; t.unpack(sources(f).obj, p, "v", u); r.out = u.unwrap<std::vector<std::string>>().at(1); } },
        { "unpack fails", false, [](Res&, Tree& t, Parser& p, int f) { int i = 0, k = 0; t.unpack(sources(f).obj, p, "i", i, "absent", k); } },
        { "load_object with shared objects", true, [](Res& r, Tree& t, Parser&, int) { auto g = Graph::make(); t.load_object(g); Tree u; u.load_object(g); r.known = true; r.content = extract(u.root()); } },
        { "load_object fails", false, [](Res&, Tree& t, Parser&, int) { Bomb::armed = true; t.load_object(Bomb(2, 3)); } },
        { "load_object of a list", true, [](Res& r, Tree& t, Parser&, int) { t.load_object(std::vector<int> { 4, 5 }); r.known = true; r.content = Doc(true).v("", Val::i32(4)).v("", Val::i32(5)); } },
        { "moved to and fro", true, [](Res& r, Tree& t, Parser&, int) { Tree u(std::move(t)); if(t.root().num_values() || t.root().num_nodes()) throw mc::Violation { "tree which was moved from is not empty", "" }; t.root().insert("x", 1); t = std::move(u); r.keep = true; } },
        { "replaced by another tree", true, [](Res& r, Tree& t, Parser&, int) { Tree u(Type::Array); u.root().insert(std::vector<int> { 1 }); u.root().insert("n", 2); t = std::move(u); r.known = true; r.content = Doc(true).v("n", Val::i32(2)).n("", Doc(true).v("", Val::i32(1))); } },
        { "parser used with another tree", true, [](Res& r, Tree&, Parser& p, int f) { Tree u; Part o; u.restore(o, sources(f).names, p); Tree v; try { v.load_source(sources(f).deep.data(), sources(f).deep.size() - 20, p); } catch(Exception&) { } r.out = std::to_string(o.v) + str(u.store(Obj(), p)); r.keep = true; } },
        { "tree used with another parser", false, [](Res&, Tree& t, Parser&, int f) { std::unique_ptr<Parser> q(new_parser((f + 2) % NumFmt)); auto& s = sources((f + 2) % NumFmt); Part o; t.restore(o, s.names.data(), s.names.size() * 2 / 3, *q); } },
    };
    return r;
}
/* operations on the content */
static const char* const use_names[] { "write to memory", "write to stream", "insert and remove", "clear, insert", "insert shared objects" };
static const int NumUses = 5;

/* outcome on a fresh tree and parser */
static const Res& fresh(int op, int f)
{
    static std::vector<Res> r[NumFmt]; static std::vector<char> have[NumFmt];
    if(r[f].empty()) { r[f].resize(ops().size()); have[f].resize(ops().size()); }
    if(!have[f][op]) {
        Tree t; std::unique_ptr<Parser> p(new_parser(f));
        Bomb::armed = false;
        r[f][op] = attempt([&](Res& x) { ops()[op].fn(x, t, *p, f); });
        Bomb::armed = false;
        have[f][op] = 1;
    }
    return r[f][op];
}

struct Used {
    mc::X& x;
    Tree t; std::unique_ptr<Parser> p[NumFmt];
    bool known = true; Doc content;
    std::string log;
    Used(mc::X& x_) : x(x_) { for(int f = 0; f < NumFmt; f++) p[f].reset(new_parser(f)); }

    void look(const char* when)
    {
        x.step();
        Doc d = extract(t.root());
        if(known) { auto e = diff(content, d, false); if(!e.empty()) x.fail("content of a used tree", std::string(when) + ": " + e + "\n" + log); }
        x.state(mc::mix(hash(d), known));
    }
    void run(int op, int f)
    {
        auto& o = ops()[op];
        log += std::string(o.name) + " (" + fmt_name(f) + ")\n";
        x.note("%s (%s)", o.name, fmt_name(f));
        auto& e = fresh(op, f);
        if(e.ok != o.ok) x.fail(e.ok ? "operation which has to fail succeeds" : "operation which has to succeed fails", log + e.out);
        auto r = attempt([&](Res& q) { o.fn(q, t, *p[f], f); });
        Bomb::armed = false;
        x.step();
        if(r.ok != e.ok) x.fail(r.ok ? "operation succeeds on used objects only" : "operation fails on used objects", log + r.out);
        if(r.out != e.out) x.fail("result differs on used objects", log + "fresh: " + mc::show(e.out, 300) + "\nused: " + mc::show(r.out, 300));
        if(r.known) { known = true; content = r.content; }
        else if(!r.keep) known = false;
        look("after");
    }
    void use(int u, int f)
    {
        log += std::string(use_names[u]) + " (" + fmt_name(f) + ")\n";
        x.note("%s (%s)", use_names[u], fmt_name(f));
        x.step();
        auto written = [&](const Buf& b) {
            /* what is unspecified must still be what the tree shows */
            auto d = diff(known ? content : extract(t.root()), load_doc(f, b), is_text(f));
            if(!d.empty()) x.fail("used tree writes another document", d + "\n" + mc::show(b) + "\n" + log);
        };
        switch(u) {
            case 0: written(t.to_source(*p[f])); break;
            case 1: { std::ostringstream os; t.to_source(os, *p[f]); auto s = os.str(); written(Buf(s.begin(), s.end())); break; }
            case 2: { auto d = extract(t.root()); t.root().insert("ins", 5, "more", std::vector<int> { 1, 2 }); d.v("ins", Val::i32(5)).n("more", Doc(true).v("", Val::i32(1)).v("", Val::i32(2)));
                auto e = diff(d, extract(t.root()), false); if(!e.empty()) x.fail("insertion into a used tree", e + "\n" + log);
                t.root().remove_value(d.values.size() - 1); t.root().remove_node(d.nodes.size() - 1); break; }
            case 3: { bool arr = t.root().type() == Type::Array; t.clear(); if(known && content.array != arr) x.fail("kind of root", log); known = true; content = Doc(arr).v("a", Val::str(std::string(99, 'c'))).n("b", Doc().v("c", Val::i32(1)));
                t.root().insert("a", std::string(99, 'c'), "b", ScopeWrap([](Node& n) { n.insert("c", 1); })); break; }
            case 4: {   /* two references to one object, and the object again in the document */
                t.load_object(Part()); t.clear(); auto sp = std::make_shared<Part>(); sp->v = 3; std::vector<std::shared_ptr<Part>> v { sp, sp };
                t.root().insert("v", v); auto b = t.to_source(*p[f]);
                struct H { std::vector<std::shared_ptr<Part>> v; void srl_resolve(Context& c) { c("v", v); } } h; Tree().restore(h, b, *p[f]);
                if(h.v.size() != 2 || h.v[0] != h.v[1] || !h.v[0] || h.v[0]->v != 3) x.fail("shared objects in a used tree", log);
                known = false; break; }
        }
        look("after");
    }
    int count() const { return (int)ops().size() + NumUses; }
    void any(int i, int f) { if(i < (int)ops().size()) run(i, f); else use(i - (int)ops().size(), f); }
};
static const int NumAll = 43;

MC_SCENARIO("one parser", "all histories of 2 and 3 (thorough 4) of 38 operations of which 16 fail, and 5 uses, on one tree and one parser of each format; every outcome compared with that on fresh ones")
{
    int s = x.shard(4 * NumAll);
    Used u(x);
    if(u.count() != NumAll) x.fail("harness", std::to_string(u.count()));
    int f = s % 4;
    u.any(s / 4, f);
    for(int i = 1; i < (x.thorough ? 4 : 3); i++) u.any(x.choose(NumAll), f);
}

MC_SCENARIO("four parsers", "all histories of 2 (thorough 3) operations, each with any of four parsers, on one tree, then the first operation again")
{
    int s = x.shard(4 * NumAll);
    Used u(x);
    u.any(s / 4, s % 4);
    for(int i = 1; i < (x.thorough ? 3 : 2); i++) { int f = x.choose(4); u.any(x.choose(NumAll), f); }
    u.any(s / 4, s % 4);
}

MC_SCENARIO("repeated operations", "each operation repeated up to 40 times, alternating with each other: no growth, same result")
{
    int s = x.shard(4 * NumAll);
    Used u(x);
    int other = x.choose(NumAll);
    for(int i = 0; i < (x.thorough ? 40 : 6); i++) { u.any(s / 4, s % 4); u.any(other, s % 4); }
}

/* writing twice gives the same bytes, spaced or compact */
MC_SCENARIO("JSON layout changed in between", "all sequences of 4 operations with set_compact(true/false) chosen before each")
{
    int s = x.shard(2 * 6);
    PJson p(s & 1); Tree t; t.root().insert("a", 1, "b", std::vector<int> { 1, 2 }, "c", "text");
    bool compact = s & 1;
    for(int i = 0; i < 4; i++) {
        int op = i == 0 ? s / 2 : x.choose(6);
        if(i) { compact = x.flip(); p.set_compact(compact); }
        PJson q(compact); Tree u; u.root().insert("a", 1, "b", std::vector<int> { 1, 2 }, "c", "text");
        x.step();
        switch(op) {
            case 0: case 1: if(t.to_source(p) != u.to_source(q)) x.fail("layout of a used parser"); break;
            case 2: { Obj o; if(Tree().store(o, p) != Tree().store(o, q)) x.fail("layout of a used parser"); break; }
            case 3: { Tree v; v.load_source("{\"x\":[1,{\"y\":2}]}", 17, p); if(v.root().node("x").num_values() != 1) x.fail("used parser reads another document"); break; }
            case 4: { Tree v; try { v.load_source("{\"x\":[1,{\"y\":2", 14, p); x.fail("truncated"); } catch(Exception&) { } break; }
            case 5: { Bomb::armed = true; try { Tree().store(Bomb(2, 2), p); x.fail("bomb"); } catch(UserError&) { } Bomb::armed = false; break; }
        }
    }
    x.state(mc::mix(s, x.choices.size()));
}

/* trees as values */
MC_SCENARIO("moved trees", "all sequences of up to 5 (thorough 7) moves between 3 trees by construction and assignment, insertions and writes in between")
{
    int n = 18;
    int first = x.shard(n);
    std::vector<std::unique_ptr<Tree>> t; std::vector<Doc> d(3);
    for(int i = 0; i < 3; i++) { t.emplace_back(new Tree); if(i < 2) { t[i]->root().insert("t" + std::to_string(i), std::string(50, 'a' + i)); d[i].v("t" + std::to_string(i), Val::str(std::string(50, 'a' + i))); } }
    for(int k = 0; k < (x.thorough ? 6 : 4); k++) {
        int op = k == 0 ? first : x.choose(n);
        int a = op % 3, b = (a + 1 + op / 3 % 2) % 3;
        x.step();
        switch(op / 6) {
            case 0: *t[a] = std::move(*t[b]); d[a] = d[b]; d[b] = Doc(); break;
            case 1: if(op / 3 % 2) { std::unique_ptr<Tree> u(new Tree(std::move(*t[a]))); t[a] = std::move(u); } else { Tree u; std::swap(*t[a], *t[b]); std::swap(d[a], d[b]); } break;
            case 2: if(op / 3 % 2) { t[a]->root().insert("n", k, "s", ScopeWrap([](Node& m) { m.insert("z", std::string(20, 'z')); })); d[a].v("n", Val::i32(k)).n("s", Doc().v("z", Val::str(std::string(20, 'z')))); }
                else { t[a]->root().insert("from", t[b]->root()); d[a].n("from", d[b]); } break;
        }
        for(int i = 0; i < 3; i++) { auto e = diff(d[i], extract(t[i]->root()), false); if(!e.empty()) x.fail("tree after moves", std::to_string(i) + ": " + e); x.state(hash(d[i])); }
        if(doc::show(d[a], 4000).size() > 1500) return;
    }
    for(int i = 0; i < 3; i++) { auto e = diff(d[i], load_doc(i + 1, write(*t[i], i + 1)), false); if(!e.empty()) x.fail("tree written after moves", e); }
}

int main(int argc, char** argv) { return mc::main("P19", argc, argv); }
