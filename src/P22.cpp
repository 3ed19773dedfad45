#include "dyn.h"
#include "objs.h"
#include <map>
#include <memory>

using namespace doc;
using namespace Srl;
using objs::new_parser;

static const int Limit = 128;   /* scopes within each other, below the root */

/* a chain of scopes; pattern: kind of the scope of each level; sib: what else is in every scope */
static bool root_object = false;
static bool is_array(int pat, int lvl, int depth)
{
    if(root_object && lvl == 0) return false;
    switch(pat) {
        case 0: return false;
        case 1: return true;
        case 2: return lvl % 2;
        case 3: return lvl % 2 == 0;
        default: { int last = depth - lvl; return last >= 0 && last < 4 ? ((pat - 4) >> last) & 1 : lvl % 3 == 0; }   /* all kinds of the last four */
    }
}
static const int Patterns = 4 + 16, Sibs = 8;
static const char* sib_name[] { "nothing", "value before", "value behind", "scope before", "scope behind", "all", "chain of 3 before", "chain of 3 behind" };

/* indentation makes deep documents huge */
static int writer(int f, int depth) { return f == JsonS && depth > 1000 ? JsonC : f; }

struct Writer {
    Parser& p; Lib::Out out; Buf b;
    Writer(Parser& p_) : p(p_) { p.clear(); out.set(b); }
    void put(const Value& v, const std::string& n) { p.write(v, Lib::MemBlock((const uint8_t*)n.data(), n.size()), out); }
    void open(bool array, const std::string& n) { put(Value(array ? Type::Array : Type::Object), n); }
    void close() { put(Value(Type::Scope_End), ""); }
    void val(const std::string& n, int32_t i)
    {
        /* textual formats are given the text of values */
        if(p.get_format() == Format::Text) { auto t = std::to_string(i); put(Value(Lib::MemBlock((const uint8_t*)t.data(), t.size()), Type::I32), n); return; }
        put(Value(i), n);
    }
    void chain(const std::string& n, int depth, int pat, int sib, int from = 0)
    {
        for(int i = from; i <= depth; i++) {
            open(is_array(pat, i, depth), i == from ? n : "n");
            if(sib == 1 || sib == 5) val("v", i & 63);
            if(i == depth) break;
            if(sib == 3 || sib == 5) { open(false, "s"); close(); }
            if(sib == 6 && depth < 2000) chain("c", 2, 2, 0);
        }
        for(int i = depth; i >= from; i--) {
            if(sib == 2) val("v", i & 63);
            if(i < depth) {
                if(sib == 4 || sib == 5) { open(true, "t"); val("", 1); close(); }
                if(sib == 7 && depth < 2000) chain("c", 2, 2, 0);
            }
            close();
        }
    }
    Buf& end() { out.flush(); p.clear(); return b; }
};

/* depth of the deepest scope */
static int total(int depth, int sib) { return sib >= 6 && depth >= 1 && depth < 2000 ? depth + 2 : depth; }

static Doc model(int depth, int pat, int sib, int from = 0)
{
    Doc d(is_array(pat, from, depth));
    auto nm = [&](const char* s) { return d.array ? std::string() : std::string(s); };
    if(sib == 1 || sib == 5 || sib == 2) d.v(nm("v"), Val::i32(from & 63));
    if(from == depth) return d;
    if(sib == 3 || sib == 5) d.n(nm("s"), Doc(false));
    if(sib == 6) d.n(nm("c"), model(2, 2, 0));
    d.n(nm("n"), model(depth, pat, sib, from + 1));
    if(sib == 4 || sib == 5) { Doc t(true); t.v("", Val::i32(1)); d.n(nm("t"), t); }
    if(sib == 7) d.n(nm("c"), model(2, 2, 0));
    return d;
}

static std::vector<int> depths(mc::X& x, bool all)
{
    std::vector<int> r;
    for(int i = all ? 0 : 124; i <= (all ? 140 : 132); i++) r.push_back(i);
    if(!all) for(int i : { 0, 1, 2, 3, 10, 63, 64, 65 }) r.push_back(i);
    for(int i : { 255, 256, 257, 1000, 32767, 32768, 65536 + 5, 300000 }) r.push_back(i);
    if(x.thorough) { for(int i = 141; i < 400; i++) r.push_back(i); r.push_back(2000000); }
    return r;
}

static void still_works(mc::X& x, Tree& t, Parser& p, int f, const std::string& where)
{
    /* the same tree and parser after a refusal */
    Doc d; d.v("a", Val::i32(5)); Doc s(true); s.v("", Val::str("x")); d.n("s", s);
    Tree w; build(w.root(), d); auto b = write(w, f);
    try { t.load_source(b, p); } catch(Exception& e) { x.fail("nothing can be loaded after a document was refused", where + ": " + e.what()); }
    auto r = diff(d, extract(t.root()), is_text(f));
    if(!r.empty()) x.fail("wrong document after a document was refused", where + ": " + r);
}

static void load_chain(mc::X& x, int f, bool stream, int depth, int pat, int sib)
{
    std::unique_ptr<Parser> p(new_parser(f));
    Buf b;
    { std::unique_ptr<Parser> q(new_parser(writer(f, depth))); Writer w(*q); w.chain("", depth, pat, sib); b = w.end(); }
    auto where = std::string(fmt_name(f)) + (stream ? " stream" : " memory") + ", " + std::to_string(depth) + " levels, pattern " + std::to_string(pat) + ", in each scope " + sib_name[sib];
    x.step(); x.note("%s", where.c_str());
    Tree t; std::string err; bool ok = false;
    Exact e(b);
    try { if(stream) { ChunkStream s(b, { 1000 }); t.load_source(s, *p); } else t.load_source(e.p, e.n, *p); ok = true; }
    catch(Exception& ex) { err = ex.what(); }
    x.state(mc::mix(mc::mix(mc::mix(depth, pat), sib), f * 2 + stream));
    if(total(depth, sib) <= Limit) {
        if(!ok) x.fail("document within the limit refused", where + ": " + err);
        auto m = model(depth, pat, sib);
        auto r = diff(m, extract(t.root()), is_text(f));
        if(!r.empty()) x.fail("nested document is changed", where + ": " + r.substr(0, 500));
        auto c = t.to_source(*p);
        Tree u; u.load_source(c, *p);
        r = diff(m, extract(u.root()), is_text(f));
        if(!r.empty()) x.fail("nested document is changed when written again", where + ": " + r.substr(0, 500));
        int n = 0; t.root().foreach_node([&](Node&) { n++; }, true);
        if(n < depth) x.fail("nested scopes are missing", where);
    } else {
        if(ok) x.fail("document beyond the limit loaded", where);
        if(err.empty()) x.fail("refusal without a message", where);
        still_works(x, t, *p, f, where);
    }
}

MC_SCENARIO("documents", "chains of 0..140, 255..257, 1000, 32 K, 64 K and 300000 (thorough: 0..400, 2000000) scopes of 4 patterns of kinds, 8 kinds of siblings in each scope, 4 formats, memory and stream")
{
    auto ds = depths(x, true);
    int d = ds[x.shard(ds.size())];
    int pat = x.choose(4), sib = x.choose(Sibs);
    if(d > 2000 && (x.thorough ? sib > 5 : sib > 1)) x.skip();
    load_chain(x, x.choose(4), x.flip(), d, pat, sib);
}

MC_SCENARIO("kinds at the limit", "chains of 124..132 and 255..257 scopes whose last four are of all 16 patterns of kinds, 8 kinds of siblings, 4 formats, memory and stream")
{
    static const std::vector<int> ds { 124, 125, 126, 127, 128, 129, 130, 131, 132, 255, 256, 257 };
    int d = ds[x.shard(ds.size())], pat = 4 + x.choose(16), sib = x.choose(Sibs);
    load_chain(x, x.choose(4), x.flip(), d, pat, sib);
}

MC_SCENARIO("several chains", "documents of up to 3 chains, each of 1, 100, 127, 128, 129 or 1000 levels, in one scope: the first which is too long decides, all others load")
{
    static const std::vector<int> ds { 0, 1, 100, 127, 128, 129, 1000 };
    int s = x.shard(ds.size() * 4), f = s / ds.size(), n = 1 + x.choose(3);
    int c[3] { ds[s % ds.size()] }; for(int i = 1; i < n; i++) c[i] = x.pick(ds);
    int pat = x.choose(4); bool array = x.flip(), stream = x.flip();
    if(!x.thorough && (pat & 1) != array) x.skip();
    std::unique_ptr<Parser> p(new_parser(f));
    Writer w(*p); w.open(array, "");
    bool within = true; Doc m(array);
    for(int i = 0; i < n; i++) { std::string nm(1, 'a' + i); w.chain(nm, c[i], pat, 1, 1); if(c[i] < 1) w.chain(nm, 1, pat, 1, 1); within &= c[i] <= Limit; if(c[i] <= Limit) m.n(array ? "" : nm, model(std::max(c[i], 1), pat, 1, 1)); }
    w.close();
    auto b = w.end();
    Tree t; bool ok = false; std::string err;
    try { if(stream) { ChunkStream s(b, { 333 }); t.load_source(s, *p); } else { Exact e(b); t.load_source(e.p, e.n, *p); } ok = true; } catch(Exception& e) { err = e.what(); }
    x.step(); x.state(mc::hash(b));
    std::string where = fmt_name(f); for(int i = 0; i < n; i++) where += " " + std::to_string(c[i]);
    if(ok != within) x.fail(within ? "document within the limit refused" : "document beyond the limit loaded", where + ": " + err);
    if(ok) { auto r = diff(m, extract(t.root()), is_text(f)); if(!r.empty()) x.fail("nested document is changed", where + ": " + r.substr(0, 500)); }
    else still_works(x, t, *p, f, where);
}

MC_SCENARIO("built trees", "trees of 0..140 (quick: 0..10, 120..140 and every 16th between), 256 and 1000 levels built by insertion, 4 patterns of kinds and 6 of siblings, written in all formats and loaded again")
{
    int s = x.shard(143); int d = s <= 140 ? s : s == 141 ? 256 : 1000;
    if(!x.thorough && s > 10 && s < 120 && s % 16) x.skip();
    int pat = x.choose(4), sib = x.choose(6), f = x.choose(4);
    root_object = true;
    Tree t; auto m = model(d, pat, sib);
    root_object = false;
    build(t.root(), m);
    auto b = write(t, f), c = write_stream(t, f);
    if(b != c) x.fail("stream and memory differ");
    x.step(); x.state(mc::hash(b));
    Tree u; bool ok = false;
    std::unique_ptr<Parser> p(new_parser(f));
    try { u.load_source(b, *p); ok = true; } catch(Exception&) { }
    auto where = std::to_string(d) + " levels, " + fmt_name(f);
    if(ok != (d <= Limit)) x.fail(ok ? "document beyond the limit loaded" : "document within the limit refused", where);
    if(ok) { auto r = diff(m, extract(u.root()), is_text(f)); if(!r.empty()) x.fail("nested document is changed", where + ": " + r.substr(0, 500)); }
    else still_works(x, u, *p, f, where);
}

/* unknown nested fields of restored objects */
struct Shape { virtual ~Shape() { } virtual const TypeID& srl_type_id() = 0; virtual void srl_resolve(Context&) = 0; };
struct Dot : Shape { int x = 1; std::string s; const TypeID& srl_type_id() override; void srl_resolve(Context& c) override { c("x", x); c("s", s); } };
static const auto& reg_dot = register_type<Dot>("Dot22");
const TypeID& Dot::srl_type_id() { return reg_dot; }

struct In { int b = -1, e = -1; void srl_resolve(Context& c) { c("b", b)("e", e); } };
struct Top { int a = -1; In in; std::vector<In> v; std::map<std::string, In> m; std::shared_ptr<In> sh; std::unique_ptr<Shape> po; std::unique_ptr<In> u; int z = -1;
    void srl_resolve(Context& c) { c("a", a)("in", in)("v", v)("m", m)("sh", sh)("po", po)("u", u)("z", z); } };

static const int Places = 24;
static bool good(const Top& t)
{
    auto in = [](const In& i) { return i.b == 2 && i.e == 3; };
    auto* d = dynamic_cast<Dot*>(t.po.get());
    return t.a == 1 && t.z == 9 && in(t.in) && t.v.size() == 2 && in(t.v[0]) && in(t.v[1]) && t.m.size() == 1 && t.m.count("k") && in(t.m.at("k")) && t.sh && in(*t.sh) && d && d->x == 4 && d->s == "s" && t.u && in(*t.u);
}
/* deep: absolute depth of the deepest scope */
static Buf write_top(Parser& p, int place, int deep, int pat, int sib)
{
    Writer w(p); int at = 0, lvl = 0;
    auto here = [&] { if(at++ == place) w.chain("deep", deep, pat, sib, lvl + 1); };
    auto open = [&](bool a, const char* n) { if(*n) here(); w.open(a, n); lvl++; };
    auto close = [&] { here(); w.close(); lvl--; };
    auto in = [&](const char* n) { open(false, n); w.val("b", 2); here(); w.val("e", 3); close(); };
    w.open(false, "");
    here(); w.val("a", 1); here();
    in("in");
    w.open(true, "v"); lvl++; in(""); in(""); lvl--; w.close();
    w.open(true, "m"); lvl++; { w.open(false, ""); lvl++; here(); w.put(Value(Lib::MemBlock((const uint8_t*)"k", 1), Type::String, Encoding::UTF8), "key"); in("value"); close(); } lvl--; w.close();
    open(false, "sh"); { w.val("srl_shared_key", 0); in("srl_shared_value"); } close();
    open(false, "po"); w.put(Value(Lib::MemBlock((const uint8_t*)"Dot22", 5), Type::String, Encoding::UTF8), "srl_type_id"); w.val("x", 4); here(); w.put(Value(Lib::MemBlock((const uint8_t*)"s", 1), Type::String, Encoding::UTF8), "s"); close();
    in("u");
    here(); w.val("z", 9); here();
    w.close();
    if(place >= at) return Buf();
    return w.end();
}
static const int Top_Places = 40;

MC_SCENARIO("unknown fields", "an unknown field with a chain of scopes at every place of an object with nested objects, containers, shared and polymorphic members; total depth 3..10, 124..132, 256, 1000, 32768 and 300000; 4 patterns, 3 kinds of siblings, memory, stream, tree, 4 formats: within the limit the object is restored, beyond it is restored or refused")
{
    static const std::vector<int> ds { 4, 5, 6, 10, 124, 125, 126, 127, 128, 129, 130, 131, 132, 256, 1000, 32768, 300000 };
    int s = x.shard(Top_Places * 4), place = s % Top_Places, f = s / Top_Places;
    int d = x.pick(ds), pat = x.choose(4), sib = (int[]) { 0, 1, 5 }[x.choose(3)], route = x.choose(3);
    if(d > 1000 && (sib || (pat && !x.thorough))) x.skip();
    std::unique_ptr<Parser> p(new_parser(f));
    std::unique_ptr<Parser> q(new_parser(writer(f, d)));
    auto b = write_top(*q, place, d, pat, sib);
    if(b.empty()) x.skip();
    Exact e(b);
    auto where = std::string(fmt_name(f)) + (route == 0 ? " memory" : route == 1 ? " stream" : " tree") + ", place " + std::to_string(place) + ", " + std::to_string(d) + " levels, pattern " + std::to_string(pat) + ", in each scope " + sib_name[sib];
    x.step(); x.note("%s", where.c_str()); x.state(mc::hash(b));
    bool ok = false; std::string err;
    Tree t;
    {
        Top o;
        try {
            if(route == 0) t.restore(o, Lib::In::Source(e.p, e.n), *p);
            else if(route == 1) { ChunkStream s(b, { 100, 1 }); t.restore(o, s, *p); }
            else { t.load_source(e.p, e.n, *p); t.root().paste(o); }
            ok = true;
        } catch(Exception& ex) { err = ex.what(); }
        if(ok && !good(o)) x.fail("object with a nested unknown field is restored incorrectly", where);
    }
    if(!ok && d <= Limit) x.fail("object with a nested unknown field within the limit is refused", where + ": " + err);
    if(ok && d > Limit && route == 2) x.fail("document beyond the limit loaded", where);
    if(!ok) {
        /* the same tree and parser restore the object when it is not too deep */
        auto c = write_top(*p, place, 10, pat, sib); Top o;
        try { t.restore(o, c, *p); } catch(Exception& ex) { x.fail("nothing can be restored after a document was refused", where + ": " + ex.what()); }
        if(!good(o)) x.fail("wrong object after a document was refused", where);
    }
}

/* nested scopes where something else is expected */
struct Wrong { int i = 1; std::string s; std::vector<int> vi; std::vector<std::vector<int>> vv; std::vector<std::string> vs; std::map<std::string, int> m; std::pair<int, std::vector<int>> p; std::unique_ptr<int> u; std::shared_ptr<int> sh; std::unique_ptr<Shape> po; std::vector<uint8_t> bin; std::tuple<int, In> t; In in; std::vector<std::unique_ptr<Shape>> vp; };
static void field(Context& c, Wrong& w, int k)
{
    switch(k) { case 0: c("f", w.i); break; case 1: c("f", w.s); break; case 2: c("f", w.vi); break; case 3: c("f", w.vv); break; case 4: c("f", w.vs); break; case 5: c("f", w.m); break; case 6: c("f", w.p); break; case 7: c("f", w.u); break;
        case 8: c("f", w.sh); break; case 9: c("f", w.po); break; case 10: c("f", VecWrap<uint8_t>(w.bin)); break; case 11: c("f", w.t); break; case 12: c("f", w.in); break; case 13: c("f", w.vp); break; }
}
static int wrong_kind; static bool wrong_optional;
struct WrongTop { Wrong w; int z = -1; void srl_resolve(Context& c) { field(c, w, wrong_kind); c("z", z); } };

MC_SCENARIO("nested scopes in place of fields", "a chain of scopes in place of a field of 14 types, 9 depths up to 300000, 4 patterns of kinds, 3 of siblings, memory, stream, tree and item of unpack, 4 formats: restored or refused")
{
    static const std::vector<int> ds { 1, 2, 3, 127, 128, 129, 130, 1000, 32768, 300000 };
    int s = x.shard(14 * 4); wrong_kind = s % 14; int f = s / 14;
    int d = x.pick(ds), pat = x.choose(4), sib = (int[]) { 0, 1, 5 }[x.choose(3)], route = x.choose(4);
    if(d > 1000 && sib) x.skip();
    std::unique_ptr<Parser> p(new_parser(f));
    std::unique_ptr<Parser> q(new_parser(writer(f, d)));
    Writer w(*q); w.open(false, ""); w.chain("f", d, pat, sib, 1); w.val("z", 7); w.close();
    auto b = w.end(); Exact e(b);
    x.step(); x.state(mc::mix(mc::hash(b), wrong_kind));
    Tree t; bool ok = false; std::string err;
    {
        WrongTop o;
        try {
            if(route == 0) t.restore(o, Lib::In::Source(e.p, e.n), *p);
            else if(route == 1) { ChunkStream s(b, { 100, 1 }); t.restore(o, s, *p); }
            else if(route == 2) { t.load_source(e.p, e.n, *p); t.root().paste(o); }
            else switch(wrong_kind) { case 2: t.unpack(Lib::In::Source(e.p, e.n), *p, "z", o.z, "f", o.w.vi); break; case 12: t.unpack(Lib::In::Source(e.p, e.n), *p, "f", o.w.in, "z", o.z); break; case 13: t.unpack(Lib::In::Source(e.p, e.n), *p, "f", o.w.vp, "z", o.z); break; default: t.unpack(Lib::In::Source(e.p, e.n), *p, "z", o.z, "f", o.w.i); }
            ok = true;
        } catch(Exception& ex) { err = ex.what(); }
        if(ok && o.z != 7) x.fail("field behind a nested scope is wrong", std::to_string(wrong_kind) + " " + std::to_string(d));
        if(!ok && err.empty()) x.fail("refusal without a message");
    }
    if(route == 2 && d > Limit && (ok || err.find("DEPTH") == std::string::npos) && ok) x.fail("document beyond the limit loaded");
    still_works(x, t, *p, f, "type " + std::to_string(wrong_kind));
}

/* items looked up directly */
MC_SCENARIO("items", "an item of a document unpacked from before and behind a chain of scopes (3 depths within, 5 beyond the limit), also inside of the chain's scope, as value, object, vector and Union, memory and stream, 4 formats")
{
    static const std::vector<int> ds { 1, 64, 128, 129, 130, 1000, 32768, 300000 };
    int s = x.shard(ds.size() * 4), d = ds[s / 4], f = s % 4, pat = x.choose(4); bool stream = x.flip(); int what = x.choose(4), twice = x.choose(3);
    std::unique_ptr<Parser> p(new_parser(f));
    std::unique_ptr<Parser> q(new_parser(writer(f, d)));
    Writer w(*q); w.open(false, ""); w.val("a", 3); w.chain("f", d, pat, 0, 1); w.open(false, "o"); w.val("b", 2); w.val("e", 3); w.close(); w.open(true, "l"); w.val("", 5); w.val("", 6); w.close(); w.val("z", 7); w.close();
    auto b = w.end(); Exact e(b); ChunkStream cs(b, { 64 });
    Lib::In::Source src = stream ? Lib::In::Source(cs) : Lib::In::Source(e.p, e.n);
    Tree t; bool ok = false; std::string err; int a = 0, z = 0; In in; std::vector<int> l; bool good = true;
    try {
        if(what == 0) { if(twice == 0) t.unpack(src, *p, "z", z); else if(twice == 1) t.unpack(src, *p, "z", z, "a", a); else t.unpack(src, *p, "a", a, "z", z); good = z == 7 && (!twice || a == 3); }
        if(what == 1) { if(twice == 0) t.unpack(src, *p, "o", in); else if(twice == 1) t.unpack(src, *p, "z", z, "o", in); else t.unpack(src, *p, "o", in, "z", z); good = in.b == 2 && in.e == 3 && (!twice || z == 7); }
        if(what == 2) { if(twice == 0) t.unpack(src, *p, "l", l); else if(twice == 1) t.unpack(src, *p, "z", z, "l", l); else t.unpack(src, *p, "l", l, "a", a); good = l == std::vector<int> { 5, 6 }; }
        if(what == 3) { t.load_source(src, *p); auto u = t.root().get("z"); good = u.unwrap<int>() == 7; }
        ok = true;
    } catch(Exception& ex) { err = ex.what(); }
    x.step(); x.state(mc::mix(mc::hash(b), what * 3 + twice));
    auto where = std::string(fmt_name(f)) + " " + std::to_string(d) + " levels, item " + std::to_string(what);
    if(ok && !good) x.fail("wrong item", where);
    if(!ok && d <= Limit) x.fail("item of a document within the limit is refused", where + ": " + err);
    if(ok && d > Limit && what == 3) x.fail("document beyond the limit loaded", where);
    still_works(x, t, *p, f, where);
}

int main(int argc, char** argv) { return mc::main("P22", argc, argv); }
