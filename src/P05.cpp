#include "gen.h"
#include "stream.h"

using namespace doc;

static std::string pad(size_t n) { std::string s; for(size_t i = 0; i < n; i++) s += "abcdefghijklmnopqrstuvwxyz"[(i * 5 + i / 26) % 26]; return s; }

/* the documents which are moved across the boundaries */
static const std::vector<Doc>& tokens()
{
    static std::vector<Doc> v = [] {
        std::vector<Doc> v;
        auto one = [&](Val val) { v.push_back(Doc().v("k", val)); };
        one(Val::null()); one(Val::boolean(true)); one(Val::boolean(false));
        one(Val::i32(5)); one(Val::i64(-1234567890123456789ll)); one(Val::u64(UINT64_MAX)); one(Val::dbl(-1.2345678901234567e-89)); one(Val::fp(0.3f));
        one(Val::str("")); one(Val::str("short")); one(Val::str(std::string("\"\\/\n\t\x01\0\xc3\xa9\xf0\x9f\x98\x80\"\"", 15)));
        one(Val::str(pad(40))); one(Val::str(pad(300))); one(Val::bin("\x01\x02\x03")); one(Val::bin(std::string(100, '\xee')));
        v.push_back(Doc().v("a field name longer than anything stored in place", Val::i32(1)).v("a field name longer than anything stored in place", Val::i32(2)));
        v.push_back(Doc().v("quo\"ted \\ name\n", Val::i32(1)));
        v.push_back(Doc().n("n", Doc().v("x", Val::i32(1)).n("m", Doc(true).v("", Val::str("y")).n("", Doc()))).n("e", Doc(true)));
        v.push_back(Doc().v("k", Val::i32(1)).v("kk", Val::i32(2)).v("kkk", Val::boolean(true)).v("k", Val::null()).v("kk", Val::str("s")));
        v.push_back(Doc().n("a", Doc(true).v("", Val::i32(100000)).v("", Val::i32(-100000)).v("", Val::dbl(2.5)).v("", Val::boolean(false)).v("", Val::null())));
        { Doc d(true); for(int i = 0; i < 20; i++) d.v("", Val::i32(i * 1000)); v.push_back(Doc().n("twenty", d)); }
        return v;
    }();
    return v;
}

static Doc padded(const Doc& tok, size_t n, int style)
{
    Doc d;
    if(style == 0) d.v("p", Val::str(pad(n)));
    if(style == 1) { for(size_t i = 0; i + 12 < n; i += 12) d.v("q" + std::to_string(1000 + i), Val::i32(7)); d.v("p", Val::str(pad(n % 12))); }
    if(style == 2) d.v(pad(n), Val::null());
    for(auto& v : tok.values) d.values.push_back(v);
    for(auto& c : tok.nodes) d.nodes.push_back(c);
    d.v("last", Val::i32(3));
    return d;
}

static const std::vector<size_t>& paddings(bool thorough)
{
    static std::vector<size_t> v;
    if(v.empty()) {
        std::set<size_t> s;
        auto r = [&](size_t a, size_t b) { for(size_t i = a; i <= b; i++) s.insert(i); };
        if(thorough) r(0, 3200); else { r(0, 20); r(940, 1040); r(1990, 2060); r(3040, 3075); }
        v.assign(s.begin(), s.end());
    }
    return v;
}

MC_SCENARIO("alignments", "21 documents covering every token kind x every offset of the token relative to the read-ahead boundaries (paddings 0..20, 940..1040, 1990..2060, 3040..3075; thorough: 0..3200) x 3 kinds of padding x 4 formats, loaded from memory and stream and compared with the model")
{
    auto& ps = paddings(x.thorough);
    auto n = ps[x.shard(ps.size())];
    auto& t = x.pick(tokens());
    int style = x.choose(3), f = x.choose(NumFmt);
    auto d = padded(t, n, style);
    Srl::Tree tree;
    build(tree.root(), d);
    auto b = write(tree, f);
    auto m = same_from_stream(x, f, b, { }, "padding " + std::to_string(n));
    if(!m.ok) x.fail("document refused", m.err);
    auto df = diff(d, m.d, is_text(f));
    if(!df.empty()) x.fail("document differs", df);
}

MC_SCENARIO("chunks", "all delivery patterns of up to 4 chunks of 1, 2, 7, 33 bytes or the rest, repeating the last size, for 6 documents of 40 to 2500 bytes, all formats")
{
    static const std::vector<size_t> sz { 1, 2, 7, 33, 100000 };
    int s = x.shard(25);
    int di = x.choose(6), f = x.choose(NumFmt);
    std::vector<size_t> c { sz[s % 5], sz[s / 5], x.pick(sz), x.pick(sz) };
    auto d = padded(tokens()[9 + di * 2], di % 2 ? 10 : 1000 + 300 * di, di % 3);
    Srl::Tree tree;
    build(tree.root(), d);
    auto m = same_from_stream(x, f, write(tree, f), c);
    if(!m.ok) x.fail("document refused", m.err);
}

MC_SCENARIO("long tokens with escapes", "texts and names of 1..5 buffer lengths with 1 or 2 escapes at every position near a boundary (thorough: 8 lengths, all positions near any boundary), JSON and other formats")
{
    static const std::vector<size_t> ls { 1020, 1100, 2047, 2500, 5000, 1023, 3300, 9000 };
    std::vector<size_t> pos;
    for(size_t b = 1024; b <= 5120; b += 1024) for(int k = -24; k <= 6; k++) pos.push_back(b + k);
    size_t p = pos[x.shard(pos.size())];
    size_t len = ls[x.choose(x.thorough ? 8 : 5)];
    if(p >= len) x.skip();
    int kind = x.choose(4), two = x.choose(3), name = x.choose(2);
    static const char* es[] { "\"", "\\", "\n", "\x02" };
    auto s = pad(len);
    s.replace(p, 1, es[kind]);
    if(two == 1) s.replace(p > 1 ? p - 1 : 0, 1, "\\");
    if(two == 2) s.replace(p, 0, "\xf0\x9f\x98\x80\"");
    Doc d;
    if(name) d.v(s, Val::i32(1)); else d.v("t", Val::str(s));
    d.v("last", Val::i32(3));
    Srl::Tree tree;
    build(tree.root(), d);
    for(int f : { JsonC, Msg, SrlF }) {
        auto m = same_from_stream(x, f, write(tree, f));
        auto df = m.ok ? diff(d, m.d, f == JsonC) : m.err;
        if(!df.empty()) x.fail("document differs", df);
    }
}

/* JSON spelled by hand: escapes, comments, spaces */
static const std::vector<std::string>& spellings()
{
    static const std::vector<std::string> v {
        "\"a\":\"\\u0041\\u00e9\\u20ac\\ud83d\\ude00\"", "\"a\":\"\\b\\f\\n\\r\\t\\/\\\\\\\"\"", "\"\\u0061\\\"\":1",
        "/* comment **/ \"a\" /**/ : /* x */ 12.5e3 /*/*/, \"b\":[true/**/,null]", "// c\n\"a\"// c : \n:1// d\n,\"b\":{// e\n}",
        "\"a\" \t\r\n : \t\r\n [ \t\r\n 1 \t\r\n , \t\r\n false \t\r\n ]", "\"a\":-0.00012345E+10,\"b\":18446744073709551615,\"c\":-9223372036854775808",
        "\"a\":[[],{},[[{}]]]", "\"a\":true,\"b\":false,\"c\":null" };
    return v;
}

MC_SCENARIO("spelled JSON", "9 texts of escapes, comments, spaces and numbers at every offset relative to the read-ahead boundary, behind spaces, a text or a comment")
{
    auto& ps = paddings(x.thorough);
    auto n = ps[x.shard(ps.size())];
    auto& s = x.pick(spellings());
    int style = x.choose(4);
    std::string j = "{";
    if(style == 0) j += std::string(n, ' ');
    if(style == 1) j += "\"p\":\"" + pad(n) + "\",";
    if(style == 2) j += "/*" + pad(n) + "*/";
    if(style == 3) j += "//" + pad(n) + "\n";
    j += s + ",\"last\":3}";
    Json ref(j); ref.comments = true;
    Doc e;
    if(!ref.parse(e)) { fprintf(stderr, "reference parser: %s\n%s\n", ref.err.c_str(), j.c_str()); _exit(77); }
    auto m = same_from_stream(x, JsonC, Buf(j.begin(), j.end()));
    auto df = m.ok ? diff(e, m.d, true) : m.err;
    if(!df.empty()) x.fail("document differs", df + "\n" + mc::show(j));
}

MC_SCENARIO("damaged input", "6 documents placed across the boundary: cut at every byte near it and at the end, and every byte near it replaced by each of 12 values: memory and stream agree")
{
    static const std::vector<size_t> ps { 0, 960, 980, 995, 1000, 1008, 1012, 1015, 1018, 1020, 1022, 1024 };
    size_t n = ps[x.shard(ps.size())];
    int f = x.choose(NumFmt), di = x.choose(6);
    auto d = padded(tokens()[di * 3 + 3], n, di % 3);
    Srl::Tree tree;
    build(tree.root(), d);
    auto b = write(tree, f);
    size_t lo = n < 40 ? 0 : n - 40;
    if(lo >= b.size()) x.skip();
    size_t at = std::min<size_t>(lo + x.choose(130), b.size());
    int how = x.choose(13);
    if(how == 12) b.resize(at);
    else {
        if(at >= b.size()) x.skip();
        static const uint8_t vals[] { 0, 1, '"', '\\', '{', ']', ',', 0x7f, 0x80, 0xc1, 0xdb, 0xff };
        b[at] = vals[how];
    }
    same_from_stream(x, f, b);
}

MC_SCENARIO("tiny and empty streams", "all inputs of 0..2 bytes over all bytes, all formats")
{
    int s = x.shard(257);
    int f = x.choose(3) + 1;
    Buf b;
    if(s == 256) { same_from_stream(x, f, b); return; }
    b.push_back(s);
    same_from_stream(x, f, b);
    b.push_back(0);
    for(int k = 0; k < 256; k++) { b[1] = k; same_from_stream(x, f, b); }
}

/* typed restore: fields are consumed in another order than stored, so items and names are kept over refills */
struct In2 { std::string a; std::vector<int> v; template<class C> void srl_resolve(C& c) { c("a", a); c("v", v); } };
struct Obj {
    int order[5] { 0, 1, 2, 3, 4 };
    std::string s; std::vector<std::string> vs; std::map<std::string, int> m; In2 in; double d = 0;
    template<class C> void srl_resolve(C& c)
    {
        for(int o : order) {
            if(o == 0) c("s", s); if(o == 1) c("a rather long field name", vs); if(o == 2) c("m", m); if(o == 3) c("in", in); if(o == 4) c("d", d);
        }
    }
    bool operator==(const Obj& o) const { return s == o.s && vs == o.vs && m == o.m && in.a == o.in.a && in.v == o.in.v && d == o.d; }
};

MC_SCENARIO("typed restore", "an object of 5 fields stored with a field of every length 0..20, 940..1040, 1990..2060, 3040..3075, restored with its fields in 8 (thorough: 120) orders from memory and stream, all formats")
{
    auto& ps = paddings(x.thorough);
    auto n = ps[x.shard(ps.size())];
    int f = x.choose(NumFmt), which = x.choose(3);
    Obj o;
    o.s = which == 0 ? pad(n) : "s"; o.vs = { "first", which == 1 ? pad(n) : "second", "th\"ird" };
    o.m = { { "x", 1 }, { which == 2 ? pad(n) : "y", 2 } }; o.in.a = "inner"; o.in.v = { 1, 2, 300, -70000 }; o.d = 0.1;
    int perm[5] { 0, 1, 2, 3, 4 };
    int k = x.choose(x.thorough ? 120 : 8);
    for(int i = 0; i < (x.thorough ? k : k * 17); i++) std::next_permutation(perm, perm + 5);
    auto b = with(f, [&](auto& p) { return Srl::Tree().store(o, p); });
    for(int stream = 0; stream < 2; stream++) {
        Obj r;
        std::copy(perm, perm + 5, r.order);
        x.step();
        try {
            if(stream) { ChunkStream s(b); with(f, [&](auto& p) { Srl::Tree().restore(r, s, p); return 0; }); }
            else { Exact e(b); with(f, [&](auto& p) { Srl::Tree().restore(r, e.src(), p); return 0; }); }
        } catch(Srl::Exception& e) { x.fail(std::string("object refused: ") + (stream ? "stream " : "memory ") + fmt_name(f), e.what()); }
        if(!(r == o)) x.fail(std::string("object differs: ") + (stream ? "stream " : "memory ") + fmt_name(f), "padding " + std::to_string(n));
    }
    x.state(mc::hash(b));
}

int main(int argc, char** argv) { return mc::main("P05", argc, argv); }
