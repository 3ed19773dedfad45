#include "gen.h"
#include "stream.h"

using namespace doc;

/* the output must be accepted by the strict parser and denote the document */
static void strict(mc::X& x, const Doc& d, const std::string& s, const char* how)
{
    x.step();
    x.state(mc::hash(s));
    Json j(s);
    Doc g;
    x.note("%s", mc::show(s, 1000).c_str());
    if(!j.parse(g)) x.fail("output is not standard JSON", std::string(how) + ": " + j.err + "\n" + mc::show(s.size() > j.i + 60 && j.i > 60 ? s.substr(j.i - 60, 120) : s, 400));
    auto df = diff(d, g, true);
    if(!df.empty()) x.fail("output means another document", std::string(how) + ": " + df + "\n" + mc::show(s, 400));
}

static void write_check(mc::X& x, Srl::Tree& t, const Doc& d, bool streams = true)
{
    for(int f : { JsonC, JsonS }) {
        auto b = write(t, f);
        strict(x, d, std::string(b.begin(), b.end()), fmt_name(f));
        if(streams) { auto c = write_stream(t, f); strict(x, d, std::string(c.begin(), c.end()), "stream"); }
    }
}
static void check_doc(mc::X& x, const Doc& d, bool streams = true)
{
    Srl::Tree t(d.array ? Srl::Type::Array : Srl::Type::Object);
    build(t.root(), d);
    write_check(x, t, d, streams);
}

MC_SCENARIO("shapes", "all documents with up to 5 (thorough: 6) items below the root and nesting up to 5, names {a, empty}, values text, null, number")
{
    gen::Gen g(x, x.thorough ? 6 : 5, 5);
    check_doc(x, g.root({ "a", "" }, { Val::i32(7), Val::str("t"), Val::null() }), false);
}

MC_SCENARIO("code points", "every Unicode code point in a text and a name, singly (quick: every one below U+3000, from there in groups of 16 and every 37th singly)")
{
    int s = x.shard(0x1100);
    std::string group;
    for(int k = 0; k < 256; k++) {
        uint32_t c = s * 256 + k;
        if(c >= 0xD800 && c < 0xE000) continue;
        auto u = utf8(c);
        group += u;
        if(x.thorough || c < 0x3000 || c % 37 == 0) check_doc(x, Doc().v(u, Val::str(u)).v("x" + u + "y", Val::str("z" + u)), c % 64 == 1);
        if(k % 16 == 15) { check_doc(x, Doc().v("g", Val::str(group)).v(group, Val::null()), false); group.clear(); }
    }
}

MC_SCENARIO("character sequences", "all texts and names of up to 3 (thorough: 4) characters over all 32 control characters and \" \\ / a u n 0 e-acute emoji DEL")
{
    std::vector<std::string> al;
    for(int i = 0; i < 32; i++) al.push_back(std::string(1, (char)i));
    for(auto s : { "\"", "\\", "/", "a", "u", "n", "0", "\xc3\xa9", "\xf0\x9f\x98\x80", "\x7f" }) al.push_back(s);
    int N = al.size();
    int s = x.shard(N * N);
    auto pre = al[s / N] + al[s % N];
    auto one = [&](const std::string& t) { check_doc(x, Doc().v("k", Val::str(t)).v(t, Val::boolean(true)), false); };
    if(s < N) one(al[s]);
    one(pre);
    for(auto& a : al) { one(pre + a); if(x.thorough) for(auto& b : al) one(pre + a + b); }
}

MC_SCENARIO("integers", "all 8- and 16-bit integers of both signs; 32- and 64-bit ones within 40 of zero, every power of two and ten and the limits, inserted as every type that holds them")
{
    int s = x.shard(256 + 65 + 20);
    Doc d(true), o;
    auto add = [&](I v, Srl::Type t) { d.v("", Val::integer(v, t)); };
    if(s < 256) {
        add((int8_t)s, Srl::Type::I8); add(s, Srl::Type::UI8);
        for(int k = 0; k < 256; k++) { add((int16_t)(s * 256 + k), Srl::Type::I16); add(s * 256 + k, Srl::Type::UI16); add((int16_t)(s * 256 + k), Srl::Type::I64); }
    } else {
        I base = s < 256 + 65 ? (I)1 << (s - 256) : 1;
        for(int i = 256 + 65; i < s; i++) base *= 10;
        for(int k = -40; k <= 40; k++) for(int sign = 0; sign < 2; sign++) {
            I v = sign ? -(base + k) : base + k;
            if(v >= INT32_MIN && v <= INT32_MAX) add(v, Srl::Type::I32);
            if(v >= 0 && v <= UINT32_MAX) add(v, Srl::Type::UI32);
            if(v >= INT64_MIN && v <= INT64_MAX) add(v, Srl::Type::I64);
            if(v >= 0 && v <= (I)UINT64_MAX) add(v, Srl::Type::UI64);
        }
    }
    check_doc(x, d);
    for(size_t i = 0; i < d.values.size(); i += 7) check_doc(x, Doc().v("a", d.values[i].second), false);
}

MC_SCENARIO("doubles", "every binary exponent with 64 mantissa patterns and both signs (thorough: 1024 patterns), all decimals m * 10^e with m of up to 3 digits and |e| <= 40")
{
    int s = x.shard(2047 + 81);
    Doc d(true);
    if(s < 2047) {
        int M = x.thorough ? 1024 : 64;
        for(int m = 0; m < M; m++) for(int sign = 0; sign < 2; sign++) {
            uint64_t man = m < 52 ? 1ull << m : m < 104 ? (1ull << (m - 52)) - 1 : m * 0x5DEECE66Dull * 0x9E3779B9ull;
            uint64_t bits = (uint64_t)s << 52 | (man & 0xFFFFFFFFFFFFFull) | (uint64_t)sign << 63;
            double v; memcpy(&v, &bits, 8);
            d.v("", Val::dbl(v));
        }
    } else {
        int e = s - 2047 - 40;
        for(int m = 0; m < 1000; m++) { char b[40]; snprintf(b, sizeof b, "%de%d", m, e); d.v("", Val::dbl(strtod(b, nullptr))); d.v("", Val::dbl(-strtod(b, nullptr))); }
    }
    check_doc(x, d, false);
    for(size_t i = 0; i < d.values.size(); i += 61) check_doc(x, Doc().v("a", d.values[i].second), false);
}

MC_SCENARIO("floats", "every float exponent with 256 mantissa patterns and both signs (thorough: 16384)")
{
    int s = x.shard(255);
    int M = x.thorough ? 16384 : 256;
    Doc d(true);
    for(int m = 0; m < M; m++) for(uint32_t sign = 0; sign < 2; sign++) {
        uint32_t man = m < 23 ? 1u << m : m < 46 ? (1u << (m - 23)) - 1 : m * 0x9E3779B9u;
        uint32_t bits = (uint32_t)s << 23 | (man & 0x7FFFFF) | sign << 31;
        float v; memcpy(&v, &bits, 4);
        d.v("", Val::fp(v));
    }
    check_doc(x, d, false);
}

MC_SCENARIO("values and separators", "all sequences of up to 3 items of 12 kinds (every value type, empty and filled scopes) in object and array, behind a scope")
{
    int s = x.shard(2 * 12);
    Doc d(s % 2);
    auto add = [&](int k) {
        std::string n = d.array ? "" : "n" + std::to_string(d.values.size());
        switch(k) {
            case 0: d.v(n, Val::null()); break; case 1: d.v(n, Val::boolean(true)); break; case 2: d.v(n, Val::boolean(false)); break; case 3: d.v(n, Val::i64(-12)); break;
            case 4: d.v(n, Val::dbl(0.5)); break; case 5: d.v(n, Val::str("s")); break; case 6: d.v(n, Val::bin("\xff\xfe\x01")); break; case 7: d.v(n, Val::str("")); break;
            case 8: d.n(n, Doc()); break; case 9: d.n(n, Doc(true)); break; case 10: d.n(n, Doc().v("i", Val::null()).n("j", Doc(true))); break; case 11: d.n(n, Doc(true).v("", Val::i32(1)).n("", Doc().v("k", Val::i32(2)))); break;
        }
    };
    add(s / 2);
    int n = x.choose(4);
    for(int i = 0; i < n; i++) add(x.choose(12));
    int wrap = x.choose(2);
    if(wrap) { Doc c; c.n("w", d); d = c; }
    check_doc(x, d);
}

MC_SCENARIO("sizes", "texts, names and blobs of every length 0..300 and around the buffer boundaries up to 64 KiB, with escapes at the end; blobs of every last-byte pattern; arrays of 0..300 elements")
{
    static const std::vector<size_t> ls = gen::lengths(300, 65600);
    size_t len = ls[x.shard(ls.size())];
    int kind = x.choose(6);
    Doc d;
    auto s = gen::pattern(len, kind);
    if(kind == 0) d.v("t", Val::str(s + "\"")).v("u", Val::str("\n" + s));
    if(kind == 1) d.v("b", Val::bin(s)).v("c", Val::bin(std::string(len, '\xff')));
    if(kind == 2) d.v(s, Val::i32(1)).v(s + "\\", Val::null()).n(s, Doc());
    if(kind == 3) { Doc c(true); for(size_t i = 0; i < len && i < 4000; i++) c.v("", Val::dbl(i / 4.0)); d.n("a", c); }
    if(kind == 4) d.v("t", Val::str(std::string(len, '"'))).v("u", Val::str(std::string(len, '\x01')));
    if(kind == 5) { Doc c(true); for(size_t i = 0; i < len && i < 1000; i++) c.n("", Doc(i & 1)); d.n("a", c); }
    check_doc(x, d);
}

MC_SCENARIO("nesting", "all mixes of scope kinds in 1..10 levels (thorough: 14), 1..129 levels of 4 periodic mixes, written compact and spaced")
{
    int depth = x.shard(129) + 1;
    auto nest = [&](std::function<bool(int)> arr) {
        Doc d(arr(depth - 1));
        d.v("v", Val::i32(1));
        for(int i = depth - 2; i >= 0; i--) { Doc c(arr(i)); c.v("p", Val::null()); c.n("n", d); d = c; }
        check_doc(x, d, depth % 10 == 1);
    };
    if(depth <= (x.thorough ? 14 : 10)) { for(int m = 0; m < 1 << depth; m++) nest([&](int i) { return m >> i & 1; }); return; }
    int p = x.choose(4);
    nest([&](int i) { return p == 0 ? false : p == 1 ? true : p == 2 ? i % 2 : i % 3 == 1; });
}

/* written directly, not through a tree */
struct Item { int k = 0; std::string s; template<class C> void srl_resolve(C& c) { c("k", k)("s", s); } };

MC_SCENARIO("direct output", "objects, containers, enumerated items and callback scopes written by store and pack, with 11 texts as keys and values, memory and stream, compact and spaced")
{
    static const std::vector<std::string> ts { "", "a", "\"", "\\", "\n", std::string("\0", 1), "\xc3\xa9", "\x1f", "/", "\"\\\"", "long text with \" in it, longer than any block stored in place" };
    auto& t = ts[x.shard(ts.size())];
    auto& u = x.pick(ts);
    int what = x.choose(6);
    bool compact = x.flip(), stream = x.flip();
    Srl::PJson p(compact);
    Doc d;
    Buf mem; std::ostringstream os;
    auto out = [&](auto&& fn) { if(stream) fn(Srl::Lib::Out::Source(os)); else fn(Srl::Lib::Out::Source(mem)); };
    if(what == 0) { d.v("k", Val::i32(3)).v("s", Val::str(t)); Item i; i.k = 3; i.s = t; out([&](Srl::Lib::Out::Source o) { Srl::Tree().store(i, o, p); }); }
    if(what == 1) { d.array = true; d.v("", Val::str(t)).v("", Val::str(u)); std::vector<std::string> v { t, u }; out([&](Srl::Lib::Out::Source o) { Srl::Tree().store(v, o, p); }); }
    if(what == 2) { d.v(t, Val::i32(1)); Srl::Lib::HTable<std::string, int> h; h.insert(t, 1); out([&](Srl::Lib::Out::Source o) { Srl::Tree().store(h, o, p); }); }
    if(what == 3) { d.array = true; std::map<std::string, std::string> m { { t, u }, { u, t } }; for(auto& e : m) d.n("", Doc().v("key", Val::str(e.first)).v("value", Val::str(e.second))); out([&](Srl::Lib::Out::Source o) { Srl::Tree().store(m, o, p); }); }
    if(what == 4) { d.v(t, Val::str(u)).v(u, Val::null()); out([&](Srl::Lib::Out::Source o) { Srl::Tree().pack(o, p, t, u, u, nullptr); }); }
    if(what == 5) {
        d.v("x", Val::i32(1)); d.n(t, Doc().v(u, Val::dbl(2.5)).n(u, Doc(true).v("", Val::str(t))));
        out([&](Srl::Lib::Out::Source o) {
            Srl::Tree().pack(o, p, "x", 1, t, Srl::ScopeWrap([&](Srl::Node& n) { n.insert(u, 2.5); n.insert(u, Srl::ScopeWrap([&](Srl::Node& m) { m.insert("", t); }, Srl::Type::Array)); }));
        });
    }
    strict(x, d, stream ? os.str() : std::string(mem.begin(), mem.end()), "direct");
}

/* names and texts given in other encodings come out as UTF-8 */
MC_SCENARIO("other encodings", "all texts of up to 2 (thorough: 3) code points over 17 boundary code points, inserted as UTF-8, UTF-16 and UTF-32 name and value")
{
    static const std::vector<uint32_t> cp { 0, 1, 0x1f, '"', '\\', 'a', 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff };
    int n = cp.size();
    int s = x.shard(n * (n + 1));
    std::string t = utf8(cp[s % n]);
    if(s / n) t += utf8(cp[s / n - 1]);
    int m = x.thorough ? x.choose(n + 1) : 0;
    if(m) t += utf8(cp[m - 1]);
    int ne = x.choose(3), ve = x.choose(3);
    auto w16 = to16(to32(t)); auto w32 = to32(t);
    auto str = [&](int e) { return e == 0 ? Srl::String(t) : e == 1 ? Srl::String(w16) : Srl::String(w32); };
    Srl::Tree tree;
    Doc d;
    d.v(t, Val::str(t)).n(t, Doc());
    tree.root().insert(str(ne), str(ve));
    tree.root().insert(str(ne), Srl::ScopeWrap([](Srl::Node&) { }));
    write_check(x, tree, d, false);
}

int main(int argc, char** argv) { return mc::main("P10", argc, argv); }
