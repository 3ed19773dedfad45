#include "gen.h"

using namespace doc;

/* Writes the document in a format, loads it and compares. Two steps (write, load). */
static void round_trip(mc::X& x, Srl::Tree& t, const Doc& d, int f, bool stream)
{
    auto bytes = stream ? write_stream(t, f) : write(t, f);
    x.step(2);
    x.state(mc::hash(bytes));
    x.note("%s -> %s", show(d).c_str(), mc::show(bytes).c_str());
    Doc g;
    try {
        g = load_doc(f, bytes);
    } catch(Srl::Exception& e) {
        x.fail(std::string("document refused: ") + fmt_name(f), show(d) + "\nwritten as " + mc::show(bytes) + "\n" + e.what());
    }
    auto df = diff(d, g, is_text(f));
    if(!df.empty()) x.fail(std::string("document changed: ") + fmt_name(f), df + "\n" + show(d) + "\nwritten as " + mc::show(bytes) + "\nread as " + show(g));
}

static void all_formats(mc::X& x, const Doc& d)
{
    Srl::Tree t(d.array ? Srl::Type::Array : Srl::Type::Object);
    build(t.root(), d);
    auto df = diff(d, extract(t.root()), false);
    if(!df.empty()) x.fail("tree differs from what was inserted", df + "\n" + show(d));
    for(int f = 0; f < NumFmt; f++) round_trip(x, t, d, f, false);
}

MC_SCENARIO("shapes", "all documents with up to 4 (thorough: 5) items below the root and nesting up to 4; names from {a, b, empty}; values from 4 kinds; all formats")
{
    gen::Gen g(x, x.thorough ? 5 : 4, 4);
    all_formats(x, g.root({ "a", "b", "" }, { Val::i32(7), Val::str("t"), Val::null(), Val::bin("\x01\xff") }));
}

MC_SCENARIO("value-kinds", "all sequences of 1..3 values of all 14 kinds in object and array, with a scope before or behind")
{
    static const std::vector<Val> kinds {
        Val::null(), Val::boolean(true), Val::boolean(false), Val::integer(-5, Srl::Type::I8), Val::integer(200, Srl::Type::UI8),
        Val::integer(-300, Srl::Type::I16), Val::integer(60000, Srl::Type::UI16), Val::i32(-70000), Val::integer(4000000000u, Srl::Type::UI32),
        Val::i64(INT64_MIN), Val::u64(UINT64_MAX), Val::fp(-0.1f), Val::dbl(1e300), Val::str(""), Val::str("text of more than eight bytes"),
        Val::bin(""), Val::bin("\x00\x80\xff more than eight bytes") };
    int first = x.shard(kinds.size() * 2 * 3);
    Doc d(first % 2);
    int sub = first / 2 % 3;
    d.v("x", kinds[first / 6]);
    int n = x.choose(3);
    for(int i = 0; i < n; i++) d.v(i ? "z" : "y", x.pick(kinds));
    if(sub) { Doc c(sub == 2); c.v("i", d.values.back().second); d.n("n", c); }
    all_formats(x, d);
}

MC_SCENARIO("sizes", "every length 0..300 and around every encoding/buffer boundary up to 64 KiB (thorough: 1 MiB and every length 0..5000) for text, blob and name, alone and behind another field, memory and stream output")
{
    static const std::vector<size_t> ls = gen::lengths(x.thorough ? 5000 : 300, x.thorough ? (1u << 20) + 2 : 65600);
    size_t len = ls[x.shard(ls.size())];
    int kind = x.choose(4), pre = x.choose(3);
    bool stream = x.flip();
    Doc d;
    if(pre == 1) d.v("first", Val::i32(1));
    if(pre == 2) d.v("first", Val::str(std::string(13, 'p')));
    auto s = gen::pattern(len, kind);
    if(kind == 0) d.v("text", Val::str(s));
    if(kind == 1) d.v("blob", Val::bin(s));
    if(kind == 2) { d.v(s, Val::i32(3)); d.v(s, Val::i32(4)); }
    if(kind == 3) { Doc c(true); c.v("", Val::str(s)); d.n("n", c); }
    d.v("last", Val::boolean(true));
    Srl::Tree t;
    build(t.root(), d);
    for(int f = 0; f < NumFmt; f++) round_trip(x, t, d, f, stream);
}

MC_SCENARIO("counts", "every number of items 0..300 and around 2^8, 2^14, 2^16 (thorough: 0..2000); arrays of values / of scopes, objects with equal, distinct and alternating names")
{
    static std::vector<size_t> ns = gen::counts(x.thorough ? 2000 : 300, x.thorough ? 70000 : 66000);
    size_t n = ns[x.shard(ns.size())];
    int kind = x.choose(6);
    if(n > 20000 && kind > 2) { kind = 0; }
    Doc d(kind < 2);
    for(size_t i = 0; i < n; i++) {
        auto s = std::to_string(i);
        if(kind == 0) d.v("", Val::u64(i));
        if(kind == 1) d.n("", Doc(i % 2));
        if(kind == 2) d.v("same", Val::u64(i));
        if(kind == 3) d.v("name" + s, Val::str(s));
        if(kind == 4) d.v(i % 3 ? "n" + s : "x", Val::boolean(i % 2));
        if(kind == 5) d.n("n" + std::to_string(i % 37), Doc().v("m" + s, Val::null()));
    }
    all_formats(x, d);
}

MC_SCENARIO("name-table", "all sequences of up to 7 (thorough: 8) field names over 3 names, split over two scopes in every way")
{
    int n = x.thorough ? 8 : 7;
    int split = x.shard(n + 1);
    static const char* names[] { "a", "bb", "a much longer name" };
    Doc d, c;
    for(int i = 0; i < n; i++) (i < split ? d : c).v(names[x.choose(3)], Val::i32(i));
    d.n(names[x.choose(3)], c);
    all_formats(x, d);
}

MC_SCENARIO("names alike", "all sequences of 1..4 (thorough 5) values and scopes under two names which share a hash or nearly everything (19 pairs) or a third one, in one scope or two, all formats")
{
    auto& t = gen::twins()[x.shard(gen::twins().size())];
    int n = x.choose(x.thorough ? 5 : 4) + 1; bool two = x.flip();
    Doc d, c;
    for(int i = 0; i < n; i++) {
        int k = x.choose(6); auto& to = two && i % 2 ? c : d;
        auto name = k / 2 < 2 ? t[k / 2] : std::string("z");
        if(k & 1) to.n(name, Doc(false).v(t[(k / 2 + 1) % 2], Val::i32(i + 100))); else to.v(name, Val::i32(i));
    }
    if(two) d.n(t[0], c);
    all_formats(x, d);
}

MC_SCENARIO("tree-histories", "build by insertion in every order of 4 fields (2 values, 2 scopes), write twice in all pairs of formats from one tree and parser")
{
    int p = x.shard(24);
    std::vector<int> perm { 0, 1, 2, 3 };
    for(int i = 0; i < p; i++) std::next_permutation(perm.begin(), perm.end());
    Doc d;
    Srl::Tree t;
    for(int k : perm) {
        Doc c(k == 3); c.v("i", Val::i32(k));
        if(k == 0) { d.v("a", Val::i32(1)); t.root().insert("a", 1); }
        if(k == 1) { d.v("b", Val::str("s")); t.root().insert("b", "s"); }
        if(k >= 2) {
            d.n(k == 2 ? "c" : "a", c);
            t.root().insert(k == 2 ? "c" : "a", Srl::ScopeWrap([&](Srl::Node& n) { build(n, c); }, k == 3 ? Srl::Type::Array : Srl::Type::Object));
        }
    }
    round_trip(x, t, d, x.choose(NumFmt), false);
    round_trip(x, t, d, x.choose(NumFmt), x.flip());
    round_trip(x, t, d, x.choose(NumFmt), x.flip());
}

MC_SCENARIO("reload-chain", "documents of up to 3 items through every chain of three formats, each loaded tree written in the next")
{
    gen::Gen g(x, 3, 3);
    Doc d = g.root({ "a", "b" }, { Val::i64(-1), Val::str("u\"\n\xc3\xa9"), Val::dbl(0.1) });
    bool text = false;
    Srl::Tree t(d.array ? Srl::Type::Array : Srl::Type::Object);
    build(t.root(), d);
    for(int i = 0; i < 3; i++) {
        int f = x.choose(NumFmt);
        auto b = write(t, f);
        x.step(2);
        text |= is_text(f);
        Srl::Tree u;
        load(u, f, b);
        auto df = diff(d, extract(u.root()), text);
        if(!df.empty()) x.fail("document changed in a chain of formats", df);
        x.state(hash(extract(u.root())));
        t = std::move(u);
    }
}

int main(int argc, char** argv) { return mc::main("P01", argc, argv); }
