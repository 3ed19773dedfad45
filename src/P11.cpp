#include "gen.h"
#include "stream.h"

using namespace doc;

static std::string hex(const Buf& b) { std::string r; char t[4]; for(size_t i = 0; i < b.size() && i < 200; i++) { snprintf(t, sizeof t, "%02x ", b[i]); r += t; } return r + (b.size() > 200 ? "..." : ""); }

/* written by the library, read by the reference */
static void decode(mc::X& x, const Doc& d, const Buf& b, const char* how)
{
    x.step();
    x.state(mc::hash(b));
    MsgDec m(b);
    Doc g;
    if(!m.parse(g)) x.fail("output is not MessagePack", std::string(how) + ": " + m.err + "\n" + hex(b) + "\nfor " + show(d));
    auto df = diff(d, g, false);
    if(!df.empty()) x.fail("output means another document", std::string(how) + ": " + df + "\n" + hex(b));
}
static void written(mc::X& x, const Doc& d, bool stream = true)
{
    Srl::Tree t(d.array ? Srl::Type::Array : Srl::Type::Object);
    build(t.root(), d);
    decode(x, d, write(t, Msg), "memory");
    if(stream) decode(x, d, write_stream(t, Msg), "stream");
}

/* written by others */
static void read(mc::X& x, const Doc& e, const Buf& b, bool stream = false)
{
    auto r = try_load(Msg, b, stream, { 1, 3, 2 });
    x.step();
    if(!r.ok) x.fail("valid MessagePack refused", hex(b) + "\n" + show(e) + "\n" + r.err);
    x.state(hash(r.d));
    auto df = diff(e, r.d, false);
    if(!df.empty()) x.fail("MessagePack read as another document", df + "\n" + hex(b) + "\nread as " + show(r.d));
}

/* the reference decides whether the bytes are a document */
static void differential(mc::X& x, const Buf& b, bool stream = false)
{
    MsgDec m(b);
    Doc e;
    bool ok = m.parse(e);
    if(ok) { read(x, e, b, stream); return; }
    if(m.err.compare(0, 8, "trailing") == 0) return;        /* a document followed by something else */
    if(m.err.compare(0, 8, "no scope") == 0 || m.err.compare(0, 11, "key is not ") == 0) return;   /* checked separately */
    auto r = try_load(Msg, b, stream);
    x.step();
    if(r.ok) x.fail("invalid MessagePack accepted", m.err + "\n" + hex(b) + "\nread as " + show(r.d));
}

static const std::vector<Val>& kinds()
{
    static const std::vector<Val> v {
        Val::null(), Val::boolean(true), Val::boolean(false), Val::integer(-5, Srl::Type::I8), Val::integer(-128, Srl::Type::I8), Val::integer(200, Srl::Type::UI8),
        Val::integer(-300, Srl::Type::I16), Val::integer(60000, Srl::Type::UI16), Val::i32(-70000), Val::integer(4000000000u, Srl::Type::UI32), Val::i64(INT64_MIN), Val::u64(UINT64_MAX),
        Val::fp(-0.1f), Val::dbl(1e300), Val::str(""), Val::str("text"), Val::str(std::string(40, 'x')), Val::bin(""), Val::bin("\x80\xff"), Val::bin(std::string(40, '\x90')) };
    return v;
}

MC_SCENARIO("written shapes", "all documents with up to 4 (thorough: 5) items below the root and nesting up to 4, names {a, empty}, 4 kinds of values, decoded by the reference")
{
    gen::Gen g(x, x.thorough ? 5 : 4, 4);
    written(x, g.root({ "a", "" }, { Val::i32(7), Val::str("t"), Val::null(), Val::bin("\x01\xff") }), false);
}

MC_SCENARIO("written values", "all pairs of 20 kinds of values in object and array; every 8- and 16-bit integer in every type; 32- and 64-bit integers within 40 of zero, all powers of two and the limits; doubles and floats of every exponent")
{
    int s = x.shard(40 + 256 + 65 + 256);
    if(s < 40) { Doc d(s % 2); d.v("a", kinds()[s / 2]); d.v("b", x.pick(kinds())); written(x, d); return; }
    Doc d(true);
    auto add = [&](I v, Srl::Type t) { d.v("", Val::integer(v, t)); };
    if(s < 296) {
        int h = s - 40;
        add((int8_t)h, Srl::Type::I8); add(h, Srl::Type::UI8);
        for(int k = 0; k < 256; k++) { int v = h * 256 + k; add((int16_t)v, Srl::Type::I16); add(v, Srl::Type::UI16); add((int16_t)v, Srl::Type::I32); add((int16_t)v, Srl::Type::I64); add(v, Srl::Type::UI64); add(v, Srl::Type::UI32); }
    } else if(s < 361) {
        I base = (I)1 << (s - 296);
        for(int k = -40; k <= 40; k++) for(int sign = 0; sign < 2; sign++) {
            I v = sign ? -(base + k) : base + k;
            if(v >= INT32_MIN && v <= INT32_MAX) add(v, Srl::Type::I32);
            if(v >= 0 && v <= UINT32_MAX) add(v, Srl::Type::UI32);
            if(v >= INT64_MIN && v <= INT64_MAX) add(v, Srl::Type::I64);
            if(v >= 0 && v <= (I)UINT64_MAX) add(v, Srl::Type::UI64);
        }
    } else {
        int e = s - 361;
        for(int m = 0; m < 200; m++) for(uint64_t sign = 0; sign < 2; sign++) {
            uint64_t man = m < 52 ? 1ull << m : m * 0x5DEECE66Dull * 0x9E3779B9ull;
            for(int q = 0; q < 8; q++) { uint64_t bits = (uint64_t)(e * 8 + q) << 52 | (man & 0xFFFFFFFFFFFFFull) | sign << 63; double v; memcpy(&v, &bits, 8); d.v("", Val::dbl(v)); }
            uint32_t fb = (uint32_t)e << 23 | (man & 0x7FFFFF) | (uint32_t)sign << 31; float f; memcpy(&f, &fb, 4); d.v("", Val::fp(f));
        }
    }
    written(x, d, false);
}

MC_SCENARIO("written sizes", "texts, names, blobs of every length 0..300 and around the encoding and buffer boundaries up to 64 KiB (thorough: 1 MiB); arrays and objects of 0..300 and around 2^8, 2^14, 2^16 items; memory and stream")
{
    static const std::vector<size_t> ls = gen::lengths(300, x.thorough ? (1u << 20) + 2 : 65600);
    size_t len = ls[x.shard(ls.size())];
    int kind = x.choose(6);
    auto s = gen::pattern(len, kind);
    Doc d;
    if(kind == 0) d.v("t", Val::str(s));
    if(kind == 1) d.v("b", Val::bin(s));
    if(kind == 2) d.v(s, Val::i32(3)).v(s, Val::null());
    if(kind >= 3 && len > 70000) x.skip();
    if(kind == 3) { Doc c(true); for(size_t i = 0; i < len; i++) c.v("", Val::u64(i)); d.n("n", c); }
    if(kind == 4) for(size_t i = 0; i < len; i++) d.v(i % 2 ? "a" : "bc", Val::boolean(i % 3));
    if(kind == 5) { d.array = true; for(size_t i = 0; i < len; i++) d.n("", Doc(i % 2)); }
    d.v("last", Val::str("z"));
    written(x, d);
}

/* reading ***************************************************************************************/

MC_SCENARIO("all widths", "all documents with up to 2 (thorough: 3) items, values of 6 kinds, every combination of the legal widths for every number, text, blob and scope header; memory and stream")
{
    gen::Gen g(x, x.thorough ? 3 : 2, 3);
    auto d = g.root({ "a", "" }, { Val::i64(-1), Val::u64(5), Val::i64(-32000), Val::str("t"), Val::null(), Val::bin("\x01\xff") });
    MsgEnc e;
    e.pick = [&](int n) { return x.choose(n); };
    e.scope(d);
    read(x, d, e.b); read(x, d, e.b, true);
}

MC_SCENARIO("widths of many", "objects and arrays of 0..40 and around 256, 65536 items of 4 kinds, in every header width, items in every width chosen by position and 8 offsets; memory and stream")
{
    static const std::vector<size_t> ns = gen::counts(40, 66000);
    size_t n = ns[x.shard(ns.size())];
    bool array = x.flip();
    int kind = x.choose(4), off = x.choose(8);
    if(n > 300 && off > 1) x.skip();
    Doc d(array);
    for(size_t i = 0; i < n; i++) {
        std::string name = "k" + std::to_string(i % 10);
        if(kind == 0) d.v(name, Val::u64(i % 128)); if(kind == 1) d.v(name, Val::str(std::string(i % 40, 's'))); if(kind == 2) d.v(name, Val::bin(std::string(i % 5, 'b')));
        if(kind == 3) d.n(name, Doc(i % 2));
    }
    int k = off;
    MsgEnc e;
    e.pick = [&](int n) { return k++ % n; };
    e.scope(d);
    read(x, d, e.b); read(x, d, e.b, true);
}

MC_SCENARIO("text and blob lengths", "every length 0..300 and around the boundaries up to 64 KiB in every form which can carry it, as value, as name, first and behind another item; memory and stream")
{
    static const std::vector<size_t> ls = gen::lengths(300, 65600);
    size_t len = ls[x.shard(ls.size())];
    int kind = x.choose(3), pre = x.choose(2);
    auto s = gen::pattern(len, kind == 1);
    Doc d;
    if(pre) d.v("pre", Val::null());
    if(kind == 0) d.v("t", Val::str(s)); if(kind == 1) d.v("b", Val::bin(s)); if(kind == 2) d.v(s, Val::i32(1));
    d.v("last", Val::i32(2));
    MsgEnc e;
    int form = x.choose(4), at = 0;
    e.pick = [&](int n) { return form < n ? form : n - 1; };
    (void)at;
    e.scope(d);
    read(x, d, e.b); read(x, d, e.b, true);
}

MC_SCENARIO("number forms", "every integer form with all payloads of one byte, all of two bytes, and four- and eight-byte payloads of all 0/ff/80/7f/01 combinations; floats of every exponent; in arrays and as fields")
{
    int s = x.shard(256);
    Buf b; Doc d(true);
    size_t n = 0;
    auto add = [&](int prefix, uint64_t v, int w, const Val& val) { b.push_back(prefix); be(b, v, w); d.v("", val); n++; };
    if(s < 0x80) add(s, 0, 0, Val::u64(s));
    if(s >= 0xe0) add(s, 0, 0, Val::i64((int8_t)s));
    add(0xcc, s, 1, Val::u64(s)); add(0xd0, s, 1, Val::i64((int8_t)s));
    for(int k = 0; k < 256; k++) { int v = s * 256 + k; add(0xcd, v, 2, Val::u64(v)); add(0xd1, v, 2, Val::i64((int16_t)v)); }
    static const uint8_t bs[] { 0, 0xff, 0x80, 0x7f, 1 };
    int P8 = 390625;
    for(int i = s; i < P8; i += 256 * (x.thorough ? 1 : 8)) {
        uint64_t v = 0; int q = i;
        for(int k = 0; k < 8; k++, q /= 5) v = v << 8 | bs[q % 5];
        add(0xcf, v, 8, Val::u64(v)); add(0xd3, v, 8, Val::i64((int64_t)v));
        add(0xce, v & 0xffffffff, 4, Val::u64(v & 0xffffffff)); add(0xd2, v & 0xffffffff, 4, Val::i64((int32_t)v));
    }
    for(int m = 0; m < 60; m++) for(uint32_t sign = 0; sign < 2; sign++) {
        uint64_t man = m < 52 ? 1ull << m : m < 59 ? m * 0x5DEECE66Dull * 0x9E3779B9ull : 0;
        uint32_t fb = (uint32_t)s << 23 | (man & 0x7FFFFF) | sign << 31; float f; memcpy(&f, &fb, 4); add(0xca, fb, 4, Val::fp(f));
        for(int q = 0; q < 8; q++) { uint64_t bits = (uint64_t)(s * 8 + q) << 52 | (man & 0xFFFFFFFFFFFFFull) | (uint64_t)sign << 63; double v; memcpy(&v, &bits, 8); add(0xcb, bits, 8, Val::dbl(v)); }
    }
    Buf h { 0xdd }; be(h, n, 4);
    h.insert(h.end(), b.begin(), b.end());
    read(x, d, h); read(x, d, h, true);
}

MC_SCENARIO("all prefixes", "every first byte of a value, of a key, of an array element and of the root, followed by 0..72 bytes of 3 patterns: read as the reference reads it, or refused")
{
    int p = x.shard(256);
    int where = x.choose(5), pat = x.choose(3);
    for(int n = 0; n <= 72; n++) for(int close = 0; close < 2; close++) {
        Buf b;
        if(where == 0) b = { 0x81, 0xa1, 'a' }; if(where == 1) b = { 0x81 }; if(where == 2) b = { 0x91 }; if(where == 3) { } if(where == 4) b = { 0x92, 0x93, 0x01, 0xc0 };
        b.push_back(p);
        for(int i = 0; i < n; i++) b.push_back(pat == 0 ? 0 : pat == 1 ? 'a' + i % 26 : "\x00\x02\xa1z\x05\xc3"[i % 6]);
        if(where == 4) { b.push_back(0x05); b.push_back(0x06); }
        if(close) { if(where != 1) continue; b.push_back(0xc3); }
        differential(x, b); differential(x, b, true);
    }
}

MC_SCENARIO("all short contents", "all byte strings of up to 2 bytes, and of 3 with the third out of 32 (thorough: all), behind 7 openings, against the reference")
{
    int s = x.shard(256);
    static const std::vector<Buf> hs { { 0x91 }, { 0x92 }, { 0x81 }, { 0x82, 0xa1, 'a' }, { 0xdc, 0, 1 }, { 0x93, 0x90 }, { 0x81, 0xa1, 'a', 0x92 } };
    auto b = x.pick(hs);
    size_t k = b.size();
    b.push_back(s); differential(x, b);
    for(int i = 0; i < 256; i++) {
        b.resize(k + 2); b[k + 1] = i; differential(x, b);
        b.push_back(0);
        for(int j = 0; j < 256; j += x.thorough ? 1 : 8) { b[k + 2] = j + (x.thorough ? 0 : (i + s) % 8); differential(x, b); }
    }
}

MC_SCENARIO("scope headers", "every array and map header form announcing 0..70 and boundary numbers of items, holding up to 3 fewer, exactly as many, in an outer scope of 3 kinds")
{
    int n = x.shard(71);
    static const int forms[] { 0x90, 0xdc, 0xdd, 0x80, 0xde, 0xdf };
    int fi = x.choose(6), less = x.choose(4), outer = x.choose(3);
    if((fi == 0 || fi == 3) && n > 15) x.skip();
    if(less > n) x.skip();
    Buf b;
    if(outer == 1) b = { 0x92 }; if(outer == 2) b = { 0xde, 0, 2, 0xa1, 'o' };
    if(fi % 3 == 0) b.push_back(forms[fi] | n); else { b.push_back(forms[fi]); be(b, n, fi % 3 == 1 ? 2 : 4); }
    for(int i = 0; i < n - less; i++) {
        if(fi >= 3) { b.push_back(0xa2); b.push_back('k'); b.push_back('a' + i % 26); }
        if(i % 5 == 4) b.push_back(0x90); else { b.push_back(0xcd); be(b, i * 1000, 2); }
    }
    if(outer && !less) { if(outer == 2) { b.push_back(0xa1); b.push_back('p'); } b.push_back(0xc3); }
    differential(x, b); differential(x, b, true);
}

MC_SCENARIO("keys which are not text", "numbers, booleans, null and blobs of all forms as keys: the fields keep their values and their order, unnamed; arrays, maps and extension types as keys are refused")
{
    static const std::vector<Buf> ks { { 5 }, { 0xe0 }, { 0xc0 }, { 0xc2 }, { 0xc3 }, { 0xcc, 200 }, { 0xcd, 1, 2 }, { 0xce, 1, 2, 3, 4 }, { 0xcf, 1, 2, 3, 4, 5, 6, 7, 8 }, { 0xd0, 0x80 }, { 0xd1, 1, 2 }, { 0xd2, 1, 2, 3, 4 }, { 0xd3, 1, 2, 3, 4, 5, 6, 7, 8 },
        { 0xca, 1, 2, 3, 4 }, { 0xcb, 1, 2, 3, 4, 5, 6, 7, 8 }, { 0xc4, 2, 'x', 'y' }, { 0xc5, 0, 1, 'x' }, { 0xc6, 0, 0, 0, 1, 'x' }, { 0xc4, 0 } };
    static const std::vector<Buf> bad { { 0x90 }, { 0x91, 5 }, { 0x80 }, { 0xdc, 0, 0 }, { 0xde, 0, 0 }, { 0xc1 }, { 0xc7, 1, 5, 5 }, { 0xd4, 1, 1 }, { 0xd6, 1, 1, 2, 3, 4 }, { 0xdd, 0, 0, 0, 0 } };
    int s = x.shard(ks.size() + bad.size());
    bool good = s < (int)ks.size();
    auto& k = good ? ks[s] : bad[s - ks.size()];
    int at = x.choose(3);
    bool stream = x.flip();
    Buf b { 0x83 };
    Doc e;
    for(int i = 0; i < 3; i++) {
        if(i == at) b.insert(b.end(), k.begin(), k.end()); else { b.push_back(0xa1); b.push_back('a' + i); }
        b.push_back(i + 10);
        e.v(i == at ? "" : std::string(1, 'a' + i), Val::u64(i + 10));
    }
    if(good) { read(x, e, b, stream); return; }
    auto r = try_load(Msg, b, stream);
    x.step();
    if(r.ok) x.fail("scope or unsupported type accepted as key", hex(b) + "\n" + show(r.d));
}

/* typed data on both sides */
struct Obj { int i = 0; std::string s; std::vector<double> v; std::map<std::string, bool> m; std::vector<uint8_t> b; std::unique_ptr<int> p;
    template<class C> void srl_resolve(C& c) { c("i", i)("s", s)("v", v)("m", m)("b", Srl::VecWrap<uint8_t>(b))("p", p); } };

MC_SCENARIO("typed exchange", "an object of 6 fields in 16 fillings: written and decoded by the reference, encoded by the reference with all widths by 6 offsets and restored; memory and stream")
{
    int s = x.shard(16);
    int off = x.choose(6);
    bool stream = x.flip();
    Obj o;
    if(s & 1) { o.i = -12345; o.p = std::make_unique<int>(70000); } if(s & 2) o.s = std::string(33, 't'); if(s & 4) { o.v = { 1.5, -1e300, 3 }; o.b = { 0, 255, 128 }; } if(s & 8) { o.m["x"] = true; o.m[""] = false; }
    Doc d;
    d.v("i", Val::i32(o.i)).v("s", Val::str(o.s)).v("b", Val::bin(std::string(o.b.begin(), o.b.end())));
    d.v("p", o.p ? Val::i32(*o.p) : Val::null());
    Doc v(true), m(true);
    for(auto q : o.v) v.v("", Val::dbl(q));
    for(auto& q : o.m) m.n("", Doc().v("key", Val::str(q.first)).v("value", Val::boolean(q.second)));
    d.n("v", v).n("m", m);
    {
        Srl::PMsgPack p; Buf b;
        if(stream) { std::ostringstream os; Srl::Tree().store(o, os, p); auto t = os.str(); b.assign(t.begin(), t.end()); } else b = Srl::Tree().store(o, p);
        decode(x, d, b, "typed");
    }
    int k = off;
    MsgEnc e;
    e.pick = [&](int n) { return k++ % n; };
    e.scope(d);
    Obj r;
    Srl::PMsgPack p;
    if(stream) { ChunkStream cs(e.b, { 1, 2 }); Srl::Tree().restore(r, cs, p); } else { Exact ex(e.b); Srl::Tree().restore(r, ex.src(), p); }
    x.step();
    if(r.i != o.i || r.s != o.s || r.v != o.v || r.m != o.m || r.b != o.b || !r.p != !o.p || (r.p && *r.p != *o.p)) x.fail("restored object differs", hex(e.b));
}

int main(int argc, char** argv) { return mc::main("P11", argc, argv); }
