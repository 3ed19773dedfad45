#include "gen.h"

using namespace doc;
using namespace Srl;

static bool in64(uint8_t c) { return isalnum(c) && c < 128 || c == '+' || c == '/'; }
static int v64(uint8_t c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : 63; }

/* reference: -1 malformed, 0 ok, 1 ok but unused bits are set (either way is legal) */
static int ref64(const std::string& s, std::string& out)
{
    out.clear();
    if(s.size() % 4) return -1;
    size_t pad = 0;
    if(!s.empty() && s.back() == '=') pad = s[s.size() - 2] == '=' ? 2 : 1;
    for(size_t i = 0; i < s.size() - pad; i++) if(!in64(s[i])) return -1;
    uint32_t acc = 0; int bits = 0;
    for(size_t i = 0; i < s.size() - pad; i++) {
        acc = acc << 6 | v64(s[i]); bits += 6;
        if(bits >= 8) { bits -= 8; out += (char)(acc >> bits); acc &= (1u << bits) - 1; }
    }
    return acc ? 1 : 0;
}

static std::string str(const std::vector<uint8_t>& v) { return std::string(v.begin(), v.end()); }

static void decode64(mc::X& x, const std::string& s)
{
    std::string e;
    int r = ref64(s, e);
    x.step();
    Exact in(s);
    bool ok = true;
    std::vector<uint8_t> g;
    try { g = Tools::base64_to_bytes((const char*)in.p, in.n); } catch(Exception&) { ok = false; }
    if(ok && r < 0) x.fail("malformed base64 accepted", mc::show(s));
    if(!ok && r == 0) x.fail("valid base64 refused", mc::show(s));
    if(ok && str(g) != e) x.fail("base64 decoded wrong", mc::show(s) + " -> " + mc::show(g));
    if(ok && Tools::get_base64_decoded_size((const char*)in.p, in.n) != e.size()) x.fail("wrong decoded size of base64", mc::show(s));
    /* into a destination of a given size: never beyond it */
    for(size_t cap : { e.size(), e.size() ? e.size() - 1 : 0, e.size() + 2 }) {
        Exact d(std::string(cap, 'Z'));
        bool ok2 = true; size_t n = 0;
        try { n = Tools::base64_to_bytes(d.p, cap, (const char*)in.p, in.n); } catch(Exception&) { ok2 = false; }
        x.step();
        if(ok2 && cap < e.size()) x.fail("too small destination accepted", mc::show(s));
        if(cap >= e.size() && ok2 != ok) x.fail("base64 into a destination judged differently", mc::show(s));
        if(ok2 && (n != e.size() || memcmp(d.p, e.data(), n))) x.fail("base64 decoded wrong into destination", mc::show(s));
        for(size_t i = e.size(); ok2 && i < cap; i++) if(d.p[i] != 'Z') x.fail("byte behind the decoded data changed", mc::show(s));
    }
}

/* through a document: text restored into binary targets */
static void restore64(mc::X& x, const std::string& s)
{
    std::string e;
    int r = ref64(s, e);
    Tree t;
    t.root().insert("s", s);
    t.root().insert("z", 7);
    for(int k = 0; k < 3; k++) {
        bool ok = true; std::string g;
        try {
            if(k == 0) { auto b = t.root().unwrap_field<Bytes>("s"); g = str(std::move(b).extract()); }
            if(k == 1) { std::vector<uint8_t> v { 1, 2, 3 }; VecWrap<uint8_t> w(v); t.root().paste_field("s", w); g = str(v); }
            if(k == 2) {
                std::unique_ptr<Exact> mem;
                BitWrap w([&](size_t n) { mem.reset(new Exact(std::string(n, '.'))); return mem->p; });
                t.root().paste_field("s", w);
                g = std::string((char*)mem->p, mem->n);
            }
        } catch(Exception&) { ok = false; }
        x.step();
        if(ok && r < 0) x.fail("malformed base64 text restored as binary", mc::show(s));
        if(!ok && r == 0) x.fail("valid base64 text refused as binary", mc::show(s));
        if(ok && g != e) x.fail("base64 text restored as wrong bytes", mc::show(s) + " -> " + mc::show(g));
        if(t.root().unwrap_field<int>("z") != 7) x.fail("another field changed");
    }
}

MC_SCENARIO("groups", "every byte string of length 0, 1, 2 and 3 encoded as base64 and hex by the standard and decoded again (quick: every third value of the last byte of three)")
{
    int s = x.shard(257);
    auto one = [&](const uint8_t* p, size_t n, bool full) {
        auto e = base64(std::string((const char*)p, n));
        std::vector<uint8_t> g;
        auto sz = Tools::bytes_to_base64(p, n, g);
        if(sz != e.size() || std::string((char*)g.data(), sz) != e) x.fail("base64 encoding differs from the standard", mc::show(p, n) + " -> " + mc::show(g));
        uint8_t d[3];
        if(Tools::base64_to_bytes(d, n, e.data(), e.size()) != n || memcmp(d, p, n)) x.fail("base64 decoding differs", e);
        x.step(2);
        if(full) {
            if(str(Tools::bytes_to_base64(p, n)) != e) x.fail("base64 encoding differs from the standard", mc::show(p, n));
            decode64(x, e);
            auto h = Tools::bytes_to_hex(p, n);
            std::string eh; for(size_t i = 0; i < n; i++) { char b[4]; snprintf(b, sizeof b, "%02X", p[i]); eh += b; }
            if(str(h) != eh) x.fail("hex encoding differs", eh);
            auto b = Tools::hex_to_bytes(h.data(), h.size());
            if(str(b) != std::string((const char*)p, n)) x.fail("hex decoding differs", eh);
            for(auto& c : eh) c = tolower(c);
            b = Tools::hex_to_bytes((const uint8_t*)eh.data(), eh.size());
            if(str(b) != std::string((const char*)p, n)) x.fail("lower case hex decoding differs", eh);
        }
    };
    uint8_t p[3] { };
    if(s == 256) { one(p, 0, true); for(int i = 0; i < 256; i++) { p[0] = i; one(p, 1, true); } return; }
    p[0] = s;
    for(int b = 0; b < 256; b++) {
        p[1] = b; one(p, 2, true);
        for(int c = (b + s) % 3; c < 256; c += x.thorough ? 1 : 3) { p[2] = c; one(p, 3, x.thorough && c % 16 == 0); }
        x.state(mc::hash(p, 3));
    }
}

MC_SCENARIO("base64 spellings", "all groups of 4 over 26 characters (alphabet borders, =, foreign and non-ASCII bytes), alone, behind and before a valid group, also into binary targets")
{
    static const char a[] = { 'A', 'Z', 'a', 'z', '0', '9', '+', '/', '=', 'Q', 'g', '@', '[', '`', '{', ',', '-', '.', ':', '_', ' ', '\n', '\0', '\x7f', '\x80', '\xff' };
    int N = sizeof a;
    int s = x.shard(N * N);
    std::string g { a[s / N], a[s % N] };
    int place = x.choose(3);
    for(int i = 0; i < N; i++) for(int j = 0; j < N; j++) {
        auto q = g + a[i] + a[j];
        if(place == 1) q = "QUJD" + q;
        if(place == 2) q += "QUI=";
        decode64(x, q);
        if(i % 4 == j % 4) restore64(x, q);
        x.state(mc::hash(q));
    }
}

MC_SCENARIO("base64 lengths and corruptions", "valid text of every data length 0..30 (thorough: 90) cut to every length and with every byte replaced by every value")
{
    int n = x.shard(x.thorough ? 91 : 31);
    auto v = base64(gen::pattern(n, 1));
    for(size_t l = 0; l <= v.size(); l++) { decode64(x, v.substr(0, l)); restore64(x, v.substr(0, l)); }
    for(size_t i = 0; i < v.size(); i++) for(int b = 0; b < 256; b++) {
        auto q = v; q[i] = (char)b;
        decode64(x, q);
        if(b % 5 == 0) restore64(x, q);
    }
    for(size_t i = 0; i <= v.size(); i++) for(char c : { '=', 'A', ' ', '\n' }) { auto q = v; q.insert(i, 1, c); decode64(x, q); q.insert(i, 3, c); decode64(x, q); }
    x.state(mc::hash(v));
}

MC_SCENARIO("hex", "all pairs of bytes as hex digits alone, behind and before a valid pair, all odd lengths 1..9, all destination sizes 0..4")
{
    int a = x.shard(256), place = x.choose(3);
    for(int b = 0; b < 256; b++) {
        std::string s { (char)a, (char)b };
        if(place == 1) s = "0f" + s;
        if(place == 2) s += "A9";
        bool ok = true;
        auto digit = [](uint8_t c) { return c < 128 && isxdigit(c); };
        for(auto c : s) ok = ok && digit(c);
        std::string e;
        if(ok) for(size_t i = 0; i < s.size(); i += 2) e += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16);
        for(int cap = -1; cap <= 4; cap++) {
            bool got = true; std::string g;
            Exact in(s), d(std::string(cap < 0 ? 0 : cap, 'Z'));
            try {
                if(cap < 0) g = str(Tools::hex_to_bytes(in.p, in.n));
                else { Tools::hex_to_bytes(d.p, cap, in.p, in.n); g = std::string((char*)d.p, std::min<size_t>(cap, s.size() / 2)); }
            } catch(Exception&) { got = false; }
            bool want = ok && (cap < 0 || cap >= (int)s.size() / 2);
            x.step();
            if(got != want) x.fail(got ? "invalid hex accepted" : "valid hex refused", mc::show(s) + " into " + std::to_string(cap));
            if(got && g != e) x.fail("hex decoded wrong", mc::show(s));
        }
        x.state(mc::hash(s));
    }
    for(int n = 1; n < 10; n += 2) {
        std::string s(n, 'a'); bool got = true;
        Exact in(s);
        try { Tools::hex_to_bytes(in.p, in.n); } catch(Exception&) { got = false; }
        if(got) x.fail("odd number of hex digits accepted");
    }
}

template<class T> static void vec(mc::X& x, const std::string& bytes, int f, bool direct)
{
    Tree t;
    t.root().insert("b", BitWrap((const uint8_t*)bytes.data(), bytes.size()));
    t.root().insert("z", 5);
    auto src = write(t, f);
    for(size_t before : { 0, 1, 9 }) {
        std::vector<T> v(before, T(3));
        VecWrap<T> w(v);
        bool ok = true, want = bytes.size() % sizeof(T) == 0;
        int z = 0;
        try {
            if(direct) with(f, [&](auto& p) { Tree().unpack(Lib::In::Source(src), p, "b", w); return 0; });
            else { Tree u; load(u, f, src); u.root().paste_field("b", w); z = u.root().template unwrap_field<int>("z"); if(z != 5) x.fail("another field changed"); }
        } catch(Exception&) { ok = false; }
        x.step();
        if(ok != want) x.fail(ok ? "bytes which are no elements accepted" : "bytes refused", std::to_string(bytes.size()) + " bytes into elements of " + std::to_string(sizeof(T)));
        if(ok && (v.size() * sizeof(T) != bytes.size() || memcmp(v.data(), bytes.data(), bytes.size()))) x.fail(std::string("binary data changed: ") + fmt_name(f), mc::show(bytes));
    }
}

MC_SCENARIO("blobs", "binary data of every length 0..300 and around every boundary up to 2^16 (thorough: 0..3000, 2^20), as BitWrap, Bytes and VecWrap of 1, 2, 4, 8 byte elements, all formats, tree and direct route")
{
    static const auto ls = gen::lengths(x.thorough ? 3000 : 300, x.thorough ? (1 << 20) + 2 : 65538);
    auto n = ls[x.shard(ls.size())];
    int f = x.choose(NumFmt);
    std::string s = gen::pattern(n, 1);
    if(x.flip()) s.assign(n, x.flip() ? '\xff' : '\0');
    bool direct = x.flip();
    vec<uint8_t>(x, s, f, direct); vec<int16_t>(x, s, f, direct); vec<uint32_t>(x, s, f, direct); vec<double>(x, s, f, direct);

    std::vector<uint8_t> raw(s.begin(), s.end());
    Srl::Bytes b(std::vector<uint8_t>(raw.begin(), raw.end()));
    VecWrap<uint8_t> w(raw);
    Tree t;
    t.root().insert("a", b); t.root().insert("b", w);
    Tree u;
    load(u, f, write(t, f));
    for(auto n : { "a", "b" }) {
        auto o = u.root().unwrap_field<Bytes>(n);
        if(str(std::move(o).extract()) != s) x.fail(std::string("binary data changed: ") + fmt_name(f), mc::show(s));
        x.step();
    }
    x.state(mc::hash(s) + f);
}

MC_SCENARIO("kinds", "every non-binary item restored into a binary target is refused, unless it is base64 text")
{
    int k = x.shard(6), f = x.choose(NumFmt);
    Tree t;
    if(k == 0) t.root().insert("v", 1); if(k == 1) t.root().insert("v", true); if(k == 2) t.root().insert("v", 1.5);
    if(k == 3) t.root().insert("v", ScopeWrap()); if(k == 4) t.root().insert("v", std::vector<int> { 1 }); if(k == 5) t.root().insert("w", 1);
    Tree u;
    load(u, f, write(t, f));
    bool ok = true;
    try { u.root().unwrap_field<Bytes>("v"); } catch(Exception&) { ok = false; }
    x.step(); x.state(k * 10 + f);
    if(ok) x.fail("item which is not binary restored as binary", std::to_string(k));
}

int main(int argc, char** argv) { return mc::main("P04", argc, argv); }
