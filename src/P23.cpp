#include "doc.h"
#include <iconv.h>
using namespace doc;
using namespace Srl;

/* reference codecs of the three encodings: bytes <-> code points, by the Unicode standard */
static const Encoding encs[] { Encoding::UTF8, Encoding::UTF16, Encoding::UTF32 };
static const char* enc_name[] { "UTF-8", "UTF-16", "UTF-32" };

static bool scalar(uint32_t c) { return c < 0x110000 && (c < 0xD800 || c > 0xDFFF); }

static std::string encode(int e, const std::u32string& s)
{
    std::string r;
    for(uint32_t c : s) {
        if(e == 0) put_utf8(r, c);
        else if(e == 2) { for(int i = 0; i < 4; i++) r += (char)(c >> (8 * i)); }
        else {
            auto u = [&](uint32_t v) { r += (char)v; r += (char)(v >> 8); };
            if(c < 0x10000) u(c); else { c -= 0x10000; u(0xD800 + (c >> 10)); u(0xDC00 + (c & 0x3FF)); }
        }
    }
    return r;
}
static bool decode(int e, const std::string& b, std::u32string& s)
{
    s.clear();
    auto at = [&](size_t i) { return (uint32_t)(uint8_t)b[i]; };
    if(e == 0) {
        size_t i = 0;
        while(i < b.size()) { auto c = get_utf8(b, i); if(c < 0) return false; s += (char32_t)c; }
        return true;
    }
    if(e == 2) {
        if(b.size() % 4) return false;
        for(size_t i = 0; i < b.size(); i += 4) { uint32_t c = at(i) | at(i + 1) << 8 | at(i + 2) << 16 | at(i + 3) << 24; if(!scalar(c)) return false; s += (char32_t)c; }
        return true;
    }
    if(b.size() % 2) return false;
    for(size_t i = 0; i < b.size(); i += 2) {
        uint32_t c = at(i) | at(i + 1) << 8;
        if(c >= 0xDC00 && c < 0xE000) return false;
        if(c >= 0xD800 && c < 0xDC00) {
            if(i + 3 >= b.size()) return false;
            uint32_t d = at(i + 2) | at(i + 3) << 8;
            if(d < 0xDC00 || d > 0xDFFF) return false;
            c = 0x10000 + ((c - 0xD800) << 10) + (d - 0xDC00); i += 2;
        }
        s += (char32_t)c;
    }
    return true;
}

static std::string sh(int from, int to, const std::string& b) { return std::string(enc_name[from]) + " to " + enc_name[to] + ": " + mc::show(b); }

/* one conversion by every interface; how: which of the buffer states */
static void convert(mc::X& x, int from, int to, const std::string& src, const std::string* want, size_t prior, size_t index)
{
    Exact e(Buf(src.begin(), src.end()));
    String s((const uint8_t*)e.p, e.n, encs[from]);
    Buf buf(prior);
    for(size_t i = 0; i < prior; i++) buf[i] = (uint8_t)(i * 7 + 1);
    x.step();
    size_t n = 0; bool threw = false;
    try { n = Tools::conv_charset(encs[to], s, buf, true, index); } catch(Exception&) { threw = true; }
    auto where = [&] { return sh(from, to, src) + ", buffer of " + std::to_string(prior) + " bytes, from position " + std::to_string(index); };
    if(want) {
        if(threw) x.fail("well-formed text refused", where());
        if(n != want->size() || buf.size() < (n ? index + n : 0) || (n && memcmp(&buf[index], want->data(), n))) x.fail("wrong conversion", where() + " gives " + mc::show(buf.data() + std::min(index, buf.size()), std::min(n, buf.size() - std::min(index, buf.size()))));
        for(size_t i = 0; i < std::min(index, prior); i++) if(buf[i] != (uint8_t)(i * 7 + 1)) x.fail("text before the position overwritten", where());
    } else if(!threw) x.fail("ill-formed text accepted", where() + " gives " + mc::show(buf.data() + index, n));
    /* without exceptions */
    Buf b2(buf.size()); threw = false; size_t m = 0;
    try { m = Tools::conv_charset(encs[to], s, b2, false, index); } catch(Exception&) { threw = true; }
    if(threw) x.fail("exception although none was wanted", where());
    if(want ? m != n || (n && memcmp(&b2[index], want->data(), n)) : m != 0) x.fail("wrong conversion without exceptions", where());
}
template<class C> static void unwrap_as(mc::X& x, int from, const std::string& src, const std::string* want)
{
    Exact e(Buf(src.begin(), src.end()));
    String s((const uint8_t*)e.p, e.n, encs[from]);
    const int to = sizeof(C) == 1 ? 0 : sizeof(C) == 2 ? 1 : 2;
    if(from == to) return;
    x.step();
    std::basic_string<C> r; bool threw = false;
    try { r = s.unwrap<C>(); } catch(Exception&) { threw = true; }
    if(want ? threw || std::string((const char*)r.data(), r.size() * sizeof(C)) != *want : !threw) x.fail(want ? "unwrapped text is wrong" : "ill-formed text unwrapped", sh(from, to, src));
    auto v = Tools::conv_charset(encs[to], s, false);
    if(std::string(v.begin(), v.end()) != (want ? *want : std::string())) x.fail("converted text is wrong", sh(from, to, src));
    if(want) {
        Exact e2(Buf(want->begin(), want->end()));
        String t((const uint8_t*)e2.p, e2.n, encs[to]);
        if(!(s == t) || !(t == s)) x.fail("the same text in two encodings is not equal", sh(from, to, src));
        auto other = *want; other[0] ^= 1;
        std::u32string tmp; if(decode(to, other, tmp)) { Exact e3(Buf(other.begin(), other.end())); String u((const uint8_t*)e3.p, e3.n, encs[to]); if(s == u) x.fail("different texts are equal", sh(from, to, src)); }
    }
}
/* all conversions of bytes in an encoding, good or not */
static void any(mc::X& x, int from, const std::string& src, size_t prior = 0, size_t index = 0, bool unwrap = true)
{
    std::u32string s; bool ok = decode(from, src, s);
    for(int to = 0; to < 3; to++) {
        if(to == from) { if(ok) convert(x, from, to, src, &src, prior, index); continue; }
        auto want = ok ? encode(to, s) : std::string();
        convert(x, from, to, src, ok ? &want : nullptr, prior, index);
        if(!unwrap || src.empty()) continue;
        if(to == 0) unwrap_as<char>(x, from, src, ok ? &want : nullptr); else if(to == 1) unwrap_as<char16_t>(x, from, src, ok ? &want : nullptr); else unwrap_as<char32_t>(x, from, src, ok ? &want : nullptr);
    }
    x.state(mc::mix(mc::hash(src), from * 2 + ok));
}

MC_SCENARIO("code points", "every 32-bit value from 0 to 0x110FFF (quick: of planes 2 to 15 every 8th block of 256) as text of one character, between all pairs of encodings (surrogates and values beyond refused)")
{
    int blk = x.shard(0x111000 / 256);
    if(!x.thorough && blk >= 0x200 && blk < 0x10F0 && blk % 8) x.skip();
    for(uint32_t c = blk * 256; c < (uint32_t)blk * 256 + 256; c++) {
        if(scalar(c)) { std::u32string s(1, c); for(int e = 0; e < 3; e++) any(x, e, encode(e, s), 0, 0, !(c & 7) || x.thorough); }
        else {
            any(x, 2, encode(2, std::u32string(1, c)), 0, 0);
            if(c < 0x10000) { std::string u { (char)c, (char)(c >> 8) }; any(x, 1, u); }
            std::string u; if(c < 0x10000) { u += (char)(0xE0 | c >> 12); } else { u += (char)(0xF0 | c >> 18); u += (char)(0x80 | ((c >> 12) & 63)); }
            u += (char)(0x80 | ((c >> 6) & 63)); u += (char)(0x80 | (c & 63));
            any(x, 0, u);
        }
    }
}

static const std::u32string Al { 'a', 0, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFEFF, 0xFFFF, 0x10000, 0x10FFFF };

MC_SCENARIO("sequences and buffers", "all texts of 0..3 (thorough 4) characters out of 12 at the borders of the encodings, between all pairs of encodings, into buffers of every size 0..40 and 4 positions")
{
    int N = Al.size(), s = x.shard((N + 1) * 41);
    size_t prior = s % 41; s /= 41;
    size_t index = (size_t[]) { 0, 1, 5, 33 }[x.choose(4)];
    std::u32string t; if(s) { t += Al[s - 1]; int d = x.thorough ? 4 : 3; for(int i = 1; i < d; i++) { int c = x.choose(N + 1); if(!c) break; t += Al[c - 1]; } }
    for(int e = 0; e < 3; e++) any(x, e, encode(e, t), prior, index, prior == 0);
}

MC_SCENARIO("long texts", "texts of 0..200 (thorough 0..1500) and around 2^8..2^12 (thorough 2^16) characters, each of 4 kinds or 3 mixes, one other character at 5 places, between all pairs of encodings, into empty, exact, smaller and larger buffers and 2 positions")
{
    static std::vector<size_t> ls; if(ls.empty()) { for(size_t i = 0; i <= (x.thorough ? 1500u : 200u); i++) ls.push_back(i); for(size_t b : { 255, 256, 511, 512, 1023, 1024, 1025, 4096, 16384, 65536 }) if(x.thorough || b < 16384) ls.push_back(b); }
    int s = x.shard(ls.size() * 7); size_t n = ls[ls.size() - 1 - s / 7];
    static const char32_t ks[] { 'a', 0xE9, 0x20AC, 0x1F600 };
    int kind = s % 7; int spot = x.choose(6); char32_t other = ks[x.choose(4)];
    std::u32string t;
    for(size_t i = 0; i < n; i++) t += kind < 4 ? ks[kind] : kind == 4 ? ks[i % 4] : kind == 5 ? (i < n / 2 ? U'a' : 0x1F600) : (i < n / 2 ? 0x20AC : U'a');
    if(spot && !n) x.skip();
    if(spot) t[spot == 1 ? 0 : spot == 2 ? n / 3 : spot == 3 ? n / 2 : spot == 4 ? n - 1 : n > 1 ? n - 2 : 0] = other;
    else if(other != 'a') x.skip();
    for(int e = 0; e < 3; e++) {
        auto src = encode(e, t);
        static const size_t ps[] { 0, 3 };
        for(size_t index : ps) {
            any(x, e, src, 0, index, index == 0);
            any(x, e, src, n, index, false);
            any(x, e, src, n * 4 + 8, index, false);
            any(x, e, src, src.size() + index, index, false);
        }
    }
}

MC_SCENARIO("ill-formed bytes", "every string of 1 and 2 bytes, of 3 with every first two and the third out of up to 24 (thorough: all), and of 4 behind every lead byte from 0xE0 with 12 values each, alone and between well-formed characters, in each encoding")
{
    static const uint8_t m[] { 0, 'a', 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xD7, 0xD8, 0xDB, 0xDC, 0xDF, 0xE0, 0xED, 0xF0, 0xF4, 0xF5, 0xFF };
    static const uint8_t k[] { 'a', 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xD8, 0xDC, 0xFF };
    int a = x.shard(256);
    for(int e = 0; e < 3; e++) {
        auto go = [&](const std::string& s) {
            any(x, e, s, 0, 0, s.size() < 3);
            if(s.size() < 3) for(auto& t : { std::u32string(U"a"), std::u32string(1, 0x20AC), std::u32string(1, 0x10FFFF) }) { any(x, e, encode(e, t) + s, 0, 0, false); if(x.thorough || s.size() == 1 || (s[1] & 7) % 7 == 0) any(x, e, s + encode(e, t), 0, 2, false); }
        };
        go(std::string(1, (char)a));
        for(int b = 0; b < 256; b++) {
            std::string s { (char)a, (char)b };
            go(s);
            if(x.thorough) for(int c = 0; c < 256; c++) go(s + (char)c); else for(auto c : m) { if(a >= 0xE0 || (c & 0x3F) == 0) go(s + (char)c); }
        }
        if(a >= 0xE0) for(auto b : k) for(auto c : k) for(auto d : k) go(std::string { (char)a, (char)b, (char)c, (char)d });
    }
}

MC_SCENARIO("ill-formed units", "all sequences of up to 4 (thorough 5) units out of 10 (UTF-16: at the borders of the surrogates; UTF-32: at the borders of the code points and of 32 bits), complete and cut at every byte of the last unit")
{
    static const uint32_t u16[] { 'a', 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0xFFFE, 0x20AC };
    static const uint32_t u32[] { 'a', 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFF, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0xFFFFFFFF };
    int s = x.shard(200), e = 1 + s / 100; s %= 100;
    auto* u = e == 1 ? u16 : u32; int w = e == 1 ? 2 : 4;
    std::string t; auto put = [&](uint32_t v) { for(int i = 0; i < w; i++) t += (char)(v >> (8 * i)); };
    put(u[s % 10]); put(u[s / 10]);
    int d = x.thorough ? 5 : 4;
    for(int i = 2; i < d; i++) { int c = x.choose(11); if(!c) break; put(u[c - 1]); }
    for(int cut = 0; cut < w; cut++) any(x, e, t.substr(0, t.size() - cut), 0, 0);
}

MC_SCENARIO("one error in a long text", "texts of 1..60 and around 2^9..2^12 characters of 4 kinds with one of 8 errors at every place (long ones: 9 places), in each encoding, into empty and larger buffers")
{
    static std::vector<size_t> ls; if(ls.empty()) { for(size_t i = 1; i <= 60; i++) ls.push_back(i); for(size_t b : { 511, 512, 513, 1023, 1024, 1025, 4096 }) ls.push_back(b); }
    static const char32_t ks[] { 'a', 0xE9, 0x20AC, 0x1F600 };
    static const std::vector<std::string> errs[3] {
        { "\x80", "\xC3", "\xC0\x80", "\xED\xA0\x80", "\xF4\x90\x80\x80", "\xE2\x82", "\xF0\x9F\x98", "\xFF" },
        { std::string("\x00\xD8", 2), std::string("\x00\xDC", 2), std::string("\x00\xDC\x00\xD8", 4), std::string("\xFF\xDB\x61\x00", 4), std::string("\xFF\xDF", 2), std::string("\x00\xD8\x00\xD8\x00\xDC", 6), std::string("\x00\xD8\x00\xE0", 4), std::string("\xFF\xDB\xFF\xDB", 4) },
        { std::string("\x00\xD8\x00\x00", 4), std::string("\xFF\xDF\x00\x00", 4), std::string("\x00\x00\x11\x00", 4), "\xFF\xFF\xFF\xFF", std::string("\x00\x00\x00\x80", 4), std::string("\x00\x00\x00\x01", 4), std::string("\xFF\xFF\xFF\x7F", 4), std::string("\x00\xDC\x00\x00", 4) } };
    int s = x.shard(ls.size() * 3), e = s % 3; size_t n = ls[s / 3];
    std::u32string c(1, ks[x.choose(4)]);
    size_t places = n <= 60 ? n + 1 : 9, pl = x.choose(places), at = n <= 60 ? pl : n * pl / 8;
    auto& er = errs[e][x.choose(8)];
    std::string a, b; for(size_t i = 0; i < n; i++) (i < at ? a : b) += encode(e, c);
    any(x, e, a + er + b, 0, 0, n < 20); any(x, e, a + er + b, n * 4 + 50, 3, false);
}

/* ill-formed text given to trees */
template<class C> struct Named { std::basic_string<C> s; void srl_store(StoreContext& c) const { c(s, 1); } void srl_restore(RestoreContext&) { } };
template<class C> static void into_tree(mc::X& x, const std::basic_string<C>& s)
{
    const int e = sizeof(C) == 1 ? 0 : sizeof(C) == 2 ? 1 : 2;
    std::string raw((const char*)s.data(), s.size() * sizeof(C));
    std::u32string t; bool ok = decode(e, raw, t);
    for(int f = 0; f < NumFmt; f++) {
        Tree w; w.root().insert("t", s);
        Buf b; bool threw = false;
        try { b = write(w, f); } catch(Exception&) { threw = true; }
        x.step();
        if(ok && threw) x.fail("well-formed text refused", raw);
        if(e == 0) continue;    /* UTF-8 is handed on as it is */
        if(!ok && !threw) {
            /* a format may keep the text as it is, then it has to be refused when read */
            Tree u; std::string got; bool refused = false;
            try { load(u, f, b); got = u.root().value("t").unwrap<std::string>(); } catch(Exception&) { refused = true; }
            if(!refused) x.fail("ill-formed text passed on as something else", std::string(fmt_name(f)) + " " + sh(e, 0, raw) + " became " + mc::show(got));
        }
        if(ok) { Tree u; load(u, f, b); auto got = u.root().value("t").unwrap<std::basic_string<C>>(); if(got != s) x.fail("text changed", sh(e, e, raw)); }
        /* written directly, as a value and as a name; inserted as a name */
        for(int how = 0; how < 6; how++) {
            Tree n; threw = false; b.clear();
            try {
                with(f, [&](auto& p) {
                    if(how == 0) { n.root().insert(s, 1); b = n.to_source(p); }
                    if(how == 1) n.pack(b, p, s, 1);
                    if(how == 2) n.pack(b, p, "k", ScopeWrap([&](Node& m) { m.insert(s, 1); }));
                    if(how == 3) n.pack(b, p, "t", s);
                    if(how == 4) n.pack(b, p, s, ScopeWrap([&](Node& m) { m.insert("i", 1); }));
                    if(how == 5) { Named<C> o { s }; b = n.store(o, p); }
                    return 0;
                });
            } catch(Exception&) { threw = true; }
            x.step();
            auto where = [&] { return std::string(fmt_name(f)) + " way " + std::to_string(how) + " " + sh(e, 0, raw); };
            if(ok && threw) x.fail("well-formed text refused", where());
            if(threw || s.empty()) continue;
            Tree u; std::string got; bool refused = false;
            try { load(u, f, b); auto& r = u.root(); got = how == 3 ? r.value(0).template unwrap<std::string>() : how == 2 ? r.node(0).value(0).name().unwrap() : how == 4 ? r.node(0).name().unwrap() : r.value(0).name().unwrap(); } catch(Exception&) { refused = true; }
            if(ok ? refused || got != from32(t) : !refused) x.fail(ok ? "text changed" : "ill-formed text passed on as something else", where() + " became " + mc::show(got));
        }
    }
    x.state(mc::hash(raw));
}
MC_SCENARIO("texts of trees", "all sequences of up to 3 units out of 9 (UTF-16 and UTF-32) as values and names in all formats: handed on exactly or refused")
{
    static const char16_t u16[] { 'a', 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0x20AC };
    static const char32_t u32[] { 'a', 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0xFFFFFFFF };
    int k = x.shard(18), a = k % 9, b = x.choose(10), c = b ? x.choose(10) : 0;
    if(k < 9) { std::u16string s(1, u16[a]); if(b) s += u16[b - 1]; if(c) s += u16[c - 1]; into_tree(x, s); }
    else { std::u32string s(1, u32[a]); if(b) s += u32[b - 1]; if(c) s += u32[c - 1]; into_tree(x, s); }
}

/* texts read into C++ variables */
template<class T> struct Chars { static bool fits(const std::u32string&) { return true; } T v { }; std::string raw() const { return std::string((const char*)v.data(), v.size() * sizeof(v[0])); } static const int unit = sizeof(typename T::value_type); };
template<class C, size_t N> struct Chars<C[N]> { static bool fits(const std::u32string&) { return true; } C v[N] { }; std::string raw() const { size_t n = 0; while(n < N && v[n]) n++; return std::string((const char*)v, n * sizeof(C)); } static const int unit = sizeof(C); };
template<class C> struct One { C v { }; std::string raw() const { return std::string((const char*)&v, sizeof(C)); } static const int unit = sizeof(C); };
template<class H> static void into_var(mc::X& x, Tree& t, const Buf& b, int f, int from, const std::string& raw, bool ok, const std::u32string& text, const char* what)
{
    const int e = H::unit == 1 ? 0 : H::unit == 2 ? 1 : 2;
    const bool one = std::is_same<H, One<char>>::value || std::is_same<H, One<char16_t>>::value || std::is_same<H, One<char32_t>>::value;
    auto want = ok ? encode(e, text) : "";
    for(int route = 0; route < (b.empty() ? 1 : 3); route++) {
        auto* h = new H;
        std::unique_ptr<H> own(h);
        bool threw = false;
        try {
            if(route == 0) t.root().paste_field("t", h->v);
            if(route == 1) with(f, [&](auto& p) { Tree().unpack(Lib::In::Source(b.data(), b.size()), p, "t", h->v); return 0; });
            if(route == 2) t.root().value("t").paste(h->v);
        } catch(Exception&) { threw = true; }
        x.step();
        auto where = [&] { return std::string(what) + " route " + std::to_string(route) + " " + sh(from, e, raw); };
        if(ok) {
            bool fits = !one || want.size() == (size_t)H::unit;
            if(threw == fits) x.fail(fits ? "well-formed text refused" : "text put into one character", where());
            if(fits && h->raw() != want) x.fail("text changed", where());
        } else if(e != from) {
            if(!threw) x.fail("ill-formed text passed on as something else", where() + " became " + mc::show(h->raw()));
        } else if(!threw && h->raw() != raw) x.fail("text changed", where());
    }
}
static void into_vars(mc::X& x, Tree& t, const Buf& b, int f, int from, const std::string& raw)
{
    std::u32string text; bool ok = decode(from, raw, text);
    into_var<Chars<std::string>>(x, t, b, f, from, raw, ok, text, "string");
    into_var<Chars<std::u16string>>(x, t, b, f, from, raw, ok, text, "u16string");
    into_var<Chars<std::u32string>>(x, t, b, f, from, raw, ok, text, "u32string");
    into_var<Chars<std::wstring>>(x, t, b, f, from, raw, ok, text, "wstring");
    into_var<Chars<char[40]>>(x, t, b, f, from, raw, ok, text, "char[]");
    into_var<Chars<char16_t[40]>>(x, t, b, f, from, raw, ok, text, "char16_t[]");
    into_var<Chars<char32_t[40]>>(x, t, b, f, from, raw, ok, text, "char32_t[]");
    into_var<One<char>>(x, t, b, f, from, raw, ok, text, "char");
    into_var<One<char16_t>>(x, t, b, f, from, raw, ok, text, "char16_t");
    into_var<One<char32_t>>(x, t, b, f, from, raw, ok, text, "char32_t");
}
MC_SCENARIO("texts into variables", "all texts of 1..3 (thorough 4) units out of 10 of each encoding, well-formed or not, from a tree and from documents in all formats into strings, arrays and single characters of 1, 2 and 4 bytes: exactly or refused")
{
    static const char u8[] { 'a', '\x80', '\xAC', '\xC3', '\xE2', '\x82', '\xED', '\xA0', '\xF0', '\xFF' };
    static const char16_t u16[] { 'a', 0xE9, 0x20AC, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF };
    static const char32_t u32[] { 'a', 0xE9, 0x20AC, 0xD7FF, 0xD800, 0xDFFF, 0x1F600, 0x10FFFF, 0x110000, 0xFFFFFFFF };
    int k = x.shard(300), e = k % 3; std::vector<int> us { k / 3 % 10, k / 30 };
    for(int i = 2; i < (x.thorough ? 5 : 4); i++) { int u = x.choose(11); if(!u) break; us.push_back(u - 1); }
    if(us.size() == 2 && us[1] == 0 && x.flip()) us.pop_back();     /* single ones */
    std::string raw;
    for(int u : us) { if(e == 0) raw += u8[u]; if(e == 1) raw += std::string((const char*)&u16[u], 2); if(e == 2) raw += std::string((const char*)&u32[u], 4); }
    x.state(mc::mix(mc::hash(raw), e));
    static const Encoding es[] { Encoding::UTF8, Encoding::UTF16, Encoding::UTF32 };
    auto val = Value(Lib::MemBlock((const uint8_t*)raw.data(), raw.size()), es[e]);
    { Tree t; t.root().insert("t", val); into_vars(x, t, Buf(), 0, e, raw); }
    if(e != 0) return;      /* documents are in UTF-8 */
    for(int f = 0; f < NumFmt; f++) {
        Buf b; Tree w, t;
        if(f == JsonC || f == JsonS) { auto j = "{\"t\":\"" + raw + "\"}"; b.assign(j.begin(), j.end()); }
        else { w.root().insert("t", val); b = write(w, f); }
        load(t, f, b);
        into_vars(x, t, b, f, e, raw);
    }
}

/* glibc unloads its converters when the last descriptor is closed */
static iconv_t keep[] { iconv_open("UTF-16LE", "UTF-8"), iconv_open("UTF-32LE", "UTF-8"), iconv_open("UTF-8", "UTF-16LE"), iconv_open("UTF-8", "UTF-32LE"), iconv_open("UTF-16LE", "UTF-32LE"), iconv_open("UTF-32LE", "UTF-16LE") };

int main(int argc, char** argv) { return mc::main("P23", argc, argv); }
