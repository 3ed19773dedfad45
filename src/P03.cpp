#include "gen.h"

using namespace doc;
typedef std::u32string S32;

template<class C> static std::basic_string<C> enc(const S32& s)
{
    if constexpr(sizeof(C) == 1) return from32(s);
    else if constexpr(sizeof(C) == 2) return to16(s);
    else return std::basic_string<C>(s.begin(), s.end());
}

static std::string sh(const S32& s) { return "'" + mc::show(from32(s)) + "'"; }

template<class C> static void same_text(mc::X& x, const S32& e, const std::basic_string<C>& g, int f, const char* what)
{
    x.step();
    if(enc<C>(e) != g) x.fail(std::string("text changed: ") + fmt_name(f), std::string(what) + " read as UTF-" + std::to_string(8 * sizeof(C)) + ": " + sh(e) + " became bytes " + mc::show(g.data(), g.size() * sizeof(C)));
}

template<class C> static void vectors(mc::X& x, const std::vector<S32>& v, int f, const Buf& stored)
{
    std::vector<std::basic_string<C>> o;
    with(f, [&](auto& p) { Srl::Tree().restore(o, stored, p); return 0; });
    if(o.size() != v.size()) x.fail("number of texts changed");
    for(size_t i = 0; i < v.size(); i++) same_text(x, v[i], o[i], f, "restored element");
}

/* texts as values of an array, values with names which are these texts, and as a stored vector */
template<class C> static void texts(mc::X& x, const std::vector<S32>& v, bool names = true)
{
    std::vector<std::basic_string<C>> in;
    for(auto& s : v) in.push_back(enc<C>(s));
    Srl::Tree t(Srl::Type::Array), n;
    for(auto& s : in) t.root().insert("", s);
    if(names) for(size_t i = 0; i < in.size(); i++) n.root().insert(in[i], (int)i);
    for(int f = 0; f < NumFmt; f++) {
        const char* at = "write";
        try {
            auto b = write(t, f);
            x.state(mc::hash(b));
            Srl::Tree u;
            at = "load";
            load(u, f, b);
            if(u.root().num_values() != v.size()) x.fail("number of texts changed");
            size_t i = 0;
            at = "read";
            u.root().foreach_value([&](Srl::Value& val) {
                same_text(x, v[i], val.unwrap<std::string>(), f, "value");
                same_text(x, v[i], val.unwrap<std::u16string>(), f, "value");
                same_text(x, v[i], val.unwrap<std::u32string>(), f, "value");
                i++;
            });
            at = "store";
            auto s = with(f, [&](auto& p) { return Srl::Tree().store(in, p); });
            at = "restore";
            vectors<char>(x, v, f, s); vectors<char16_t>(x, v, f, s); vectors<char32_t>(x, v, f, s);
            if(!names) continue;
            at = "names";
            b = write(n, f);
            Srl::Tree m;
            load(m, f, b);
            if(m.root().num_values() != v.size()) x.fail("number of names changed");
            i = 0;
            m.root().foreach_value([&](Srl::Value& val) {
                same_text(x, v[i], val.name().unwrap<char>(), f, "name");
                if(val.unwrap<int>() != (int)i) x.fail("value of a name changed");
                i++;
            });
        } catch(Srl::Exception& e) {
            x.fail(std::string("text refused: ") + fmt_name(f), std::string(at) + " " + (v.size() < 4 ? sh(v[0]) : "") + e.what());
        }
    }
}

static void texts_as(mc::X& x, const std::vector<S32>& v, int e, bool names = true)
{
    if(e == 0) texts<char>(x, v, names);
    else if(e == 1) texts<char16_t>(x, v, names);
    else texts<char32_t>(x, v, names);
}

MC_SCENARIO("code points", "every Unicode code point (quick: of planes 0 and 1, of the others every 16th block of 256 and the last block) as a text and as a field name, given in every encoding, in every format, read in every encoding")
{
    const int chunk = 256;
    int s = x.shard(0x110000 / chunk);
    if(!x.thorough && s >= 0x200 && s % 16 != 0 && s % 256 != 255) x.skip();
    std::vector<S32> v;
    for(uint32_t c = s * chunk; c < (uint32_t)(s + 1) * chunk; c++) if(c < 0xD800 || c > 0xDFFF) v.push_back(S32(1, c));
    if(v.empty()) return;
    texts_as(x, v, x.choose(3));
}

template<class C> static void single_chars(mc::X& x, uint32_t lo, uint32_t hi)
{
    Srl::Tree t(Srl::Type::Array);
    std::vector<C> in;
    for(uint32_t c = lo; c < hi; c++) if(c < 0xD800 || c > 0xDFFF) { C k = (C)c; in.push_back(k); t.root().insert("", k); }
    for(int f = 0; f < NumFmt; f++) {
        Srl::Tree u;
        load(u, f, write(t, f));
        for(size_t i = 0; i < in.size(); i++) {
            x.step();
            if(u.root().unwrap_field<C>(i) != in[i]) x.fail(std::string("character changed: ") + fmt_name(f), std::to_string((uint32_t)in[i]));
        }
        x.state(mc::hash(in.data(), in.size() * sizeof(C)) + f);
    }
}

MC_SCENARIO("single characters", "every char16_t and char32_t code point and every ASCII char (quick: char32_t of planes 0 and 1 and a 16th of the others) stored and restored as a single character")
{
    int s = x.shard(1 + 128 + 2176);
    if(!x.thorough && s > 129 + 256 && s % 16 != 1) x.skip();
    if(s == 0) single_chars<char>(x, 0, 128);
    else if(s < 129) single_chars<char16_t>(x, (s - 1) * 512, s * 512);
    else single_chars<char32_t>(x, (s - 129) * 512, (s - 128) * 512);
}

MC_SCENARIO("short strings", "all strings of up to 4 (thorough: 5) characters over quote, backslash, slash, line feed, NUL, a, u, U+E9, U+10FFFF, U+1F, U+FFFF, as value and name, given in all encodings")
{
    static const char32_t a[] { '"', '\\', '/', '\n', 0, 'a', 'u', 0xE9, 0x10FFFF, 0x1F, 0xFFFF };
    const int N = 11;
    int s = x.shard(N * N + N + 1);
    std::vector<S32> v;
    S32 p;
    if(s >= N * N + N) { v = { S32() }; }
    else if(s >= N * N) { v = { S32(1, a[s - N * N]) }; }
    else {
        p += a[s / N]; p += a[s % N];
        v.push_back(p);
        int max = x.thorough ? 5 : 4;
        std::function<void(S32)> rec = [&](S32 q) { if((int)q.size() >= max) return; for(auto c : a) { v.push_back(q + c); rec(q + c); } };
        rec(p);
    }
    texts_as(x, v, x.choose(3));
}

MC_SCENARIO("lengths", "every length 0..100 and around every storage/encoding/buffer boundary up to 2^16 units (thorough: 0..2000, 2^20), of ASCII, 2-, 3- and 4-byte characters and a mix, one character of another kind at the end or in the middle, all encodings")
{
    static const auto ls = gen::lengths(x.thorough ? 2000 : 100, x.thorough ? (1 << 20) + 2 : 65538);
    size_t n = ls[x.shard(ls.size())];
    static const char32_t cs[] { 'a', 0xE9, 0x20AC, 0x1F600, '"' };
    char32_t c = cs[x.choose(5)];
    S32 s(n, c);
    int tail = x.choose(3);
    if(tail == 1 && n) s[n - 1] = c == '"' ? 'b' : '\\';
    if(tail == 2 && n) s[n / 2] = 0x10000;
    texts_as(x, { s }, x.choose(3), n < 70000);
}

/* fixed size arrays *****************************************************************************/

template<class C, size_t N> struct Guarded { C before[3]; C a[N]; C after[3]; };

template<class C, size_t N> static void into_array(mc::X& x, const S32& s, int from)
{
    auto e = enc<C>(s);
    bool fits = e.size() <= N - 1;
    Srl::Tree t;
    if(from == 0) t.root().insert("s", enc<char>(s)); else if(from == 1) t.root().insert("s", enc<char16_t>(s)); else t.root().insert("s", enc<char32_t>(s));
    for(int f = -1; f < NumFmt; f++) {
        Guarded<C, N> g;
        std::fill((C*)&g, (C*)(&g + 1), (C)0x5A);
        auto* h = new Guarded<C, N>(g);
        std::unique_ptr<Guarded<C, N>> own(h);
        Srl::Tree u;
        bool ok = true;
        try {
            if(f >= 0) { load(u, f, write(t, f)); u.root().paste_field("s", h->a); }
            else t.root().paste_field("s", h->a);
        } catch(Srl::Exception&) { ok = false; }
        x.step();
        for(auto& q : { h->before, h->after }) for(int i = 0; i < 3; i++) if(q[i] != (C)0x5A) x.fail("write outside the array", sh(s));
        if(ok != fits) x.fail(ok ? "text too long for the array accepted" : "text fitting the array refused", sh(s) + " into " + std::to_string(N) + " units of " + std::to_string(sizeof(C)));
        if(ok && (memcmp(h->a, e.data(), e.size() * sizeof(C)) || h->a[e.size()] != 0)) x.fail("text in array differs", sh(s) + " in " + std::to_string(N) + " units of " + std::to_string(sizeof(C)));
    }
}

template<class C, size_t N> static void from_array(mc::X& x, const S32& s)
{
    auto e = enc<C>(s);
    auto* p = new std::array<C, N>();
    std::unique_ptr<std::array<C, N>> own(p);
    C (&a)[N] = *(C(*)[N])p;
    size_t n = std::min(e.size(), N - 1);
    for(size_t i = 0; i < n; i++) a[i] = e[i];
    if(n < N - 1) { a[n] = 0; for(size_t i = n + 1; i < N; i++) a[i] = 'z'; }
    /* cut at a character of several units: not text */
    if(n < e.size()) return;
    Srl::Tree t;
    t.root().insert("s", a);
    for(size_t i = 0; i < N; i++) a[i] = 'y';
    for(int f = 0; f < NumFmt; f++) {
        Srl::Tree u;
        load(u, f, write(t, f));
        same_text(x, s, u.root().unwrap_field<std::string>("s"), f, "from array");
    }
}

template<class C, size_t N> struct Sizes {
    static void run(mc::X& x, size_t n, const S32& s, int from)
    {
        if(n == N) { into_array<C, N>(x, s, from); from_array<C, N>(x, s); }
        else if constexpr(N > 1) Sizes<C, N - 1>::run(x, n, s, from);
    }
};

MC_SCENARIO("arrays", "character arrays of 1..14 units of 1, 2, 4 bytes filled with texts of 0..15 characters whose last character takes 1 to 4 units, from every encoding and format, with guards around the array; also as source")
{
    size_t n = 1 + x.shard(14);
    int unit = x.choose(3);
    size_t len = x.choose(16);
    static const char32_t cs[] { 'a', 0xE9, 0x20AC, 0x1F600 };
    char32_t c = cs[x.choose(4)];
    S32 s(len, 'x');
    if(len) s[len - 1] = c;
    if(len > 1 && x.flip()) s[0] = c;
    int from = x.choose(3);
    if(unit == 0) Sizes<char, 14>::run(x, n, s, from);
    else if(unit == 1) Sizes<char16_t, 14>::run(x, n, s, from);
    else Sizes<char32_t, 14>::run(x, n, s, from);
    x.state(mc::hash(s.data(), s.size() * 4) + n);
}

template<class C> static void array_vs_char(mc::X& x, const S32& s, bool single_ok)
{
    Srl::Tree t;
    t.root().insert("s", s);
    for(int f = -1; f < NumFmt; f++) {
        C g[3] { (C)0x5A, (C)0x5A, (C)0x5A };
        bool ok = true;
        try {
            if(f < 0) t.root().paste_field("s", g[1]);
            else { Srl::Tree u; load(u, f, write(t, f)); u.root().paste_field("s", g[1]); }
        } catch(Srl::Exception&) { ok = false; }
        x.step();
        if(g[0] != (C)0x5A || g[2] != (C)0x5A) x.fail("write outside the character", sh(s));
        if(ok != single_ok) x.fail(ok ? "text accepted as single character" : "single character refused", sh(s));
        if(ok && g[1] != enc<C>(s)[0]) x.fail("character differs", sh(s));
    }
}

MC_SCENARIO("text into one character", "all texts of 0..3 characters over a, U+E9, U+20AC, U+1F600 restored into a single character of 1, 2, 4 bytes")
{
    static const char32_t cs[] { 'a', 0xE9, 0x20AC, 0x1F600 };
    int n = x.shard(4);
    S32 s;
    for(int i = 0; i < n; i++) s += cs[x.choose(4)];
    array_vs_char<char>(x, s, enc<char>(s).size() == 1);
    array_vs_char<char16_t>(x, s, enc<char16_t>(s).size() == 1);
    array_vs_char<char32_t>(x, s, s.size() == 1);
    x.state(mc::hash(s.data(), s.size() * 4));
}

MC_SCENARIO("literals as text", "every literal kind restored as text in every encoding")
{
    struct L { std::function<void(Srl::Node&)> in; std::string text; };
    static const std::vector<L> ls {
        { [](Srl::Node& n) { n.insert("v", true); }, "true" }, { [](Srl::Node& n) { n.insert("v", false); }, "false" },
        { [](Srl::Node& n) { n.insert("v", 0); }, "0" }, { [](Srl::Node& n) { n.insert("v", -128); }, "-128" },
        { [](Srl::Node& n) { n.insert("v", INT64_MIN); }, "-9223372036854775808" }, { [](Srl::Node& n) { n.insert("v", UINT64_MAX); }, "18446744073709551615" },
        { [](Srl::Node& n) { n.insert("v", 0.5); }, "0.5" }, { [](Srl::Node& n) { n.insert("v", -1.25); }, "-1.25" } };
    auto& l = ls[x.shard(ls.size())];
    int f = x.choose(NumFmt);
    Srl::Tree t, u;
    l.in(t.root());
    load(u, f, write(t, f));
    auto s = to32(l.text);
    same_text(x, s, u.root().unwrap_field<std::string>("v"), f, "literal");
    same_text(x, s, u.root().unwrap_field<std::u16string>("v"), f, "literal");
    same_text(x, s, u.root().unwrap_field<std::u32string>("v"), f, "literal");
    x.state(mc::hash(l.text) + f);
}

int main(int argc, char** argv) { return mc::main("P03", argc, argv); }
