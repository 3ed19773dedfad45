/* Results depend on the arguments only, not on settings of the process or of the streams: locale, errno, format flags,
 * exception masks, what streams are imbued with. Nor does the library change any of these. */
#include "session.h"
#include <clocale>
#include <locale>
#include <locale.h>

/* LOCPATH holds locales compiled from the definitions of the system */
static const int Locales = 8;
static const char* locale_names[] { "C", "setlocale de_DE", "setlocale tr_TR", "setlocale ps_AF", "uselocale de_DE", "setlocale C.utf8", "std::locale::global of own punctuation", "std::locale::global de_DE" };
struct Punct : std::numpunct<char> {
    char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\1"; } std::string do_truename() const override { return "wahr"; } std::string do_falsename() const override { return "falsch"; }
};
/* letters are spaces, spaces are not */
struct Space : std::ctype<char> {
    static const mask* table() { static mask m[table_size]; static bool once = [] { for(size_t i = 0; i < table_size; i++) m[i] = i == ' ' || i == '\n' ? (mask)punct : i >= 'a' || i == '{' || i == '[' || i == '"' ? (mask)space : (mask)0; return true; }(); (void)once; return m; }
    Space() : std::ctype<char>(table()) { }
};
static std::locale own() { static std::locale l(std::locale(std::locale::classic(), new Punct), new Space); return l; }

struct Env {
    locale_t use = nullptr;
    static void must(bool ok) { if(!ok) { fprintf(stderr, "a locale is missing, LOCPATH=%s\n", getenv("LOCPATH") ? getenv("LOCPATH") : ""); _exit(78); } }
    void set(int l)
    {
        reset();
        switch(l) {
            case 1: must(setlocale(LC_ALL, "de_DE.UTF-8")); break;
            case 2: must(setlocale(LC_ALL, "tr_TR.UTF-8")); break;
            case 3: must(setlocale(LC_ALL, "ps_AF.UTF-8")); break;
            case 4: { static locale_t de = newlocale(LC_ALL_MASK, "de_DE.UTF-8", (locale_t)0); must(de); uselocale(de); break; }
            case 5: must(setlocale(LC_ALL, "C.utf8")); break;
            case 6: std::locale::global(own()); break;
            case 7: { static std::locale de("de_DE.UTF-8"); std::locale::global(de); break; }
        }
    }
    static void reset() { uselocale(LC_GLOBAL_LOCALE); if(std::locale() != std::locale::classic()) std::locale::global(std::locale::classic()); setlocale(LC_ALL, "C"); errno = 0; }
    ~Env() { reset(); }
    static std::string name() { return std::string(setlocale(LC_ALL, nullptr)) + "/" + (uselocale((locale_t)0) == LC_GLOBAL_LOCALE ? "global" : "thread") + "/" + std::locale().name(); }
};
static const int errnos[] { 0, ERANGE, E2BIG, EILSEQ, EINVAL };

/* streams */
static const int Flags = 128;
static void apply(std::ios& s, int flags, int mask)
{
    if(flags & 1) s.unsetf(std::ios::skipws);
    if(flags & 2) s.setf(std::ios::hex | std::ios::showbase, std::ios::basefield | std::ios::showbase);
    if(flags & 4) s.setf(std::ios::uppercase | std::ios::scientific | std::ios::showpos);
    if(flags & 8) s.setf(std::ios::boolalpha | std::ios::unitbuf | std::ios::left);
    if(flags & 16) { s.width(9); s.fill('*'); s.precision(1); }
    if(flags & 32) s.imbue(own());
    if(flags & 64) { static std::ostringstream tied; s.tie(&tied); }
    s.exceptions((mask & 1 ? std::ios::badbit : std::ios::goodbit) | (mask & 2 ? std::ios::failbit : std::ios::goodbit));
}
static std::string shown(std::ios& s)
{
    std::ostringstream o; o.imbue(std::locale::classic());
    o << (int)s.flags() << " " << s.width() << " " << (int)s.fill() << " " << s.precision() << " " << (s.getloc() == own()) << " " << (s.tie() != nullptr) << " " << (int)s.exceptions();
    return o.str();
}

MC_SCENARIO("settings changed between calls", "20 kinds of sessions of 4 calls; the locale during each call is C or one of 7 others (thorough: any of the 8), errno before it one of 5 values, streams with 3 kinds of settings")
{
    int sh = x.shard(Session::Kinds * Locales);
    int kind = sh % Session::Kinds, other = sh / Session::Kinds, st = x.choose(3), er = x.choose(5);
    if(x.thorough && other == 0) x.skip();
    alone(kind, N1);
    std::string what = kind_names[kind];
    Session s(kind, N1); Env e;
    std::function<void(std::ios&)> set = [st](std::ios& s) { apply(s, st == 1 ? 1 | 16 | 32 : st == 2 ? 127 : 0, st == 0 ? 0 : 3); };
    for(int i = 0; i < Session::Steps; i++) {
        int l = x.thorough ? (i == 0 ? other : x.choose(Locales)) : other && x.flip() ? other : 0;
        what += std::string(", ") + locale_names[l];
        e.set(l); auto before = Env::name();
        settings = set;
        errno = errnos[er];
        auto g = guard(s);
        settings = nullptr;
        auto after = Env::name();
        e.reset();
        if(before != after) x.fail("the library changes the locale", what + ": " + before + " to " + after);
        compare(x, kind, N1, i, g, what + ", errno " + std::to_string(errnos[er]) + ", stream settings " + std::to_string(st));
    }
    x.note("%s", what.c_str());
}

/* everything the library makes out of a text, without and with conversions which may be refused */
template<class F> static std::string attempt(F f) { try { return f(); } catch(Exception& e) { return "refused"; } }
template<class T> static std::string get(const Value& v) { return attempt([&] { T t = v.unwrap<T>(); return mc::show(&t, sizeof t); }); }
static std::string items(Node& n)
{
    std::string r;
    n.foreach_value([&](Value& v) { r += mc::show(v.name().data(), v.name().size()) + "=" + std::to_string((int)v.type()) + ":" + mc::show(v.data(), v.size()) + " "; });
    n.foreach_node([&](Node& m) { r += "{" + items(m) + "}"; });
    return r;
}
static std::string of_text(const std::string& t)
{
    auto c = Tools::str_to_type(String(t));
    std::string r = c.first ? std::to_string((int)c.second.type()) + " " + mc::show(c.second.data(), c.second.size()) : "no number";
    Value v(Lib::MemBlock((const uint8_t*)t.data(), t.size()), Encoding::UTF8);
    r += " " + get<double>(v) + " " + get<float>(v) + " " + get<int>(v) + " " + get<uint8_t>(v) + " " + get<bool>(v) + " ";
    std::string js = "[" + t + "," + t + "]", ob = "{\"" + t + "\":" + t + " ,\"" + t + "\":\"" + t + "\"}";
    for(auto& d : { js, ob }) r += attempt([&] { Tree a; PJson p; a.load_source(d.data(), d.size(), p); auto q = items(a.root()); auto b = a.to_source(PJson(false)); return q + std::string(b.begin(), b.end()); });
    return r;
}
static std::string of_number(double d, bool f)
{
    std::string r;
    for(int fm = 0; fm < NumFmt; fm++) {
        std::unique_ptr<Parser> p(objs::new_parser(fm));
        Tree a; if(f) a.root().insert("n", (float)d); else a.root().insert("n", d);
        auto b = a.to_source(*p);
        double q = 0; std::string s;
        a.unpack(b, *p, "n", q); a.unpack(b, *p, "n", s);
        r += mc::show(b) + " " + mc::show(&q, 8) + " " + s + "; ";
    }
    return r + Tools::type_to_str(f ? Value((float)d) : Value(d));
}
template<class F> static void everywhere(mc::X& x, const std::string& what, F f)
{
    Env e; e.reset();
    auto r = f(); x.state(mc::hash(r));
    for(int l = 1; l < Locales; l++) {
        e.set(l); auto before = Env::name(); std::string g;
        errno = ERANGE;
        try { g = f(); } catch(std::exception& ex) { g = std::string("exception: ") + ex.what(); }
        auto after = Env::name(); e.reset(); x.step();
        if(before != after) x.fail("the library changes the locale", what + ": " + before + " to " + after);
        if(g != r) x.fail("another result in another locale", what + ", " + locale_names[l] + ": " + mc::show(g, 1500) + "\ninstead of " + mc::show(r, 1500));
    }
}

MC_SCENARIO("texts in every locale", "all texts of 2..4 (thorough 5) pieces out of 1 0 . , - e + space ' U+066B U+00A0, converted to numbers and read as JSON literal, text and name in 8 locales, errno ERANGE before")
{
    static const char* pieces[] { "1", "0", ".", ",", "-", "e", "+", " ", "'", "\u066b", "\u00a0" };
    const int n = sizeof pieces / sizeof *pieces;
    int first = x.shard(n * n), len = 2 + x.choose(x.thorough ? 4 : 3);
    std::string t = std::string(pieces[first / n]) + pieces[first % n];
    for(int i = 2; i < len; i++) t += pieces[x.choose(n)];
    x.note("%s", mc::show(t).c_str());
    everywhere(x, mc::show(t), [&] { return of_text(t); });
}

MC_SCENARIO("literals in every locale", "all spellings in upper and lower case of true, false, null, nan, inf, infinity, with the dotted and dotless i, in 8 locales")
{
    static const char* words[] { "true", "false", "null", "nan", "inf", "infinity" };
    int sh = x.shard(6); std::string t;
    for(const char* c = words[sh]; *c; c++) {
        if(*c == 'i') { static const char* is[] { "i", "I", "\u0130", "\u0131" }; t += is[x.choose(x.thorough ? 4 : 3)]; }
        else t += x.flip() ? *c - 32 : *c;
    }
    x.note("%s", t.c_str());
    everywhere(x, t, [&] { return of_text(t); });
}

MC_SCENARIO("numbers in every locale", "doubles of every binary exponent with 6 mantissas (thorough: 40) and all m * 10^e with m of up to 3 digits, |e| <= 25, as double and float: written and read in all formats, and as text")
{
    int sh = x.shard(2047 + 51);
    double d;
    if(sh < 2047) {
        uint64_t m = x.choose(x.thorough ? 40 : 6), b;
        static const uint64_t ms[] { 0, 1, 0x8000000000000, 0xfffffffffffff, 0x999999999999a, 0x1234567890abc };
        b = (uint64_t)sh << 52 | (m < 6 ? ms[m] : (m * 0x9e3779b97f4a7c15ull) >> 12);
        memcpy(&d, &b, 8);
    } else {
        int m = 1 + x.choose(999); if(!x.thorough && m > 30 && m % 10) x.skip();
        d = strtod((std::to_string(m) + "e" + std::to_string(sh - 2047 - 25)).c_str(), nullptr);
    }
    bool f = x.flip(); if(f && std::isinf((float)d)) x.skip();
    x.note("%a %d", d, f);
    everywhere(x, mc::show(&d, 8), [&] { return of_number(f ? -d : d, f); });
}

/* documents for streams */
static const int Docs = 5;
static Buf document(int k, int f)
{
    Tree t; auto& r = t.root();
    switch(k) {
        case 0: break;
        case 1: r.insert("a", 1, "b", 2.5, "c", std::string(" text with spaces "), "d", true); break;
        case 2: r.insert("a", ScopeWrap([](Node& n) { for(int i = 0; i < 300; i++) n.insert("x", i * 1.5, "y", std::string("\n\t  x y")); })); break;
        case 3: r.insert("n", std::string(1024, ' '), "m", std::string(2000, 'a')); break;
        case 4: r.insert("bytes", Bytes(std::vector<uint8_t>(1500, ' ')), "z", nullptr); break;
    }
    std::unique_ptr<Parser> p(objs::new_parser(f));
    return t.to_source(*p);
}
MC_SCENARIO("settings of input streams", "5 documents, complete, cut or followed by spaces, 4 formats, at the start or behind other data, delivered in 3 ways; all combinations (quick, but for one document: each alone, none and all) of 7 groups of flags (no skipping of spaces, number bases, width, imbued locale, tie ...) and exception masks of bad and fail")
{
    int sh = x.shard(Docs * NumFmt);
    static const int some[] { 0, 1, 2, 4, 8, 16, 32, 64, 127 };
    int k = sh / NumFmt, f = sh % NumFmt, fl = x.thorough || k == 1 ? x.choose(Flags) : some[x.choose(9)], mask = x.choose(4), cut = x.choose(4), before = x.flip() * 5, del = x.choose(3);
    Buf d = document(k, f); auto whole = d;
    if(cut == 1) d.resize(d.size() / 2);
    if(cut == 2) d.resize(d.size() - 1);
    if(cut == 3) { if(f == Msg || f == SrlF) x.skip(); d.insert(d.end(), 40, ' '); }
    bool valid = cut == 0 || cut == 3;
    Buf in(before, '\n'); in.insert(in.end(), d.begin(), d.end());
    static const std::vector<size_t> ways[] { { }, { 1 }, { 1000, 24, 7 } };
    std::unique_ptr<Parser> p(objs::new_parser(f));
    Tree t; ChunkStream s(in, ways[del]);
    for(int i = 0; i < before; i++) s.get();
    apply(s, fl, mask);
    auto set = shown(s);
    x.note("document %d, format %s, flags %d, exceptions %d, %s, %d bytes before, delivery %d", k, fmt_name(f), fl, mask, cut == 0 ? "complete" : cut == 3 ? "spaces behind" : "cut", before, del);
    std::string got;
    try { t.load_source(s, *p); got = items(t.root()); } catch(Exception& e) { got = "refused"; } catch(std::ios::failure& e) { got = std::string("failure of the stream: ") + e.what(); }
    x.step();
    Tree u; std::string want = "refused";
    if(valid) { std::unique_ptr<Parser> q(objs::new_parser(f)); u.load_source(whole, *q); want = items(u.root()); }
    x.state(mc::mix(mc::hash(got), sh));
    if(got != want) x.fail("settings of an input stream matter", mc::show(got, 800) + "\ninstead of " + mc::show(want, 800));
    if(shown(s) != set) x.fail("the library changes settings of a stream", set + " to " + shown(s));
    if(s.bad() || s.fail()) x.fail("a stream has failed though reading did not", got.substr(0, 100));
}

MC_SCENARIO("settings of output streams", "5 documents, 4 formats, at the start or behind other data; all combinations of 7 groups of flags and exception masks of bad and fail; written by to_source, store and pack")
{
    int sh = x.shard(Docs * NumFmt);
    int k = sh / NumFmt, f = sh % NumFmt, fl = x.choose(Flags), mask = x.choose(4), before = x.flip() * 5, way = x.choose(3);
    Buf d = document(k, f);
    std::unique_ptr<Parser> p(objs::new_parser(f)), q(objs::new_parser(f));
    std::ostringstream s; for(int i = 0; i < before; i++) s << '\n';
    apply(s, fl, mask);
    auto set = shown(s);
    x.note("document %d, format %s, flags %d, exceptions %d, %d bytes before, way %d", k, fmt_name(f), fl, mask, before, way);
    Tree t, u; t.load_source(d, *q);
    Buf want;
    Obj o; fill(o, k + 2);
    if(way == 0) { t.to_source(s, *p); want = d; }
    if(way == 1) { u.store(o, s, *p); want = Tree().store(o, *q); }
    if(way == 2) { u.pack(s, *p, "k", k, "d", 0.1 * k, "t", std::string(k * 600, ' ')); Tree().pack(want, *q, "k", k, "d", 0.1 * k, "t", std::string(k * 600, ' ')); }
    x.step(2);
    auto str = s.str(); x.state(mc::hash(str));
    if(str != std::string(before, '\n') + std::string(want.begin(), want.end())) x.fail("settings of an output stream matter", mc::show(str, 800) + "\ninstead of " + mc::show(want, 800));
    if(shown(s) != set) x.fail("the library changes settings of a stream", set + " to " + shown(s));
    if(!s.good()) x.fail("a stream has failed though writing did not", "");
}
int main(int argc, char** argv) { return mc::main("P28", argc, argv); }
