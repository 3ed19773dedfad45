#include "gen.h"
#include "stream.h"

using namespace doc;

static Buf buf(const std::string& s) { return Buf(s.begin(), s.end()); }

/* the text is valid: the library must read what the reference reads */
static void agree(mc::X& x, const std::string& s, const Doc& e, bool stream = false)
{
    x.step();
    Srl::Tree t;
    try {
        auto b = buf(s);
        if(stream) { ChunkStream cs(b, { 1, 2, 5 }); load(t, JsonC, cs); }
        else { Exact ex(s); Srl::PJson p; t.load_source(ex.p, ex.n, p); }
    } catch(Srl::Exception& ex) {
        x.fail("valid JSON refused", mc::show(s, 500) + "\n" + ex.what());
    }
    auto g = extract(t.root());
    x.state(hash(g));
    auto df = diff(e, g, false);
    if(!df.empty()) x.fail("JSON read as another document", df + "\n" + mc::show(s, 500) + "\nread as " + show(g));
}
static void agree(mc::X& x, const std::string& s, bool comments = false, bool stream = false)
{
    Json r(s); r.comments = comments;
    Doc e;
    if(!r.parse(e)) { fprintf(stderr, "harness: not valid: %s: %s\n", s.c_str(), r.err.c_str()); _exit(77); }
    agree(x, s, e, stream);
}

/* all token sequences **************************************************************************/

MC_SCENARIO("token sequences", "all valid texts of up to 11 (thorough: 13) tokens over { } [ ] , : \"\" \"a\" 1 -2.5 null true with a root scope; memory and stream")
{
    static const std::vector<std::string> values { "\"\"", "\"a\"", "1", "-2.5", "null", "true" };
    int max = x.thorough ? 13 : 11;
    int s = x.shard(2 * 9);
    std::string text, stack;
    int n = 0;
    /* what: 0 value or end, 1 value, 2 comma or end, 3 name or end, 4 name, 5 colon */
    std::function<void(int)> rec;
    auto put = [&](const std::string& tok, int next, bool push, bool pop) {
        /* tokens still needed to close */
        if(n + 1 + (int)stack.size() + push - pop > max) return;
        auto keep = text.size(); auto ks = stack;
        text += tok; n++;
        if(push) stack += tok[0]; if(pop) stack.pop_back();
        if(stack.empty()) { agree(x, text); agree(x, text, false, true); } else rec(next);
        text.resize(keep); stack = ks; n--;
    };
    int fixed = s / 2;  /* second token */
    rec = [&](int what) {
        bool obj = stack.back() == '{';
        int k = 0;
        auto opt = [&](const std::string& tok, int next, bool push, bool pop) { if(n != 1 || k == fixed) put(tok, next, push, pop); k++; };
        if(what == 0 || what == 2 || what == 3) opt(obj ? "}" : "]", 2, false, true);
        if(what == 0 || what == 1) { for(auto& v : values) opt(v, 2, false, false); opt("{", 3, true, false); opt("[", 0, true, false); }
        if(what == 2) opt(",", obj ? 4 : 1, false, false);
        if(what == 3 || what == 4) for(auto v : { "\"\"", "\"a\"" }) opt(v, 5, false, false);
        if(what == 5) opt(":", 1, false, false);
    };
    auto open = [&](char c) { text = std::string(1, c); stack = text; n = 1; rec(c == '{' ? 3 : 0); };
    open(s % 2 ? '{' : '[');
}

/* spaces and comments **************************************************************************/

static const std::vector<std::vector<std::string>>& templates()
{
    static const std::vector<std::vector<std::string>> v {
        { "{", "}" }, { "[", "]" }, { "{", "\"a\"", ":", "1", "}" }, { "[", "1", "]" }, { "[", "1", ",", "-2.5e1", "]" }, { "[", "\"x\"", ",", "null", "]" }, { "[", "true", ",", "false", "]" },
        { "{", "\"a\"", ":", "\"b\"", ",", "\"\"", ":", "null", "}" }, { "[", "[", "]", ",", "{", "}", "]" }, { "{", "\"n\"", ":", "{", "\"m\"", ":", "[", "1", "]", "}", "}" },
        { "[", "{", "\"a\"", ":", "true", "}", ",", "0", "]" }, { "{", "\"/*\"", ":", "\"*/\"", ",", "\"//\"", ":", "\"/\"", "}" }, { "{", "\"a\"", ":", "12345678901234567890", ",", "\"b\"", ":", "[", "]", ",", "\"c\"", ":", "-0", "}" } };
    return v;
}
static const std::vector<std::string>& spaces()
{
    static const std::vector<std::string> v { " ", "\n", "\t", "\r", "\r\n \t", "/**/", "/* c */", "//\n", "// c\n", "/***/", "/* * / */", "/*\"*/", "//\"\n", "/*{[*/", "// ]}\n", "/*//*/", "///*\n", "/* x */ // y\n /* z */", "/*\n*/", "// c\r\n", "/*,*/", "//:\n", "/*\\*/", "//\\\n", " /**//**/ ", "/*****/", "//*/\n", "/*/ */", "//\r", "// c\r", "//\"\r\n", "// a\r// b\n", "/*\r*/" };
    return v;
}

MC_SCENARIO("spaces and comments", "33 kinds of space and comment at every pair of gaps (including none) of 13 documents covering every token pair, memory and stream")
{
    auto& t = templates()[x.shard(templates().size())];
    size_t g1 = x.choose(t.size() + 1), g2 = x.choose(t.size() + 1);
    if(g2 < g1) x.skip();
    auto& s1 = x.pick(spaces());
    auto& s2 = g1 == g2 ? s1 : x.pick(spaces());
    std::string s, plain;
    for(size_t i = 0; i <= t.size(); i++) {
        /* nothing is read behind the root scope, nothing but space stands before it */
        if(i == g1) s += s1; else if(i == g2) s += s2;
        if(i < t.size()) { s += t[i]; plain += t[i]; }
    }
    Json r(plain); Doc e; r.parse(e);
    agree(x, s, e); agree(x, s, e, true);
}

MC_SCENARIO("comment bodies", "all comments of up to 5 (thorough: 7) characters over * / space a \" \\ newline, block and line (ended by line feed or carriage return), between two elements and inside an object")
{
    static const std::string al = "*/ a\"\\\n";
    int s = x.shard(2 * 2 * (int)(al.size() + 1));
    bool line = s & 1, obj = s & 2;
    int first = s / 4;
    int max = x.thorough ? 7 : 5;
    std::string body;
    Doc ea(true), eo;
    ea.v("", Val::i32(1)).v("", Val::i32(2)); eo.v("a", Val::i32(1)).v("b", Val::i32(2));
    auto run = [&] {
        std::string c = line ? "//" + body + (body.size() & 1 ? "\r" : "\n") : "/*" + body + "*/";
        auto t = obj ? "{\"a\":1" + c + "," + c + "\"b\"" + c + ":2}" : "[1," + c + "2" + c + "]";
        agree(x, t, obj ? eo : ea);
        if(body.size() <= 4) agree(x, t, obj ? eo : ea, true);
    };
    std::function<void()> rec = [&] {
        /* the body must not end the comment itself */
        if(line ? body.find('\n') != body.npos : ("" + body + "*/").find("*/") < body.size()) return;
        run();
        if((int)body.size() >= max) return;
        for(char c : al) { body += c; rec(); body.pop_back(); }
    };
    if(first == (int)al.size()) { run(); return; }
    body = std::string(1, al[first]);
    rec();
}

/* strings **************************************************************************************/

static std::string u4(uint32_t u, int style)
{
    char b[8];
    snprintf(b, sizeof b, style == 1 ? "%04X" : "%04x", u);
    if(style == 2) for(int i = 0; i < 4; i += 2) b[i] = toupper(b[i]);
    return std::string("\\u") + b;
}

MC_SCENARIO("escaped code units", "all 65536 \\u escapes but lone surrogates, in three letter cases, as text alone, between other characters, and as name")
{
    int s = x.shard(256);
    for(int k = 0; k < 256; k++) {
        uint32_t u = s * 256 + k;
        if(u >= 0xD800 && u < 0xE000) continue;
        for(int style = 0; style < 3; style++) {
            auto e = u4(u, style);
            agree(x, "[\"" + e + "\",\"x" + e + "y\"]");
            if(style == k % 3) agree(x, "{\"" + e + "\":\"a\xc3\xa9" + e + e + "\",\"p" + e + "\":1}");
            if(u % 64 == 5) agree(x, "[\"" + e + "\",\"x" + e + "y\"]", false, true);
        }
    }
}

MC_SCENARIO("surrogate pairs", "every high surrogate with 24 low ones and 24 high with every low one (thorough: all 1048576 pairs), as text, between characters and as name")
{
    static const std::vector<int> some { 0, 1, 2, 3, 7, 8, 15, 16, 63, 64, 127, 128, 255, 256, 511, 512, 767, 768, 1000, 1008, 1020, 1021, 1022, 1023 };
    int h = x.shard(1024);
    bool few = std::count(some.begin(), some.end(), h);
    for(int l = 0; l < 1024; l++) {
        if(!x.thorough && !few && !std::count(some.begin(), some.end(), l)) continue;
        auto e = u4(0xD800 + h, l % 3) + u4(0xDC00 + l, (l + h) % 3);
        if(l % 2) agree(x, "[\"" + e + "\",\"" + e + e + "\\u0041\",\"x" + e + "y\"]");
        else agree(x, "{\"" + e + "\":\"" + e + "\"}");
    }
}

MC_SCENARIO("string pieces", "all strings of up to 4 (thorough: 5) pieces out of 22: plain characters, every escape, code points of 1 to 4 bytes raw and escaped, quotes and comment starts; as value, as name and behind a name")
{
    static const std::vector<std::string> ps { "a", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0000", "\\u00e9", "\\u20AC", "\\ud83d\\ude00", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "/", "//", "/*", "u0041", " ", "\x7f" };
    int N = ps.size();
    int s = x.shard(N * N);
    std::vector<int> v { s % N, s / N };
    int max = x.thorough ? 5 : 4;
    std::function<void(std::string, int)> rec = [&](std::string t, int n) {
        agree(x, "[\"" + t + "\"]");
        if(n <= 3) { agree(x, "{\"" + t + "\":\"" + t + "\",\"b\":1}"); agree(x, "{\"" + t + "\":\"" + t + "\",\"b\":1}", false, true); }
        if(n < max) for(auto& p : ps) rec(t + p, n + 1);
    };
    if(s == 0) { agree(x, "[\"\"]"); for(auto& p : ps) agree(x, "{\"" + p + "\":\"" + p + "\"}"); }
    rec(ps[v[0]] + ps[v[1]], 2);
}

MC_SCENARIO("raw code points", "every Unicode code point which may stand unescaped in a string, singly, as value and name (quick: in groups of 16 and every 37th singly)")
{
    int s = x.shard(0x1100);
    std::string group;
    for(int k = 0; k < 256; k++) {
        uint32_t c = s * 256 + k;
        if(c < 0x20 || c == '"' || c == '\\' || (c >= 0xD800 && c < 0xE000)) continue;
        auto u = utf8(c);
        group += u;
        if(x.thorough || c % 37 == 0) agree(x, "{\"" + u + "\":\"" + u + "\",\"x" + u + "y\":\"z" + u + "\"}");
        if(k % 16 == 15) { agree(x, "[\"" + group + "\"]"); group.clear(); }
    }
}

/* numbers **************************************************************************************/

MC_SCENARIO("number spellings", "all valid numbers of up to 8 (thorough: 9) characters over 0 1 5 9 - + . e E, alone, before each terminator and at the end of an array or object")
{
    static const std::string al = "0159-+.eE";
    int N = al.size();
    int s = x.shard(N * N);
    std::string t { al[s / N], al[s % N] };
    size_t max = x.thorough ? 9 : 8;
    auto valid = [](const std::string& t) { std::string w = t; Json j(w); Val v; return w.size() && j.number(v) && j.i == w.size(); };
    std::function<void()> rec = [&] {
        if(valid(t)) {
            /* beyond the range of doubles is not specified */
            if(std::fabs(strtod(t.c_str(), nullptr)) < 1e308) {
                agree(x, "[" + t + "]");
                if(t.size() < 6) for(auto q : { "[%,1]", "{\"a\":%}", "[%\n]", "[%\t,%]", "[%/**/]", "{\"a\":%//\n}" }) {
                    std::string d; for(const char* c = q; *c; c++) if(*c == '%') d += t; else d += *c;
                    agree(x, d, true); agree(x, d, true, true);
                }
            }
        }
        if(t.size() >= max) return;
        for(char c : al) { t.push_back(c); rec(); t.pop_back(); }
    };
    if(s < N && valid(t.substr(0, 1))) agree(x, "[" + t.substr(0, 1) + "]");
    rec();
}

MC_SCENARIO("integers", "all integers within 40 of 0, of every power of two and ten and of the limits of all types, both signs; up to 64 bits exact, beyond as nearest double")
{
    int s = x.shard(66 + 26);
    I base = s < 66 ? (I)1 << s : 1;
    for(int i = 66; i < s; i++) base *= 10;
    if(s == 0) base = 0;
    for(int d = -40; d <= 40; d++) for(int sign = 0; sign < 2; sign++) {
        I v = base + d; if(sign) v = -v;
        auto t = i2s(v);
        agree(x, "[" + t + "]"); agree(x, "{\"a\":" + t + ",\"b\":[" + t + "]}", false, d % 8 == 0);
        if(v > -1000000000000000ll && v < 1000000000000000ll) { agree(x, "[" + t + ".0]"); agree(x, "[" + t + "e0]"); agree(x, "[" + t + "E+2]"); agree(x, "[" + t + ".25e-3]"); }
    }
}

MC_SCENARIO("decimals", "doubles at and beside the midpoints between neighbours: 64 mantissa patterns x every 8th binary exponent (thorough: every), decimal spellings with 17, 18, 20, 25, 40 digits and the exact midpoint")
{
    int s = x.shard(2046 / 8);
    for(int q = 0; q < 8; q++) {
        if(!x.thorough && q) break;
        uint64_t exp = 1 + s * 8 + q;
        for(int m = 0; m < 64; m++) {
            uint64_t man = m < 52 ? (1ull << m) - (m % 3 == 1) : m * 0x5DEECE66Dull * 0x9E3779B9ull;
            uint64_t bits = exp << 52 | (man & 0xFFFFFFFFFFFFFull);
            double d; memcpy(&d, &bits, 8);
            char b[1200];
            static const int digits[] { 17, 18, 20, 25, 40 };
            for(int g : digits) { snprintf(b, sizeof b, "[%.*e]", g - 1, d); agree(x, b); }
            if(exp > 1000 && exp < 1100) {
                /* the exact midpoint to the next double, and a little more or less: long spelling */
                long double mid = ((long double)d + (long double)std::nextafter(d, INFINITY)) / 2;
                snprintf(b, sizeof b, "[%.80Le]", mid); agree(x, b);
                snprintf(b, sizeof b, "[%.60Lf]", mid); if(strlen(b) < 120) agree(x, b);
            }
        }
    }
}

MC_SCENARIO("repeated names and sizes", "objects with 1..40 fields over 1..3 names, arrays of 0..300 and around 1024 elements of 6 kinds, nesting of 1..128 scopes of all mixed kinds by period")
{
    int s = x.shard(130);
    int kind = x.choose(8);
    std::string t;
    if(kind < 6) {
        static const char* vs[] { "1", "\"s\"", "null", "[]", "{\"a\":[1]}", "-1.5e3" };
        int n = s < 120 ? s * 3 : 1000 + s;
        t = "[";
        for(int i = 0; i < n; i++) { if(i) t += ","; t += vs[(i * kind / 2 + kind) % 6]; }
        t += "]";
    } else if(kind == 6) {
        t = "{";
        static const char* ns[] { "a", "b", "name of some length" };
        for(int i = 0; i < s; i++) { if(i) t += ","; t += std::string("\"") + ns[i % (s % 3 + 1)] + "\":" + (i % 4 ? std::to_string(i) : "{\"a\":" + std::to_string(i) + "}"); }
        t += "}";
    } else {
        if(!s || s > 128) x.skip();
        int period = x.choose(6);
        std::string end;
        for(int i = 0; i < s; i++) { bool o = period >> (i % 3) & 1; t += o ? "{\"a\":" : "["; end = (o ? "}" : "]") + end; if(i + 1 == s) t += "1"; }
        t += end;
    }
    agree(x, t); agree(x, t, false, true);
}

int main(int argc, char** argv) { return mc::main("P09", argc, argv); }
