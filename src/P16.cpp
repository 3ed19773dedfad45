#include "stream.h"
#include "objs.h"
#include "dyn.h"

using namespace doc;
using namespace Srl;
using objs::new_parser;

/* a number: integer, or floating point */
struct Num { bool fp = false; I i = 0; double d = 0; Type type = Type::I64; };
static std::string show(const Num& n) { char b[64]; snprintf(b, sizeof b, "%.17g", n.d); return (n.fp ? b : i2s(n.i)) + " as type " + std::to_string((int)n.type); }

static Value value(const Num& n)
{
    switch(n.type) {
        case Type::Bool: return Value((bool)n.i);
        case Type::I8: return Value((int8_t)n.i); case Type::UI8: return Value((uint8_t)n.i);
        case Type::I16: return Value((int16_t)n.i); case Type::UI16: return Value((uint16_t)n.i);
        case Type::I32: return Value((int32_t)n.i); case Type::UI32: return Value((uint32_t)n.i);
        case Type::I64: return Value((int64_t)n.i); case Type::UI64: return Value((uint64_t)n.i);
        case Type::FP32: return Value((float)n.d); default: return Value((double)n.d);
    }
}

static const Type int_types[] { Type::Bool, Type::I8, Type::UI8, Type::I16, Type::UI16, Type::I32, Type::UI32, Type::I64, Type::UI64 };
static I lo(Type t) { switch(t) { case Type::I8: return -128; case Type::I16: return -32768; case Type::I32: return -(I)2147483648LL; case Type::I64: return -((I)1 << 63); default: return 0; } }
static I hi(Type t) { switch(t) { case Type::Bool: return 1; case Type::I8: return 127; case Type::UI8: return 255; case Type::I16: return 32767; case Type::UI16: return 65535; case Type::I32: return 2147483647; case Type::UI32: return 4294967295u; case Type::I64: return ((I)1 << 63) - 1; default: return ((I)1 << 64) - 1; } }

enum Verdict { Must, May, Refuse };

/* what reading n as T has to give */
template<class T> static Verdict expected(const Num& n, T& want)
{
    if(std::is_floating_point<T>::value) {
        if(!n.fp) { want = (T)n.i; return Must; }
        want = (T)n.d;
        if(sizeof(T) == 4 && std::isfinite(n.d) && std::fabs(n.d) > (double)std::numeric_limits<float>::max()) return std::isinf((float)n.d) ? Refuse : May;
        return Must;
    }
    I l = std::is_same<T, bool>::value ? 0 : (I)std::numeric_limits<T>::min(), h = std::is_same<T, bool>::value ? 1 : (I)std::numeric_limits<T>::max();
    if(!n.fp) { if(n.i < l || n.i > h) return Refuse; want = (T)n.i; return Must; }
    if(!(n.d > -1e30 && n.d < 1e30)) return Refuse;
    I t = (I)n.d;
    if(t < l || t > h) return Refuse;
    want = std::is_same<T, bool>::value ? (T)(n.d != 0) : (T)t;
    bool inside = (I)std::floor(n.d) >= l && (I)std::ceil(n.d) <= h;
    return inside ? Must : May;
}

template<class T> static bool equal(T a, T b) { return a == b || (a != a && b != b); }

/* fn reads T or throws; float_text: a 32 bit float went through decimal text and is exact only as such */
template<class T, class Fn> static void conv(mc::X& x, const Num& n, Fn fn, const char* how, bool float_text = false)
{
    T want { }, got { };
    auto v = expected(n, want);
    bool threw = false;
    std::string err;
    x.step();
    try { got = fn(); } catch(Exception& e) { threw = true; err = e.what(); }
    auto where = show(n) + " to " + typeid(T).name() + " by " + how;
    if(float_text && n.fp && std::fabs(n.d) >= 9007199254740992.0 && !std::is_floating_point<T>::value) {
        /* the document holds the shortest digits which identify it, filled up with zeros, an integer of its own */
        if(threw && v == Must && std::fabs(std::fabs(n.d) - 9223372036854775808.0) > 4096 && std::fabs(n.d - 18446744073709551616.0) > 4096) x.fail("number in range refused", where + " " + err);
        if(!threw && !equal(n.type == Type::FP32 ? (double)(float)got : (double)got, n.d)) x.fail("number changed", where + " gives " + std::to_string(got));
        return;
    }
    if(threw) { if(v == Must) x.fail("number in range refused", where + " " + err); return; }
    if(v == Refuse) x.fail("number out of range accepted", where + " gives " + std::to_string(got));
    if(float_text && n.type == Type::FP32 && std::is_same<T, double>::value) { if(!equal((float)got, (float)n.d)) x.fail("number changed", where); return; }
    if(std::is_same<T, bool>::value && n.fp && n.d != 0 && n.d != 1) return;
    if(!equal(got, want)) x.fail("number changed", where + " gives " + std::to_string(got));
}

#define ALL_TYPES(M) M(bool) M(int8_t) M(uint8_t) M(int16_t) M(uint16_t) M(int32_t) M(uint32_t) M(int64_t) M(uint64_t) M(float) M(double)

/* all integers of interest */
static const std::vector<I>& ints()
{
    static std::vector<I> r;
    if(r.empty()) {
        std::set<I> s;
        for(int i = -300; i <= 300; i++) s.insert(i);
        for(int b = 0; b <= 64; b++) for(int d = -3; d <= 3; d++) { s.insert(((I)1 << b) + d); s.insert(-((I)1 << b) + d); }
        I p = 1; for(int k = 0; k < 20; k++, p *= 10) for(int d = -1; d <= 1; d++) { s.insert(p + d); s.insert(-p + d); }
        for(I v : s) if(v >= lo(Type::I64) && v <= hi(Type::UI64)) r.push_back(v);
    }
    return r;
}
static const std::vector<double>& doubles()
{
    static std::vector<double> r;
    if(r.empty()) {
        std::set<double> s;
        auto add = [&](double d) { s.insert(d); s.insert(-d); };
        for(int b = -3; b <= 70; b++) for(double o : { -1.5, -1.0, -0.75, -0.5, -0.25, 0.0, 0.25, 0.5, 0.75, 1.0, 1.5 }) {
            double d = std::ldexp(1.0, b);
            add(d + o); add(std::nextafter(d, 0)); add(std::nextafter(d, INFINITY)); add((double)std::nextafter((float)d, 0.0f)); add((double)std::nextafter((float)d, INFINITY));
        }
        for(double d : { 0.0, 0.1, 1e-300, 5e-324, 2.2250738585072014e-308, 1e-45, 1.1754943508222875e-38, 3.4028234663852886e38, 3.4028235677973366e38, 3.4028235677973362e38, 3.4028236e38, 3.5e38, 1e39, 1e100, 1.7976931348623157e308, 1e18, 1e19, 1e20, 9.2e18, 1.8e19, 1.9e19, 16777217.0, 33554433.0, 2147483647.5, 4294967295.5, 4294967296.5 }) { add(d); add(std::nextafter(d, INFINITY)); add(std::nextafter(d, 0)); }
        r.assign(s.begin(), s.end());
        r.push_back(INFINITY); r.push_back(-INFINITY); r.push_back(NAN);
        r.erase(std::remove_if(r.begin(), r.end(), [](double d) { return d == 0 && std::signbit(d); }), r.end());
    }
    return r;
}

static std::vector<Num> numbers(Type t)
{
    std::vector<Num> r;
    if(t == Type::FP64) for(double d : doubles()) { Num n; n.fp = true; n.d = d; n.type = t; r.push_back(n); }
    else if(t == Type::FP32) { std::set<float> s; for(double d : doubles()) { float f = (float)d; Num n; n.fp = true; n.d = f; n.type = t; if(f != f || s.insert(f).second) r.push_back(n); } }
    else for(I i : ints()) if(i >= lo(t) && i <= hi(t)) { Num n; n.i = i; n.type = t; r.push_back(n); }
    return r;
}
static const Type all_types[] { Type::Bool, Type::I8, Type::UI8, Type::I16, Type::UI16, Type::I32, Type::UI32, Type::I64, Type::UI64, Type::FP32, Type::FP64 };

template<class T> struct One { int before = 0; T t { }; std::string after; std::vector<int> w; void srl_resolve(Context& c) { c("before", before)("n", t)("after", after)("w", w); } };
template<class T> struct Many { std::vector<T> v; void srl_resolve(Context& c) { c("v", v); } };

/* the rest of an object is as it was stored whether or not the number was accepted */
template<class T> static void routes(mc::X& x, const Num& n, int f)
{
    if(f < 0) {
        auto v = value(n);
        conv<T>(x, n, [&] { return v.template unwrap<T>(); }, "Value::unwrap");
        conv<T>(x, n, [&] { T t { }; v.paste(t); return t; }, "Value::paste");
        Tree t; t.root().insert("a", 1, "n", v, "b", "text");
        conv<T>(x, n, [&] { return t.root().template unwrap_field<T>("n"); }, "unwrap_field of the inserted value");
        conv<T>(x, n, [&] { return t.root().template unwrap_field<T>(1); }, "unwrap_field by position");
        conv<T>(x, n, [&] { return t.get("n").template unwrap<T>(); }, "generic item");
        conv<T>(x, n, [&] { T r = t.get("n"); return r; }, "conversion of a generic item");
        conv<T>(x, n, [&] { auto o = t.get("n").template unwrap_if<T>(); if(!o) throw Exception("empty"); return *o; }, "unwrap_if");
        conv<T>(x, n, [&] { One<T> o; t.clear(); t.root().insert("before", 7, "n", v, "after", "text", "w", std::vector<int> { 3 }); t.root().paste(o); return o.t; }, "pasted object");
        if(t.root().unwrap_field<std::string>("after") != "text" || t.root().unwrap_field<int>("before") != 7) x.fail("refused conversion disturbs other fields");
        return;
    }
    bool json = f == JsonC || f == JsonS;
    if(json && n.fp && !std::isfinite(n.d)) return;
    std::unique_ptr<Parser> pp(new_parser(f)); auto& p = *pp;
    Tree t; t.root().insert("before", 7, "n", value(n), "after", "text", "w", std::vector<int> { 3 });
    auto b = t.to_source(p);
    x.state(mc::hash(b));
    Tree u; u.load_source(b.data(), b.size(), p);
    conv<T>(x, n, [&] { return u.root().template unwrap_field<T>("n"); }, fmt_name(f), json);
    if(u.root().unwrap_field<std::string>("after") != "text" || u.root().unwrap_field<int>("before") != 7) x.fail("refused conversion disturbs other fields");
    One<T> o;
    bool ok = false;
    Tree w;
    conv<T>(x, n, [&] { w.restore(o, b, p); ok = true; return o.t; }, fmt_name(f), json);
    if(ok && (o.before != 7 || o.after != "text" || o.w != std::vector<int> { 3 })) x.fail("conversion disturbs other fields");
    conv<T>(x, n, [&] { ChunkStream s(b, { 1, 5 }); One<T> q; w.restore(q, s, p); return q.t; }, fmt_name(f), json);
    conv<T>(x, n, [&] { T q { }; int k = 0; w.unpack(b, p, "before", k, "n", q); return q; }, fmt_name(f), json);
    /* element of a container, all four places */
    Tree m; m.root().insert("v", std::vector<int> { }); auto& a = m.root().node("v"); a.insert(1); a.insert(value(n)); a.insert(0);
    auto c = m.to_source(p);
    conv<T>(x, n, [&] { Many<T> q; w.restore(q, c, p); if(q.v.size() != 3 || q.v[0] != T(1) || q.v[2] != T(0)) x.fail("conversion disturbs other elements"); return (T)q.v[1]; }, fmt_name(f), json);
}
/* vector<bool> has no elements to refer to */
template<> void routes<bool>(mc::X& x, const Num& n, int f)
{
    typedef bool T;
    auto v = value(n);
    if(f < 0) { conv<T>(x, n, [&] { return v.unwrap<T>(); }, "Value::unwrap"); Tree t; t.root().insert("n", v); conv<T>(x, n, [&] { return t.root().unwrap_field<T>("n"); }, "unwrap_field of the inserted value"); return; }
    bool json = f == JsonC || f == JsonS;
    if(json && n.fp && !std::isfinite(n.d)) return;
    std::unique_ptr<Parser> pp(new_parser(f)); auto& p = *pp;
    Tree t; t.root().insert("before", 7, "n", v, "after", "text", "w", std::vector<int> { 3 });
    auto b = t.to_source(p);
    conv<T>(x, n, [&] { Tree u; u.load_source(b.data(), b.size(), p); return u.root().unwrap_field<T>("n"); }, fmt_name(f));
    conv<T>(x, n, [&] { One<T> o; Tree().restore(o, b, p); return o.t; }, fmt_name(f));
}

MC_SCENARIO("numbers", "every number of each of 11 types (limits of all types and their neighbours, powers of 2 and 10, fractions around them, extremes, NaN, infinities) read as each of 11 types: from a value, an inserted value and through 4 formats by 5 routes")
{
    static std::vector<std::vector<Num>> nums;
    if(nums.empty()) for(auto t : all_types) nums.push_back(numbers(t));
    int s = x.shard(11 * 5 * 8);
    auto& ns = nums[s % 11];
    int f = s / 11 % 5 - 1, part = s / 55;
    for(size_t i = part; i < ns.size(); i += 8) {
        if(!x.thorough && f >= 0 && ns[i].fp && i % 3) continue;
        #define R(T) routes<T>(x, ns[i], f);
        ALL_TYPES(R)
        #undef R
        x.state(mc::mix(s, i));
    }
}

MC_SCENARIO("all 8 and 16 bit numbers", "every 8 and 16 bit integer stored as each type which holds it, read as each of 11 types through each format")
{
    int s = x.shard(4 * 9 * 16);
    int f = s % 4; Type t = int_types[s / 4 % 9]; int part = s / 36;
    std::vector<Num> ns;
    for(I i = -32768 + part * 6144; i < -32768 + (part + 1) * 6144 && i <= 65535; i++) if(i >= lo(t) && i <= hi(t)) { Num n; n.i = i; n.type = t; ns.push_back(n); }
    if(ns.empty()) return;
    std::unique_ptr<Parser> pp(new_parser(f)); auto& p = *pp;
    Tree tr(Type::Array);
    for(auto& n : ns) tr.root().insert(value(n));
    auto b = tr.to_source(p);
    x.state(mc::hash(b));
    Tree u; u.load_source(b.data(), b.size(), p);
    size_t i = 0;
    u.root().foreach_value([&](Value& v) {
        auto& n = ns.at(i++);
        #define R(T) { T want { }; auto e = expected(n, want); \
            if(e == Refuse) { if(i % (x.thorough ? 1 : 8) == 0 || i < 20 || i + 20 > ns.size()) conv<T>(x, n, [&] { return v.unwrap<T>(); }, fmt_name(f)); } else conv<T>(x, n, [&] { return v.unwrap<T>(); }, fmt_name(f)); }
        ALL_TYPES(R)
        #undef R
    });
    if(i != ns.size()) x.fail("numbers are lost");
}

/* decimal text, exactly */
static bool parse(const std::string& s, Num& n)
{
    size_t a = 0, e = s.size();
    while(a < e && isspace((uint8_t)s[a])) a++;
    while(e > a && isspace((uint8_t)s[e - 1])) e--;
    auto t = s.substr(a, e - a);
    size_t i = 0;
    if(i < t.size() && t[i] == '-') i++;
    size_t d0 = i;
    while(i < t.size() && isdigit((uint8_t)t[i])) i++;
    if(i == t.size() && i > d0) {
        I v = 0; bool big = false;
        for(size_t k = d0; k < t.size(); k++) { v = v * 10 + (t[k] - '0'); if(v > ((I)1 << 66)) { big = true; break; } }
        if(t[0] == '-') v = -v;
        if(!big && v >= lo(Type::I64) && v <= hi(Type::UI64)) { n.fp = false; n.i = v; return true; }
    }
    char* end; n.fp = true;
    if(t.empty()) return false;
    n.d = strtod(t.c_str(), &end);
    return end == t.c_str() + t.size();
}

template<class T> static void text(mc::X& x, const std::string& s, bool valid, const Num& n, const std::u16string& w, const std::u32string& u)
{
    auto go = [&](auto fn, const char* how) {
        if(valid) { conv<T>(x, n, fn, how); return; }
        x.step();
        try { auto t = fn(); x.fail("text which is no number accepted", "'" + mc::show(s) + "' gives " + std::to_string(t)); } catch(Exception&) { }
    };
    x.note("'%s'", s.c_str());
    Tree t; t.root().insert("a", 1, "s", s, "w", w, "u", u);
    go([&] { return t.root().template unwrap_field<T>("s"); }, "utf-8 text");
    go([&] { return t.root().template unwrap_field<T>("w"); }, "utf-16 text");
    go([&] { return t.get("u").template unwrap<T>(); }, "utf-32 text");
    go([&] { auto b = t.to_source(PSrl()); struct O { T s { }; void srl_resolve(Context& c) { c("s", s); } } o; Tree().restore(o, b, PSrl()); return o.s; }, "text in a document");
    go([&] { auto b = t.to_source(PJson()); T r { }; Tree().unpack(b, PJson(), "s", r); return r; }, "text in JSON");
    if(t.root().unwrap_field<int>("a") != 1) x.fail("refused conversion disturbs other fields");
}
static void texts(mc::X& x, const std::string& s)
{
    Num n;
    bool valid = parse(s, n);
    if(!valid) { std::string l = s; for(auto& c : l) c = tolower(c); size_t a = l.find_first_not_of(" \t\n\r\v\f"); l = a == std::string::npos ? "" : l.substr(a, l.find_last_not_of(" \t\n\r\v\f") - a + 1); if(l == "true" || l == "false" || l == "null") return; }
    if(valid && n.fp && s.find_first_of("xXnN") != std::string::npos) return;   /* hexadecimal, nan, inf: not decimal text */
    std::u16string w(s.begin(), s.end()); std::u32string u(s.begin(), s.end());
    x.state(mc::hash(s));
    #define R(T) text<T>(x, s, valid, n, w, u);
    ALL_TYPES(R)
    #undef R
}

MC_SCENARIO("integers as text", "all integers of the numbers scenario and their neighbours beyond 64 bits as decimal text, with leading zeros, spaces, fractions and exponents, as UTF-8/16/32 text read as 11 types")
{
    static std::vector<I> v;
    if(v.empty()) { v = ints(); for(int d = 1; d < 4; d++) { v.push_back(hi(Type::UI64) + d); v.push_back(lo(Type::I64) - d); v.push_back((hi(Type::UI64) + 1) * 10 + d); v.push_back((hi(Type::UI64) + 1) * 1000 + d); } }
    size_t i = x.shard(v.size());
    auto s = i2s(v[i]);
    bool neg = s[0] == '-'; auto digits = neg ? s.substr(1) : s; std::string sign = neg ? "-" : "";
    texts(x, s);
    bool more = x.thorough || i % 3 == 0 || v[i] > ((I)1 << 31) || v[i] < -((I)1 << 31);
    if(!more) return;
    for(auto* z : { "0", "000", "00000000000000000000000000000000000000000000000000000000000000000000000000000000" }) texts(x, sign + z + digits);
    for(auto* z : { " ", "\t", "\n", "   " }) { texts(x, z + s); texts(x, s + z); texts(x, z + s + z); }
    for(auto* z : { ".0", ".5", ".25", ".999999999999999", "e0", "E1", "e+2", "e-1", ".5e1", "e-400", "e400", ".", "e", "x", ",0", "-", "+", "e+", " 1", ".0.0", "f", "L" }) texts(x, s + z);
    for(auto* z : { "+", "--", "- ", "$", "0x", "." }) texts(x, z + s);
}

MC_SCENARIO("short texts", "all texts of up to 4 (thorough 5) characters over {0 1 9 - + . e space a}: read as 11 types or refused")
{
    static const char a[] = "019-+.e a";
    int s = x.shard(81 + 9 + 1);
    std::string t;
    if(s < 81) { t = { a[s / 9], a[s % 9] }; int n = x.choose(x.thorough ? 4 : 3); for(int i = 0; i < n; i++) t += a[x.choose(9)]; }
    else if(s < 90) t = { a[s - 81] };
    texts(x, t);
}

int main(int argc, char** argv) { return mc::main("P16", argc, argv); }
