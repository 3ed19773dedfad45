#include "gen.h"
#include <limits>

using namespace doc;

template<class T> static bool eq(T a, T b) { return a == b || (a != a && b != b); }

template<class T> static std::string str(T v) { char b[64]; if constexpr(std::is_floating_point<T>::value) snprintf(b, sizeof b, "%.17g", (double)v); else snprintf(b, sizeof b, "%s", i2s((I)v).c_str()); return b; }

template<class T> static Val val(T v)
{
    if constexpr(std::is_same<T, float>::value) return Val::fp(v);
    else if constexpr(std::is_same<T, double>::value) return Val::dbl(v);
    else return Val::integer((I)v, Srl::Lib::Switch<T>::type);
}

template<class T> static void check_one(mc::X& x, int f, T e, T g, const char* how)
{
    bool ok = eq(e, g);
    if(ok && !is_text(f) && std::is_floating_point<T>::value) ok = memcmp(&e, &g, sizeof e) == 0;
    if(!ok) x.fail(std::string("number changed: ") + fmt_name(f), std::string(how) + ": " + str(e) + " became " + str(g));
}

/* every value through every format: as elements of a tree's array, as fields of an object, as stored vector */
template<class T> static void batch(mc::X& x, const std::vector<T>& vs, bool fields = false)
{
    Srl::Tree t(fields ? Srl::Type::Object : Srl::Type::Array);
    for(size_t i = 0; i < vs.size(); i++) t.root().insert("n" + std::to_string(i), vs[i]);
    for(int f = 0; f < NumFmt; f++) {
        try {
            auto b = write(t, f);
            x.state(mc::hash(b));
            Srl::Tree u;
            load(u, f, b);
            auto& r = u.root();
            if(r.num_values() != vs.size()) x.fail("number of values changed", std::to_string(r.num_values()));
            for(size_t i = 0; i < vs.size(); i++) {
                auto& v = fields ? r.value("n" + std::to_string(i)) : r.value(i);
                auto g = v.template unwrap<T>();
                x.step();
                check_one(x, f, vs[i], g, "tree");
                if(!same(val(vs[i]), get(v), is_text(f))) x.fail(std::string("value changed: ") + fmt_name(f), str(vs[i]) + " became " + show(get(v)));
            }
            auto s = with(f, [&](auto& p) { return Srl::Tree().store(vs, p); });
            std::vector<T> o;
            with(f, [&](auto& p) { Srl::Tree().restore(o, s, p); return 0; });
            if(o.size() != vs.size()) x.fail("number of elements changed", std::to_string(o.size()));
            for(size_t i = 0; i < vs.size(); i++) check_one(x, f, vs[i], o[i], "restored vector");
            x.step(vs.size());
        } catch(Srl::Exception& e) {
            /* find the value */
            std::string m = e.what();
            for(auto v : vs) {
                try { Srl::Tree w(Srl::Type::Array); w.root().insert("", v); auto b = write(w, f); Srl::Tree u; load(u, f, b); u.root().value(0).template unwrap<T>(); }
                catch(Srl::Exception& e) { m = str(v) + ": " + e.what(); break; }
            }
            x.fail(std::string("number refused: ") + fmt_name(f), m);
        }
    }
}

template<class T> static void small(mc::X& x, int chunk)
{
    std::vector<T> v;
    int lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    for(int i = lo + chunk * 512; i < lo + (chunk + 1) * 512 && i <= hi; i++) v.push_back((T)i);
    batch(x, v, x.flip());
}

MC_SCENARIO("8- and 16-bit integers", "every int8, uint8, int16, uint16 value as array element, object field and vector element")
{
    int s = x.shard(1 + 1 + 128 + 128);
    if(s == 0) small<int8_t>(x, 0);
    else if(s == 1) small<uint8_t>(x, 0);
    else if(s < 130) small<int16_t>(x, s - 2);
    else small<uint16_t>(x, s - 130);
}

template<class T> static std::vector<T> around(I c, int r)
{
    std::vector<T> v;
    for(int d = -r; d <= r; d++) {
        I n = c + d;
        if(n >= (I)std::numeric_limits<T>::min() && n <= (I)std::numeric_limits<T>::max()) v.push_back((T)n);
    }
    return v;
}

MC_SCENARIO("wide integers", "all integers within 150 (thorough: 2000) of every +-2^k, +-10^k, +-3*2^k and of every n*2^8k with n = 1..255, in all integer types of 32 and 64 bits holding them")
{
    static std::vector<I> cs = [] {
        std::set<I> s { 0 };
        for(int k = 0; k <= 64; k++) { s.insert((I)1 << k); s.insert(-((I)1 << k)); s.insert((I)3 << k); s.insert(-((I)3 << k)); }
        I t = 1;
        for(int k = 0; k <= 20; k++, t *= 10) { s.insert(t); s.insert(-t); }
        for(int k = 1; k < 8; k++) for(int n = 1; n < 256; n += 2) { s.insert((I)n << (8 * k)); s.insert(-((I)n << (8 * k))); }
        return std::vector<I>(s.begin(), s.end());
    }();
    I c = cs[x.shard(cs.size())];
    int r = x.thorough ? 2000 : 150;
    switch(x.choose(4)) {
        case 0: batch(x, around<int32_t>(c, r)); break;
        case 1: batch(x, around<uint32_t>(c, r)); break;
        case 2: batch(x, around<int64_t>(c, r)); break;
        case 3: batch(x, around<uint64_t>(c, r)); break;
    }
}

static std::vector<uint64_t> mantissas(int bits, bool dense)
{
    std::set<uint64_t> s;
    uint64_t m = (1ull << bits) - 1;
    for(int i = 0; i < bits; i++) {
        uint64_t b = 1ull << i;
        for(uint64_t v : { b, b - 1, b + 1, m - b, m ^ (b - 1), m - b + 1, (b * 3) & m, (b * 5) & m, (b * 11) & m }) s.insert(v & m);
    }
    s.insert({ 0, m, 0x5555555555555555ull & m, 0xAAAAAAAAAAAAAAAAull & m, 0x3333333333333333ull & m, 0x123456789ABCDull & m });
    if(dense) for(int i = 0; i < bits; i++) for(int j = 0; j < i; j++) { s.insert(1ull << i | 1ull << j); s.insert(m ^ (1ull << i | 1ull << j)); }
    return std::vector<uint64_t>(s.begin(), s.end());
}

MC_SCENARIO("floats", "all signs x all 256 exponents x all patterned mantissas (one bit, runs, neighbours, alternating; thorough: two bits)")
{
    int e = x.shard(256);
    static auto ms = mantissas(23, x.thorough);
    uint32_t s = x.flip();
    std::vector<float> v;
    for(auto m : ms) { uint32_t u = s << 31 | (uint32_t)e << 23 | (uint32_t)m; float f; memcpy(&f, &u, 4); if(e == 255 && m && !(u & 0x400000)) continue; v.push_back(f); }
    batch(x, v);
}

template<class T> static void all32(mc::X& x, uint32_t hi)
{
    std::vector<T> v, o; v.reserve(65536);
    for(uint32_t lo = 0; lo < 65536; lo++) {
        uint32_t u = hi << 16 | lo; T t; memcpy(&t, &u, 4);
        if(std::is_floating_point<T>::value && (u & 0x7f800000) == 0x7f800000 && (u & 0x7fffff) && !(u & 0x400000)) continue;
        v.push_back(t);
    }
    static std::unique_ptr<Srl::Parser> ps[] { std::unique_ptr<Srl::Parser>(new Srl::PJson), std::unique_ptr<Srl::Parser>(new Srl::PMsgPack), std::unique_ptr<Srl::Parser>(new Srl::PSrl) };
    for(int f = 0; f < 3; f++) {
        auto b = Srl::Tree().store(v, *ps[f]);
        o.clear(); Srl::Tree().restore(o, b, *ps[f]);
        if(o.size() != v.size()) x.fail("number of elements changed", std::to_string(o.size()));
        for(size_t i = 0; i < v.size(); i++) check_one(x, f == 0 ? JsonC : f == 1 ? Msg : SrlF, v[i], o[i], "restored vector");
        x.step(v.size());
        x.state(mc::hash(b));
    }
}
static uint32_t block(mc::X& x) { return x.thorough ? x.shard(65536) : x.shard(496) * 132 + 5; }
MC_SCENARIO("blocks of floats", "blocks of 65536 consecutive floats, every 132nd (thorough: all 2^32 floats but signalling NaNs), as elements of a vector stored and restored as JSON, MessagePack and in the Srl format")
{
    all32<float>(x, block(x));
}
MC_SCENARIO("blocks of integers", "blocks of 65536 consecutive 32-bit integers, every 132nd (thorough: all 2^32), int32 and uint32, as elements of a vector stored and restored as JSON, MessagePack and in the Srl format")
{
    uint32_t hi = block(x); if(x.flip()) all32<int32_t>(x, hi); else all32<uint32_t>(x, hi);
}

MC_SCENARIO("doubles", "all signs x all 2048 exponents x all patterned mantissas (thorough: two bits)")
{
    uint64_t e = x.shard(2048);
    static auto ms = mantissas(52, x.thorough);
    uint64_t s = x.flip();
    std::vector<double> v;
    for(auto m : ms) { uint64_t u = s << 63 | e << 52 | m; double f; memcpy(&f, &u, 8); if(e == 2047 && m && !(u & 0x8000000000000ull)) continue; v.push_back(f); }
    batch(x, v);
}

MC_SCENARIO("decimals", "all m * 10^e with m = 1..200 and multiples of 37 up to 9999 (thorough: 1..9999), e = -330..308, as double and float, both signs")
{
    int e = x.shard(639) - 330;
    bool neg = x.flip();
    std::vector<double> v; std::vector<float> w;
    for(int m = 1; m < 10000; m += x.thorough || m < 200 ? 1 : 37) {
        auto s = std::to_string(m) + "e" + std::to_string(e);
        double d = strtod(s.c_str(), nullptr);
        v.push_back(neg ? -d : d);
        if(std::fabs(d) < 3.4e38 && std::fabs(d) > 1e-45) w.push_back(neg ? -(float)d : (float)d);
    }
    batch(x, v);
    if(!w.empty()) batch(x, w);
}

MC_SCENARIO("integral doubles", "all doubles +-(2^k + d), +-(10^k + d), d = -64..64, which are written with and without exponent or fraction")
{
    int k = x.shard(64 + 23);
    double c = k < 64 ? std::ldexp(1.0, k) : std::pow(10.0, k - 64);
    std::vector<double> v; std::vector<float> w;
    for(int d = -64; d <= 64; d++) for(double q : { 1.0, 0.5, 0.1, -1.0 }) { v.push_back((c + d) * q); v.push_back(c + d * q); w.push_back((float)((c + d) * q)); }
    batch(x, v); batch(x, w);
}

MC_SCENARIO("mixed literals", "all sequences of 4 out of true, false, null, 0, 1, -1, 1.5 as fields and as elements in all formats")
{
    int s = x.shard(14);
    static const std::vector<Val> vs { Val::boolean(true), Val::boolean(false), Val::null(), Val::i32(0), Val::i32(1), Val::i32(-1), Val::dbl(1.5) };
    Doc d(s & 1);
    d.v("a", vs[s >> 1]);
    for(auto n : { "b", "c", "d" }) d.v(n, x.pick(vs));
    Srl::Tree t(d.array ? Srl::Type::Array : Srl::Type::Object);
    build(t.root(), d);
    for(int f = 0; f < NumFmt; f++) {
        auto df = diff(d, load_doc(f, write(t, f)), is_text(f));
        x.step(2);
        if(!df.empty()) x.fail("literal changed", df);
        Srl::Tree u;
        load(u, f, write(t, f));
        for(size_t i = 0; i < 4; i++) {
            auto& v = d.values[i].second;
            if(v.kind == KBool && u.root().unwrap_field<bool>(i) != (bool)v.i) x.fail("bool changed", show(v));
            if(v.kind == KNull && u.root().value(i).type() != Srl::Type::Null) x.fail("null changed");
        }
        x.state(hash(d) + f);
    }
}

int main(int argc, char** argv) { return mc::main("P02", argc, argv); }
