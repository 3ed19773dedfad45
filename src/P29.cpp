/* Work and memory grow in proportion to the input. Compiled with a call at every basic block (of the library, of
 * what it instantiates here, and of the standard library's templates); copied and compared bytes and allocated
 * memory are counted as well. All counts are exact and repeatable; no clock is involved. */
#include "objs.h"
#include "stream.h"
#include <malloc.h>

using namespace doc;
using namespace Srl;

#define NOCOV __attribute__((no_sanitize_coverage))

namespace cost {
    static bool on = false;
    static uint64_t blocks = 0, bytes = 0;
    static size_t live = 0, peak = 0;
    NOCOV static void alloc(void* p) { live += malloc_usable_size(p); if(live > peak) peak = live; }
    NOCOV static void freed(void* p) { if(p) live -= malloc_usable_size(p); }
}
extern "C" {
    NOCOV void __sanitizer_cov_trace_pc() { cost::blocks++; }
    void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t); size_t __real_strlen(const char*);
    NOCOV void* __wrap_memcpy(void* d, const void* s, size_t n) { cost::bytes += n; return __real_memcpy(d, s, n); }
    NOCOV void* __wrap_memmove(void* d, const void* s, size_t n) { cost::bytes += n; return __real_memmove(d, s, n); }
    NOCOV void* __wrap_memset(void* d, int c, size_t n) { cost::bytes += n; return __real_memset(d, c, n); }
    NOCOV int __wrap_memcmp(const void* a, const void* b, size_t n) { cost::bytes += n; return __real_memcmp(a, b, n); }
    NOCOV size_t __wrap_strlen(const char* s) { auto n = __real_strlen(s); cost::bytes += n; return n; }
}
NOCOV void* operator new(size_t n) { auto p = malloc(n); if(!p) throw std::bad_alloc(); cost::alloc(p); return p; }
NOCOV void* operator new[](size_t n) { auto p = malloc(n); if(!p) throw std::bad_alloc(); cost::alloc(p); return p; }
NOCOV void operator delete(void* p) noexcept { cost::freed(p); free(p); }
NOCOV void operator delete[](void* p) noexcept { cost::freed(p); free(p); }
NOCOV void operator delete(void* p, size_t) noexcept { cost::freed(p); free(p); }
NOCOV void operator delete[](void* p, size_t) noexcept { cost::freed(p); free(p); }

/* work in units of basic blocks or 16 bytes, and the most memory in use on top of what was in use before */
struct Cost { double work, mem; };
template<class F> static Cost measure(F f)
{
    auto b = cost::blocks, y = cost::bytes; auto l = cost::live; cost::peak = l;
    f();
    return { double(cost::blocks - b) + (cost::bytes - y) / 16.0, double(cost::peak - l) };
}

/* Families of documents: the n-th of each */
static std::string num(size_t i) { return std::to_string(i); }
static std::string any_text(size_t n) { std::string s(n, 'a'); uint32_t r = 1; for(auto& c : s) { r = r * 1664525 + 1013904223; c = 'a' + (r >> 24) % 26; } return s; }
typedef std::function<void(Node&, size_t)> Build;
struct Family { const char* name; bool text; Build build; };
static Node& arr(Node& r, const char* name, const std::function<void(Node&)>& f, Type t = Type::Array) { r.insert(name, ScopeWrap([&](Node& n) { f(n); }, t)); return r; }
static const std::vector<Family>& families()
{
    static const std::vector<Family> all {
        { "integers", false, [](Node& r, size_t n) { arr(r, "a", [n](Node& a) { for(size_t i = 0; i < n; i++) a.insert(int(i * 37)); }); } },
        { "reals", false, [](Node& r, size_t n) { arr(r, "a", [n](Node& a) { for(size_t i = 0; i < n; i++) a.insert(i * 1.1e-7); }); } },
        { "short texts", false, [](Node& r, size_t n) { arr(r, "a", [n](Node& a) { for(size_t i = 0; i < n; i++) a.insert("text " + num(i)); }); } },
        { "literals", false, [](Node& r, size_t n) { arr(r, "a", [n](Node& a) { for(size_t i = 0; i < n; i++) i % 3 ? a.insert(nullptr) : a.insert(i % 2 == 0); }); } },
        { "fields of distinct names", false, [](Node& r, size_t n) { for(size_t i = 0; i < n; i++) r.insert("name " + num(i), int(i)); } },
        { "fields of one name", false, [](Node& r, size_t n) { for(size_t i = 0; i < n; i++) r.insert("name", int(i)); } },
        { "fields of long names", false, [](Node& r, size_t n) { for(size_t i = 0; i < n; i++) r.insert(num(i) + std::string(50, 'n'), int(i)); } },
        { "empty scopes", false, [](Node& r, size_t n) { arr(r, "a", [n](Node& a) { for(size_t i = 0; i < n; i++) a.insert(ScopeWrap()); }); } },
        { "scopes of three fields", false, [](Node& r, size_t n) { arr(r, "a", [n](Node& a) { for(size_t i = 0; i < n; i++) a.insert(ScopeWrap([i](Node& o) { o.insert("x", int(i), "y", 0.5 * i, "z", "s" + num(i)); }, Type::Object)); }); } },
        { "scopes of distinct names", false, [](Node& r, size_t n) { for(size_t i = 0; i < n; i++) r.insert("scope " + num(i), ScopeWrap([i](Node& o) { o.insert("x", int(i)); }, Type::Object)); } },
        { "towers of scopes", false, [](Node& r, size_t n) { for(size_t i = 0; i < n / 50 + 1; i++) { std::function<void(Node&, int)> f = [&](Node& o, int d) { o.insert("v", d); if(d) o.insert("n", ScopeWrap([&](Node& m) { f(m, d - 1); }, Type::Object)); }; f(r, 50); } } },
        { "values and scopes mixed", false, [](Node& r, size_t n) { for(size_t i = 0; i < n; i++) if(i % 2) r.insert("v", int(i)); else r.insert("s", ScopeWrap([i](Node& o) { o.insert("i", int(i), "e", ScopeWrap()); })); } },
        { "a long text", true, [](Node& r, size_t n) { r.insert("t", any_text(n)); } },
        { "a text of escapes", true, [](Node& r, size_t n) { std::string s(n, '"'); for(size_t i = 0; i < n; i += 3) s[i] = '\\'; for(size_t i = 1; i < n; i += 7) s[i] = '\n'; r.insert("t", s); } },
        { "a text of control characters", true, [](Node& r, size_t n) { r.insert("t", std::string(n / 3, '\1')); } },
        { "a text of wide characters", true, [](Node& r, size_t n) { std::string s; while(s.size() < n) s += "\u00e9\u20ac\U0001f600"; r.insert("t", s); } },
        { "texts of UTF-16", true, [](Node& r, size_t n) { r.insert("t", std::u16string(n / 2, u'\u20ac')); } },
        { "a long blob", true, [](Node& r, size_t n) { std::vector<uint8_t> b(n); for(size_t i = 0; i < n; i++) b[i] = i * 7; r.insert("b", Bytes(std::move(b))); } },
        { "a long name", true, [](Node& r, size_t n) { r.insert(any_text(n), 1, "next", 2); } },
        { "texts of the buffer's size", true, [](Node& r, size_t n) { for(size_t i = 0; i < n / 1024 + 1; i++) r.insert("t", std::string(1000 + i % 50, 't')); } },
    };
    return all;
}
/* JSON which is not written by the library */
struct Spelled { const char* name; std::function<std::string(size_t)> make; };
static std::string rep(const std::string& s, size_t bytes) { std::string r; r.reserve(bytes + s.size()); while(r.size() < bytes) r += s; return r; }
static const std::vector<Spelled>& spelled()
{
    static const std::vector<Spelled> all {
        { "spaces", [](size_t n) { return "{\"a\":" + rep(" \t\r\n", n) + "1}"; } },
        { "spaces behind", [](size_t n) { return "{\"a\":1}" + rep(" \n", n); } },
        { "a block comment", [](size_t n) { return "{/*" + rep("* /x\n", n) + "*/\"a\":1}"; } },
        { "many comments", [](size_t n) { return "[" + rep("/**/// x\n", n) + "1]"; } },
        { "a line comment", [](size_t n) { return "[//" + rep("/ *x", n) + "\n1]"; } },
        { "unicode escapes", [](size_t n) { return "[\"" + rep("\\u20ac\\uD83D\\uDE00", n) + "\"]"; } },
        { "a long number", [](size_t n) { return "[" + rep("1234567890", n) + "]"; } },
        { "a long fraction", [](size_t n) { return "[0." + rep("1234567890", n) + "]"; } },
        { "a number of zeros", [](size_t n) { return "[" + rep("0", n) + "1]"; } },
        { "an unfinished text", [](size_t n) { return "[\"" + rep("x", n); } },
        { "an unfinished name", [](size_t n) { return "{\"" + rep("x\\n", n); } },
        { "an unfinished comment", [](size_t n) { return "{/*" + rep("*", n); } },
        { "unfinished array", [](size_t n) { return "[" + rep("1,", n); } },
        { "a literal of letters", [](size_t n) { return "[" + rep("true", n) + "]"; } },
        { "quotes", [](size_t n) { return "[" + rep("\"\",", n) + "0]"; } },
        { "fields without names", [](size_t n) { return "{" + rep("\"\":{},", n) + "\"\":0}"; } },
    };
    return all;
}

/* Uses of a document */
struct Few { int last = 0; void srl_resolve(Context& c) { c("last", last); } };
struct Three { int x = 0; double y = 0; std::string z; void srl_resolve(Context& c) { c("x", x)("y", y)("z", z); } };
struct Holder { std::vector<Three> a; void srl_resolve(Context& c) { c("a", a); } };
struct Ints { std::vector<int> a; void srl_resolve(Context& c) { c("a", a); } };
static std::unique_ptr<Parser> parser(int f) { return std::unique_ptr<Parser>(objs::new_parser(f)); }

/* what grows with n must not grow by more than twice the ratio of the inputs. 'small' and 'large' are the sizes of both inputs */
static void proportional(mc::X& x, const std::string& what, size_t small, size_t large, Cost a, Cost b)
{
    x.step(); x.note("%s", what.c_str());
    double r = double(large) / small;
    char t[300];
    snprintf(t, sizeof t, "%s: inputs of %zu and %zu bytes (%.1f times): work %.0f and %.0f (%.1f times), memory %.0f and %.0f (%.1f times)", what.c_str(), small, large, r, a.work, b.work, b.work / a.work, a.mem, b.mem, b.mem / (a.mem + 1));
    x.state(mc::hash(what));
    if(b.work > 2 * r * (a.work + 2000)) x.fail("work grows faster than the input", t);
    if(b.mem > 2 * r * (a.mem + 20000)) x.fail("memory grows faster than the input", t);
}

static const int Uses = 14;
static const char* use_names[] { "load from memory", "load from a stream in one piece", "load from a stream byte by byte", "load from a stream in pieces of 1000", "write to memory", "write to a stream", "visit and look up", "restore an object which ignores all but one field", "restore from a stream", "unpack the last field", "copy into another tree", "remove all", "restore a vector", "build" };
static bool attempt(const std::function<void()>& f) { try { f(); return true; } catch(Exception&) { return false; } }

static Cost use(int u, int f, const Build& build, size_t n, size_t& size)
{
    auto make = [&](Tree& t) { auto& r = t.root(); build(r, n); r.insert("last", 7); };
    if(u == 13) { size = n; return measure([&] { Tree t; make(t); }); }
    Tree t; make(t);
    Buf b; { auto p = parser(f); b = t.to_source(*p); }
    size = b.size();
    auto p = parser(f);
    switch(u) {
        case 0: return measure([&] { Tree l; l.load_source(b, *p); });
        case 1: case 2: case 3: {
            ChunkStream s(b, u == 1 ? std::vector<size_t> { } : std::vector<size_t> { u == 2 ? (size_t)1 : (size_t)1000 });
            return measure([&] { Tree l; l.load_source(s, *p); });
        }
        case 4: return measure([&] { Buf c = t.to_source(*p); });
        case 5: { std::ostringstream s; return measure([&] { t.to_source(s, *p); }); }
        case 6: return measure([&] {
            auto& r = t.root(); size_t c = 0;
            r.foreach_value([&](Value& v) { c += v.size(); }, true); r.foreach_node([&](Node& m) { c += m.num_values(); }, true);
            r.find_values("name", true); r.find_nodes("n", true); r.has_value("not there"); r.all_values(true); r.all_nodes(true); r.value("last"); r.has_node("a");
        });
        case 7: return measure([&] { Few w; attempt([&] { Tree().restore(w, b, *p); }); });
        case 8: { ChunkStream s(b, { 1000 }); return measure([&] { Few w; attempt([&] { Tree().restore(w, s, *p); }); }); }
        case 9: return measure([&] { int l; attempt([&] { Tree().unpack(b, *p, "last", l); }); });
        case 10: return measure([&] { Tree o; o.root().insert("copy", t.root()); o.root().insert("again", t.root()); });
        case 11: return measure([&] { auto& r = t.root(); while(r.num_values() > 1) r.remove_value((size_t)0); while(r.num_nodes() > 1) r.remove_node((size_t)0); r.remove_value("last"); });
        case 12: return measure([&] { attempt([&] { Ints w; Tree().restore(w, b, *p); }); attempt([&] { Holder w; Tree().restore(w, b, *p); }); attempt([&] { Ints w; Tree l; l.load_source(b, *p); l.root().paste(w); }); });
    }
    return { };
}

MC_SCENARIO("documents", "20 families of documents (many items, many names, scopes, long texts, names and blobs) of 500 and 16000 items or 64 KiB and 2 MiB (thorough: 100000 items, 13 MiB), 4 formats, 14 uses (load, write, visit, restore, unpack, copy, remove, build; memory and streams)")
{
    int sh = x.shard(families().size() * Uses);
    auto& m = families()[sh / Uses]; int u = sh % Uses, f = x.choose(NumFmt);
    if((u == 6 || u == 10 || u == 11 || u == 13) && f) x.skip();
    size_t n0 = m.text ? 65536 : 500, n1 = n0 * (x.thorough ? 200 : 32), s0, s1;
    auto a = use(u, f, m.build, n0, s0), b = use(u, f, m.build, n1, s1);
    proportional(x, std::string(m.name) + ", " + fmt_name(f) + ", " + use_names[u], s0, s1, a, b);
}

MC_SCENARIO("spelled JSON", "16 families of JSON texts the library does not write (spaces, comments, escapes, long numbers, unfinished texts), of 64 KiB and 2 MiB (thorough: 13 MiB), loaded and restored from memory and streams")
{
    int sh = x.shard(spelled().size() * 5);
    auto& m = spelled()[sh / 5]; int u = sh % 5;
    Cost c[2]; size_t sz[2];
    for(int i = 0; i < 2; i++) {
        auto d = m.make(i ? 65536 * (x.thorough ? 200 : 32) : 65536); sz[i] = d.size(); Buf b(d.begin(), d.end());
        PJson p; ChunkStream s(b, u == 2 ? std::vector<size_t> { 1 } : u == 3 ? std::vector<size_t> { 1000 } : std::vector<size_t> { });
        c[i] = measure([&] {
            attempt([&] {
                Tree t;
                if(u == 0) t.load_source(b, p);
                else if(u < 4) t.load_source(s, p);
                else { Few w; t.restore(w, b, p); }
            });
        });
    }
    proportional(x, std::string(m.name) + ", use " + num(u), sz[0], sz[1], c[0], c[1]);
}

/* objects */
struct Poly { int v = 0; virtual ~Poly() { } virtual const TypeID& srl_type_id(); virtual void srl_resolve(Context& c) { c("v", v); } };
struct Poly2 : Poly { std::string s; const TypeID& srl_type_id() override; void srl_resolve(Context& c) override { Poly::srl_resolve(c); c("s", s); } };
static const auto r0 = register_type<Poly>("Poly"); static const auto r1 = register_type<Poly2>("Poly2");
const TypeID& Poly::srl_type_id() { return r0; } const TypeID& Poly2::srl_type_id() { return r1; }

template<class T> struct In1 { T v; void srl_resolve(Context& c) { c("v", v); } };
template<class T> struct In2 { T v; int last = 0; void srl_resolve(Context& c) { c("last", last)("v", v); } };   /* found behind the others */
static const int ObjUses = 6;
static const char* obj_names[] { "store", "restore from memory", "restore from a stream", "load into a tree", "restore by way of a tree", "restore fields in another order" };
template<class T> static Cost objects(int u, int f, const std::function<void(T&, size_t)>& make, size_t n, size_t& size)
{
    In1<T> o; make(o.v, n);
    auto p = parser(f);
    Buf b = Tree().store(o, *p); size = b.size();
    if(u == 0) return measure([&] { Tree().store(o, *p); });
    if(u == 1) { In1<T> q; return measure([&] { Tree().restore(q, b, *p); }); }
    if(u == 2) { In1<T> q; ChunkStream s(b, { 1000 }); return measure([&] { Tree().restore(q, s, *p); }); }
    if(u == 3) return measure([&] { Tree t; t.load_object(o); });
    if(u == 4) { In1<T> q; return measure([&] { Tree t; t.load_source(b, *p); t.root().paste(q); }); }
    In2<T> w; make(w.v, n); Buf c; Tree().pack(c, *p, "v", w.v, "last", 5);
    In2<T> q; return measure([&] { Tree().restore(q, c, *p); });
}
typedef std::function<Cost(int, int, size_t, size_t&)> Obj;
#define OBJ(T, ...) { #T, [](int u, int f, size_t n, size_t& s) { return objects<T>(u, f, [](T& o, size_t n) { for(size_t i = 0; i < n; i++) { __VA_ARGS__; } }, n, s); } }
typedef std::vector<int> v_int; typedef std::vector<std::string> v_str; typedef std::list<std::string> l_str; typedef std::deque<double> d_dbl; typedef std::set<int> s_int; typedef std::multiset<std::string> ms_str;
typedef std::map<std::string, int> m_str; typedef std::unordered_map<int, std::string> um_int; typedef std::multimap<int, int> mm_int; typedef std::vector<Three> v_obj; typedef std::vector<std::shared_ptr<Three>> v_shared; typedef std::vector<std::unique_ptr<Poly>> v_poly;
typedef std::vector<std::vector<int>> v_v; typedef std::vector<std::u16string> v_u16; struct Shared { std::vector<std::shared_ptr<Three>> a, b; std::list<std::weak_ptr<Three>> w; void srl_resolve(Context& c) { c("a", a)("b", b)("w", w); } };
static const std::vector<std::pair<const char*, Obj>>& objects()
{
    static const std::vector<std::pair<const char*, Obj>> all {
        OBJ(v_int, o.push_back(i * 3)), OBJ(v_str, o.push_back("text " + num(i))), OBJ(l_str, o.push_back(std::string(30, 'l'))), OBJ(d_dbl, o.push_back(i * 0.3)), OBJ(s_int, o.insert(i)), OBJ(ms_str, o.insert(num(i / 2))),
        OBJ(m_str, o["key " + num(i)] = i), OBJ(um_int, o[i] = "v" + num(i)), OBJ(mm_int, o.insert({ i / 2, i })), OBJ(v_obj, o.emplace_back(); o.back().x = i; o.back().z = num(i)), OBJ(v_shared, if(i % 3 == 0) o.push_back(std::make_shared<Three>()); else o.push_back(o[i / 2])),
        OBJ(v_poly, if(i % 2) o.emplace_back(new Poly); else o.emplace_back(new Poly2); o.back()->v = i), OBJ(v_v, o.emplace_back(i % 5, i)), OBJ(v_u16, o.push_back(u"wide " + std::u16string(i % 9, u'\u20ac'))),
        OBJ(Shared, o.a.push_back(std::make_shared<Three>()); o.b.push_back(o.a[i / 3]); o.w.push_back(o.a[i])),
    };
    return all;
}
MC_SCENARIO("objects", "15 kinds of containers (of numbers, texts, objects, shared, weak and polymorphic pointers, containers) of 500 and 8000 (thorough: 64000) elements, 4 formats, stored and restored in 6 ways")
{
    int sh = x.shard(objects().size() * ObjUses);
    auto& m = objects()[sh / ObjUses]; int u = sh % ObjUses, f = x.choose(NumFmt);
    if(u == 3 && f) x.skip();
    size_t s0, s1;
    auto a = m.second(u, f, 500, s0), b = m.second(u, f, x.thorough ? 64000 : 8000, s1);
    proportional(x, std::string(m.first) + ", " + fmt_name(f) + ", " + obj_names[u], s0, s1, a, b);
}

/* hostile documents: bounded work and memory for every byte given */
static void bounded(mc::X& x, const std::string& what, const Buf& b, const Cost& c)
{
    x.step(); x.state(mc::hash(b));
    char t[200]; snprintf(t, sizeof t, "%s: %zu bytes, work %.0f, memory %.0f: ", what.c_str(), b.size(), c.work, c.mem);
    if(c.mem > 100.0 * b.size() + 200000) x.fail("memory out of proportion to the input", t + mc::show(b));
    if(c.work > 1000.0 * b.size() + 100000) x.fail("work out of proportion to the input", t + mc::show(b));
}
struct Any { std::string s; std::vector<int> v; std::vector<std::string> t; std::map<std::string, int> m; std::vector<uint8_t> raw; std::vector<std::shared_ptr<int>> p; void srl_resolve(Context& c) { c("s", s)("v", v)("t", t)("m", m)("p", p); BitWrap b(raw.data(), raw.size(), [this](size_t n) { raw.resize(n); return raw.data(); }); c("raw", b); } };
static Cost hostile(const Buf& b, int f, int u)
{
    auto p = parser(f);
    Cost c;
    if(u == 0) { Exact e(b); c = measure([&] { attempt([&] { Tree t; t.load_source(e.p, e.n, *p); }); }); }
    if(u == 1) { ChunkStream s(b, { 1000 }); c = measure([&] { attempt([&] { Tree t; t.load_source(s, *p); }); }); }
    if(u == 2) { Exact e(b); c = measure([&] { Any a; attempt([&] { Tree().restore(a, e.p, e.n, *p); }); }); }
    if(u == 3) { ChunkStream s(b, { 1000 }); c = measure([&] { Any a; attempt([&] { Tree().restore(a, s, *p); }); }); }
    return c;
}
static const Buf& victim(int f)
{
    static Buf all[NumFmt];
    auto& b = all[f];
    if(b.empty()) {
        Any a; a.s = "a text of some length which is not stored locally"; a.v = { 1, 200, -70000 }; a.t = { "x", std::string(300, 't') }; a.m = { { "k", 1 }, { "l", 2 } }; a.raw.assign(40, 7);
        for(int i = 0; i < 3; i++) a.p.push_back(std::make_shared<int>(i)); a.p.push_back(a.p[0]);
        auto p = parser(f); b = Tree().store(a, *p);
    }
    return b;
}
MC_SCENARIO("announced lengths", "every byte of a document of texts, containers, blobs and shared pointers replaced by each of 18 values, alone and followed by 1, 2, 4 or 8 bytes out of 3 patterns, loaded and restored from memory and stream, 4 formats: memory within 100 times, work within 1000 times the input")
{
    static const int vals[] { 0, 0x7f, 0x80, 0xff, 0xc4, 0xc5, 0xc6, 0xc7, 0xc9, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0x1f, 0x0c };
    static const int pat[] { 0x7f, 0xff, 0x01 };
    size_t most = 0; for(int f = 0; f < NumFmt; f++) most = std::max(most, victim(f).size());
    size_t at = x.shard(most); int f = x.choose(NumFmt);
    if(f == JsonS || at >= victim(f).size()) x.skip();
    auto v = vals[x.choose(18)]; int k = x.choose(5), pt = k ? pat[x.choose(3)] : 0, u = x.choose(4);
    if(!x.thorough && u % 2 && at % 3) x.skip();
    Buf b = victim(f); b[at] = v;
    for(int i = 0; i < (k ? 1 << (k - 1) : 0) && at + 1 + i < b.size(); i++) b[at + 1 + i] = pt;
    x.note("%s, byte %zu, %02x, %d of %02x, use %d", fmt_name(f), at, v, k, pt, u);
    bounded(x, std::string(fmt_name(f)) + ", use " + num(u), b, hostile(b, f, u));
}

MC_SCENARIO("tools", "23 kinds of conversions, tables, arenas and histories: texts between encodings, binary data, hash tables and arenas of 1000 and 32000 (thorough: 200000) elements, and 100 and 3200 uses of one tree, parser and variable one after the other, and 1000 and 32000 edits of one node")
{
    int k = x.shard(23);
    static const char* what[] { "UTF-8 to UTF-16", "UTF-16 to UTF-8", "UTF-32 to UTF-8", "UTF-8 to UTF-32", "base64", "hex", "table filled", "table filled and emptied", "arena", "arena, memory given back", "arena, small blocks", "loads of one tree", "stores of one tree", "restores of one tree", "edits of one node", "edits of one scope", "shared and polymorphic objects one after the other", "loads of documents of other names", "stores of other shared objects", "a table filled and emptied again and again", "a parser for many trees", "loads of long texts and blobs", "stores of long texts" };
    Cost c[2]; size_t n[2] { 1000, x.thorough ? 200000u : 32000u };
    const bool repeated = (k >= 11 && k < 14) || k >= 17;
    if(repeated) { n[0] = k > 20 ? 10 : 100; n[1] = n[0] * 32; }
    for(int i = 0; i < 2; i++) {
        auto m = n[i];
        std::string s8; std::u16string s16; std::u32string s32;
        for(size_t j = 0; j < m; j++) { s8 += "\u20ac"; s16 += u'\u20ac'; s32 += U'\U0001f600'; }
        std::vector<uint8_t> out;
        c[i] = measure([&] {
            switch(k) {
                case 0: Tools::conv_charset(Encoding::UTF16, String(s8), out, true); break;
                case 1: Tools::conv_charset(Encoding::UTF8, String(s16), out, true); break;
                case 2: Tools::conv_charset(Encoding::UTF8, String(s32), out, true); break;
                case 3: Tools::conv_charset(Encoding::UTF32, String(s8), out, true); break;
                case 4: { auto b = Tools::bytes_to_base64((const uint8_t*)s8.data(), s8.size()); Tools::base64_to_bytes((const char*)b.data(), b.size()); break; }
                case 5: { auto b = Tools::bytes_to_hex((const uint8_t*)s8.data(), s8.size()); Tools::hex_to_bytes(b.data(), b.size()); break; }
                case 6: case 7: { Lib::HTable<uint64_t, uint64_t> t; for(size_t j = 0; j < m; j++) t.insert(j * 7, j); for(size_t j = 0; j < m; j++) t.get(j * 7 + k % 2); if(k == 7) for(size_t j = 0; j < m; j++) t.remove(j * 7); break; }
                case 8: { Lib::Heap h; for(size_t j = 0; j < m; j++) h.get_mem<uint8_t>(1 + j % 300); break; }
                case 9: { Lib::Heap h; for(size_t j = 0; j < m; j++) { auto p = h.get_mem<uint8_t>(8 + j % 300); h.put_mem(p, 8 + j % 300); } break; }
                case 10: { Lib::Heap h; for(size_t j = 0; j < m; j++) h.get_mem<uint64_t>(sizeof(uint64_t)); h.clear(); for(size_t j = 0; j < m; j++) h.get_mem<uint8_t>(2); break; }
                case 11: { Tree t; PMsgPack p; for(size_t j = 0; j < m; j++) { auto& b = victim(Msg); t.load_source(b, p); } break; }
                case 12: { Tree t; PJson p; In1<v_str> o; o.v = { "a", "b" }; for(size_t j = 0; j < m; j++) t.store(o, p); break; }
                case 14: { Tree t; auto& r = t.root(); r.insert("keep", 1); for(size_t j = 0; j < m; j++) { r.insert("v", int(j), "t", num(j) + " text of some length"); r.remove_value("v"); r.remove_value("t"); } break; }
                case 15: { Tree t; auto& r = t.root(); for(size_t j = 0; j < m; j++) { r.insert("s", ScopeWrap([&](Node& o) { o.insert("x", int(j), "o", ScopeWrap()); }, Type::Object)); r.remove_node("s"); } break; }
                case 16: { Tree t; PMsgPack p; for(size_t j = 0; j < m / 50; j++) { In1<std::vector<std::shared_ptr<Poly>>> o, q; for(int l = 0; l < 5; l++) o.v.emplace_back(l % 2 ? new Poly : new Poly2); o.v.push_back(o.v[0]); t.restore(q, t.store(o, p), p); } break; }
                case 17: { Tree t; PMsgPack p; PSrl q; PJson js; for(size_t j = 0; j < m; j++) { Tree o; o.root().insert("name " + num(j), std::string(300, 't'), "long name of a scope " + num(j), ScopeWrap([](Node& n) { n.insert("x", 1); })); Parser& r = j % 3 == 0 ? (Parser&)p : j % 3 == 1 ? (Parser&)q : (Parser&)js; auto b = o.to_source(r); if(j % 2) t.load_source(b, r); else { std::istringstream s(std::string(b.begin(), b.end())); t.load_source(s, r); } } break; }
                case 18: { Tree t; PSrl p; for(size_t j = 0; j < m; j++) { In1<std::vector<std::shared_ptr<Poly>>> o; for(int l = 0; l < 9; l++) o.v.emplace_back(new Poly2); t.store(o, p); t.load_object(o); } break; }
                case 19: { Lib::HTable<uint64_t, std::string> t; for(size_t j = 0; j < m; j++) { for(int l = 0; l < 20; l++) t.insert(l, std::string(40, 'v')); for(int l = 0; l < 20; l++) t.remove(l); } break; }
                case 20: { PMsgPack p; PSrl q; PJson js; for(size_t j = 0; j < m; j++) { Tree t; Buf b; t.pack(b, j % 3 == 0 ? (Parser&)p : j % 3 == 1 ? (Parser&)q : (Parser&)js, "n" + num(j), std::string(100, 'x'), "o", ScopeWrap([](Node& n) { n.insert("x", 1); })); } break; }
                case 21: { Tree t, o; o.root().insert("text", std::string(300000, 't'), "blob", Bytes(std::vector<uint8_t>(500000, 7)), "s", "short", "u", std::string(70000, 'u')); PMsgPack p; auto b = o.to_source(p); for(size_t j = 0; j < m; j++) { if(j % 2) t.load_source(b, p); else { std::istringstream s(std::string(b.begin(), b.end())); t.load_source(s, p); } } break; }
                case 22: { Tree t; In1<v_str> o; o.v = { std::string(400000, 'a'), "b", std::string(30000, 'c') }; PSrl p; for(size_t j = 0; j < m; j++) { if(j % 2) t.store(o, p); else { std::ostringstream s; t.store(o, s, p); } } break; }
                case 13: { Tree t; PSrl p; Any a; for(size_t j = 0; j < m; j++) t.restore(a, victim(SrlF), p); break; }
            }
        });
    }
    proportional(x, what[k], n[0], n[1], c[0], c[1]);
    /* nothing is kept from one use to the next */
    if(repeated && c[1].mem > 2 * c[0].mem + 20000) x.fail("memory grows with the number of uses", std::string(what[k]) + ": " + num(c[0].mem) + " and " + num(c[1].mem));
}
int main(int argc, char** argv) { return mc::main("P29", argc, argv); }
