#include "gen.h"
#include "stream.h"
#include <array>
#include <deque>
#include <set>
#include <unordered_map>

using namespace doc;
using namespace Srl;

/* everything allocated during an execution: memory in proportion to the input */
static uint64_t allocated;
extern "C" void __sanitizer_malloc_hook(const volatile void*, size_t n) { allocated += n; }

struct Shape { virtual ~Shape() { } virtual const TypeID& srl_type_id() = 0; virtual void srl_resolve(Context&) = 0; };
struct Dot : Shape { int x = 1; std::string s; const TypeID& srl_type_id() override; void srl_resolve(Context& c) override { c("x", x); c("s", s); } };
struct Pad { virtual ~Pad() { } int pad = 1; };
struct Ring : Pad, Shape { std::vector<int> v; std::unique_ptr<Dot> d; const TypeID& srl_type_id() override; void srl_resolve(Context& c) override { c("v", v); } };
struct Other { virtual ~Other() { } int z = 3; virtual const TypeID& srl_type_id(); virtual void srl_resolve(Context& c) { c("z", z); } };
static const auto reg_dot = register_type<Dot>("Dot"); static const auto reg_ring = register_type<Ring>("Ring"); static const auto reg_other = register_type<Other>("Other");
const TypeID& Dot::srl_type_id() { return reg_dot; } const TypeID& Ring::srl_type_id() { return reg_ring; } const TypeID& Other::srl_type_id() { return reg_other; }

struct Plain { int a = 1; std::string b; void srl_resolve(Context& c) { c("a", a)("b", b); } };


/* all kinds of targets; every field is tried */
struct All {
    int i = 0; uint8_t u = 0; double d = 0; bool b = false; std::string s; std::u16string w; char ca[5] { }; char16_t cw = 0;
    std::vector<int> vi; std::vector<std::string> vs; std::map<std::string, int> m; std::set<int> st; std::list<std::vector<double>> ll; int arr[3] { }; std::array<int, 2> sa { };
    std::pair<int, std::string> p; std::tuple<int, std::string, std::vector<int>> t; Plain pl; std::vector<Plain> vp; std::unique_ptr<int> ui; std::unique_ptr<Plain> up;
    std::unique_ptr<Shape> sh; std::vector<std::unique_ptr<Shape>> vsh; std::shared_ptr<Plain> sp; std::shared_ptr<Shape> ss; std::shared_ptr<Dot> sd; std::shared_ptr<Other> so; std::weak_ptr<Plain> wp;
    std::vector<uint8_t> bytes; std::vector<uint32_t> words; Lib::HTable<std::string, int> ht;
    bool storing = false;
    template<class C, class T> void one(C& c, const char* n, T&& x)
    {
        if(storing) { c(n, x, CtxFlags::Optional); return; }
        try { c(n, x, CtxFlags::Optional); } catch(Exception&) { failed++; if(!go_on) throw; }
    }
    int failed = 0; bool go_on = false;
    void srl_resolve(Context& c)
    {
        one(c, "i", i); one(c, "u", u); one(c, "d", d); one(c, "b", b); one(c, "s", s); one(c, "w", w); one(c, "ca", ca); one(c, "cw", cw);
        one(c, "vi", vi); one(c, "vs", vs); one(c, "m", m); one(c, "st", st); one(c, "ll", ll); one(c, "arr", arr);
        one(c, "p", p); one(c, "t", t); one(c, "pl", pl); one(c, "vp", vp); one(c, "ui", ui); one(c, "up", up);
        if(!storing || sh) one(c, "sh", sh);
        one(c, "vsh", vsh); one(c, "sp", sp); one(c, "ss", ss); one(c, "sd", sd); one(c, "so", so); one(c, "wp", wp);
        one(c, "bytes", VecWrap<uint8_t>(bytes)); one(c, "words", VecWrap<uint32_t>(words)); one(c, "ht", ht);
    }
};

static void touch(All& a)
{
    volatile size_t n = a.s.size() + a.w.size() + a.vi.size() + a.m.size();
    if(a.ss && a.ss->srl_type_id().name()) n++;
    if(a.sd) n += a.sd->s.size() + a.sd->x;
    if(a.so) n += a.so->z;
    if(a.sp) n += a.sp->b.size();
    for(auto& v : a.vsh) if(v) n += strlen(v->srl_type_id().name());
    if(auto* r = dynamic_cast<Ring*>(a.ss.get())) n += r->v.size() + r->pad;
}

template<class F> static bool guard(mc::X& x, const Buf& b, F&& fn, const char* what)
{
    allocated = 0;
    bool ok = true;
    try { fn(); }
    catch(Exception&) { ok = false; }
    catch(std::exception& e) { x.fail("undocumented exception", std::string(what) + ": " + e.what() + " for " + mc::show(b)); }
    x.step();
    if(allocated > 600000 + 4000 * b.size()) x.fail("memory out of proportion to the input", std::string(what) + ": " + std::to_string(allocated) + " bytes allocated for " + mc::show(b));
    return ok;
}

static uint64_t walk(Node& n)
{
    uint64_t h = 0;
    n.foreach_value([&](Value& v) { h = mc::mix(h, (uint64_t)v.type()); h = mc::mix(h, mc::hash(v.data(), v.size())); h = mc::mix(h, mc::hash(v.name().data(), v.name().size())); });
    n.foreach_node([&](Node& c) { h = mc::mix(h, walk(c)); h = mc::mix(h, mc::hash(c.name().data(), c.name().size())); });
    return h;
}

static void as_tree(mc::X& x, int f, const Buf& b, bool stream, bool rewrite)
{
    Tree t;
    bool ok = guard(x, b, [&] {
        if(stream) { ChunkStream s(b); load(t, f, s); }
        else { Exact e(b); with(f, [&](auto& p) { t.load_source(e.p, e.n, p); return 0; }); }
    }, stream ? "load from stream" : "load");
    /* the input is gone: what the tree holds must be its own */
    auto h = walk(t.root());
    x.state(mc::mix(h, ok));
    if(!rewrite || !ok) return;
    for(int g = 0; g < NumFmt; g++) {
        allocated = 0;
        try { write(t, g); } catch(Exception&) { }
    }
    try { t.root().foreach_value([&](Value& v) { if(v.type() != Type::Binary) v.unwrap<std::string>(); }, true); } catch(Exception&) { }
    try { t.root().foreach_value([&](Value& v) { v.unwrap<int>(); }, true); } catch(Exception&) { }
}

static void as_object(mc::X& x, int f, const Buf& b, bool stream, bool go_on)
{
    auto a = std::make_unique<All>();
    a->go_on = go_on;
    guard(x, b, [&] {
        if(stream) { ChunkStream s(b, { 1, 1, 3 }); with(f, [&](auto& p) { Tree().restore(*a, s, p); return 0; }); }
        else { Exact e(b); with(f, [&](auto& p) { Tree().restore(*a, e.src(), p); return 0; }); }
    }, "restore");
    touch(*a);
    /* through the tree */
    if(stream) return;
    auto c = std::make_unique<All>();
    c->go_on = go_on;
    Tree t;
    guard(x, b, [&] { Exact e(b); with(f, [&](auto& p) { t.load_source(e.p, e.n, p); return 0; }); t.root().paste(*c); }, "paste from tree");
    touch(*c);
}

static void as_others(mc::X& x, int f, const Buf& b)
{
    Exact e(b);
    auto one = [&](auto&& o, const char* w) { guard(x, b, [&] { with(f, [&](auto& p) { Tree().restore(o, e.src(), p); return 0; }); }, w); };
    one(std::vector<std::string>(), "vector<string>"); one(std::vector<std::vector<int>>(), "vector<vector<int>>"); one(std::map<int, std::string>(), "map");
    one(std::tuple<int, std::string>(), "tuple"); one(std::vector<std::shared_ptr<Plain>>(), "vector<shared_ptr>"); one(int(), "int"); one(std::string(), "string");
    guard(x, b, [&] { with(f, [&](auto& p) { Union u, w; int i = 0; Tree().unpack(e.src(), p, "a", u, "b", w, "i", i); return 0; }); }, "unpack");
}

/* alphabets **************************************************************************************/

static const std::string json_alpha = "{}[]\":,\\/*t1 u";

MC_SCENARIO("all short inputs", "all inputs of 0..2 bytes and of 3 bytes with the third out of 24 (thorough: all), memory and stream, 3 formats")
{
    int s = x.shard(256);
    int f = 1 + x.choose(3);
    static const uint8_t third[] { 0, 1, 5, 0x22, 0x27, 0x2c, 0x2d, 0x2f, 0x31, 0x3a, 0x5b, 0x5c, 0x5d, 0x75, 0x7b, 0x7d, 0x7f, 0x80, 0x90, 0xa0, 0xc1, 0xda, 0xdf, 0xff };
    Buf b;
    if(s == 0) { as_tree(x, f, b, false, true); as_tree(x, f, b, true, false); }
    b.push_back(s);
    as_tree(x, f, b, false, true); as_tree(x, f, b, true, false); as_object(x, f, b, false, true); as_others(x, f, b);
    b.push_back(0);
    for(int i = 0; i < 256; i++) {
        b.resize(2); b[1] = i;
        as_tree(x, f, b, false, true); as_tree(x, f, b, true, false); as_object(x, f, b, true, true);
        b.push_back(0);
        for(int k = 0; k < (x.thorough ? 256 : 24); k++) { b[2] = x.thorough ? k : third[k]; as_tree(x, f, b, false, k % 8 == 0); }
    }
}

MC_SCENARIO("JSON structure", "all texts of up to 6 (thorough: 7) characters over {}[]\":,\\/*t1 u behind each opening bracket")
{
    int N = json_alpha.size();
    int s = x.shard(2 * N * N);
    Buf b { (uint8_t)(s % 2 ? '{' : '['), (uint8_t)json_alpha[s / 2 % N], (uint8_t)json_alpha[s / 2 / N] };
    int max = x.thorough ? 8 : 6;
    std::function<void()> rec = [&] {
        as_tree(x, JsonC, b, false, false);
        if((int)b.size() >= max) return;
        for(char c : json_alpha) { b.push_back(c); rec(); b.pop_back(); }
    };
    rec();
}

MC_SCENARIO("MessagePack structure", "all byte strings of up to 4 (thorough: 5) over 30 bytes covering every prefix class behind 6 scope headers")
{
    static const uint8_t al[] { 0x00, 0x01, 0x7f, 0x80, 0x81, 0x82, 0x8f, 0x90, 0x91, 0x9f, 0xa0, 0xa1, 0xbf, 0xc0, 0xc1, 0xc3, 0xc4, 0xc6, 0xc7, 0xca, 0xcc, 0xcf, 0xd3, 0xd9, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xff };
    static const std::vector<Buf> hs { { 0x81 }, { 0x82 }, { 0x92 }, { 0xdc, 0, 3 }, { 0xdf, 0xff, 0xff, 0xff, 0xff }, { 0x81, 0xa1, 'a' } };
    int s = x.shard(6 * 30);
    Buf b = hs[s % 6];
    b.push_back(al[s / 6]);
    size_t max = hs[s % 6].size() + (x.thorough ? 5 : 4);
    std::function<void()> rec = [&] {
        as_tree(x, Msg, b, false, false);
        if(b.size() >= max) return;
        for(auto c : al) { b.push_back(c); rec(); b.pop_back(); }
    };
    rec();
}

MC_SCENARIO("Srl structure", "all byte strings of up to 4 (thorough: 5) over 26 bytes (types, flags, small and continued integers) behind the headers of written documents")
{
    static const uint8_t al[] { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 0x20, 0x2e, 0x40, 0x61, 0x7f, 0x80, 0xcd, 0xff };
    static std::vector<Buf> hs;
    if(hs.empty()) {
        Tree t, a(Type::Array), c;
        t.root().insert("a", 1); a.root().insert("", "x"); c.root().insert("n", ScopeWrap([](Node& n) { n.insert("a", 5); n.insert("a", 6); }));
        for(auto* q : { &t, &a, &c }) { auto w = write(*q, SrlF); for(size_t k = 1; k <= w.size() && k < 9; k++) { Buf h(w.begin(), w.begin() + k); if(std::find(hs.begin(), hs.end(), h) == hs.end()) hs.push_back(h); } }
    }
    int s = x.shard(hs.size());
    Buf b = hs[s];
    b.push_back(al[x.choose(26)]);
    size_t max = hs[s].size() + (x.thorough ? 4 : 3);
    std::function<void()> rec = [&] {
        as_tree(x, SrlF, b, false, false);
        if(b.size() >= max) return;
        for(auto c : al) { b.push_back(c); rec(); b.pop_back(); }
    };
    rec();
}

/* corpus *****************************************************************************************/

static const std::vector<Buf>& corpus(int f)
{
    static std::vector<Buf> cs[NumFmt];
    auto& v = cs[f];
    if(!v.empty()) return v;
    auto add = [&](const Buf& b) { v.push_back(b); };
    auto all = std::make_unique<All>();
    All& a = *all;
    a.storing = true;
    a.i = -5; a.u = 200; a.d = 0.5; a.s = "te\"xt\n"; a.w = u"w\u00e9"; strcpy(a.ca, "abcd"); a.cw = u'x'; a.vi = { 1, 300 }; a.vs = { "", "abc" }; a.m["k"] = 3; a.st = { 7 };
    a.ll = { { 1.5 } }; a.arr[1] = 2; a.p = { 1, "p" }; a.t = std::make_tuple(1, "q", std::vector<int> { 4 }); a.vp.resize(1); a.ui = std::make_unique<int>(9); a.up = std::make_unique<Plain>();
    a.sh = std::make_unique<Dot>(); a.vsh.emplace_back(new Ring()); a.sp = std::make_shared<Plain>(); a.wp = a.sp; a.sd = std::make_shared<Dot>(); a.ss = a.sd; a.so = std::make_shared<Other>();
    a.bytes = { 1, 2, 3 }; a.words = { 7 }; a.ht.insert("h", 1);
    add(with(f, [&](auto& p) { return Tree().store(a, p); }));
    auto tree = [&](const Doc& d) { Tree t(d.array ? Type::Array : Type::Object); build(t.root(), d); add(write(t, f)); };
    tree(Doc().v("a", Val::i64(-70000)).v("b", Val::str("abc")).n("n", Doc(true).v("", Val::boolean(true)).n("", Doc())).v("a", Val::null()));
    tree(Doc(true).v("", Val::dbl(1e300)).v("", Val::fp(0.5f)).v("", Val::bin(std::string(40, 'b'))).v("", Val::str(std::string(40, 's'))).v("", Val::u64(UINT64_MAX)));
    /* the objects in the spots of each other */
    auto spot = [&](const char* name, std::function<void(Node&)> in) { Tree t; t.root().insert(name, ScopeWrap(in)); add(write(t, f)); };
    spot("ss", [](Node& n) { n.insert("srl_shared_key", 0, "srl_shared_value", ScopeWrap([](Node& m) { m.insert("srl_type_id", "Other", "z", 1); })); });
    spot("sh", [](Node& n) { n.insert("srl_type_id", "Ring", "v", std::vector<int> { 1, 2 }); });
    {
        Tree t;
        auto sh = [](const char* type) { return ScopeWrap([type](Node& n) { n.insert("srl_shared_key", 0, "srl_shared_value", ScopeWrap([type](Node& m) { m.insert("srl_type_id", type, "x", 1, "s", "long enough to be allocated", "v", std::vector<int> { 1 }, "z", 2, "a", 5, "b", "another text to be allocated"); })); }); };
        auto ref = ScopeWrap([](Node& n) { n.insert("srl_shared_key", 0); });
        t.root().insert("ss", sh("Ring"), "sd", ref, "so", ref, "sp", ref, "wp", ref); add(write(t, f));
        Tree u;
        u.root().insert("sp", sh("Dot"), "ss", ref, "sd", ref, "so", ref, "wp", ref); add(write(u, f));
        Tree w;
        w.root().insert("so", sh("Other"), "ss", ref, "sd", ref, "sp", ref); add(write(w, f));
    }
    if(f == JsonC) {
        for(const char* s : { "{\"s\":\"\\u0041\\ud83d\\ude00\\n\",/* c */\"i\":-1.5e3,// x\n\"vi\":[1,2]}", "[true,false,null,nan,inf,-inf,[],{}]" }) add(Buf(s, s + strlen(s)));
    }
    return v;
}

MC_SCENARIO("corpus cut", "all prefixes of the corpus (one document of 34 field types, trees, documents with foreign types in shared and polymorphic spots) in all formats, memory and stream, loaded, rewritten, and restored into an object of all field types and 8 other types")
{
    int s = x.shard(40);
    int f = s % 4;
    auto& c = corpus(f);
    auto& d = c[x.choose((int)c.size())];
    for(size_t n = s / 4; n <= d.size(); n += 10) {
        Buf b(d.begin(), d.begin() + n);
        as_tree(x, f, b, false, true); as_tree(x, f, b, true, false);
        as_object(x, f, b, false, false); as_object(x, f, b, false, true); as_object(x, f, b, true, true);
        as_others(x, f, b);
    }
}

MC_SCENARIO("corpus substitutions", "every byte of the corpus replaced by every value (quick: 40 values)")
{
    int s = x.shard(256);
    if(!x.thorough) {
        static const std::set<int> keep { 0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, '"', '\'', '*', ',', '-', '/', '1', ':', '[', '\\', ']', 'e', 'u', '{', '}', 0x7f, 0x80, 0x9f, 0xa0, 0xc1, 0xc6, 0xdb, 0xdd, 0xff };
        if(!keep.count(s)) x.skip();
    }
    int f = x.choose(NumFmt);
    auto& c = corpus(f);
    auto d = c[x.choose((int)c.size())];
    for(size_t i = 0; i < d.size(); i++) {
        auto old = d[i];
        if(old == s) continue;
        d[i] = s;
        as_tree(x, f, d, i % 2, i % 4 == 0);
        as_object(x, f, d, false, i % 3 == 0);
        if(i % 5 == 0) { as_object(x, f, d, true, true); as_others(x, f, d); }
        d[i] = old;
    }
}

MC_SCENARIO("corpus edits", "every byte of the corpus deleted, doubled, and 18 structural bytes inserted before it; every pair of adjacent bytes swapped; every span of up to 6 bytes removed or repeated")
{
    static const uint8_t ins[] { 0, 1, 6, 7, 12, '"', ',', ':', '[', ']', '{', '}', '\\', '/', 0x80, 0xc0, 0xdd, 0xff };
    int s = x.shard(20 + 12);
    int f = x.choose(NumFmt);
    auto& c = corpus(f);
    auto& d = c[x.choose((int)c.size())];
    for(size_t i = 0; i < d.size(); i++) {
        auto b = d;
        if(s < 18) b.insert(b.begin() + i, ins[s]);
        else if(s == 18) { if(i + 1 < b.size()) std::swap(b[i], b[i + 1]); }
        else if(s == 19) b.insert(b.begin() + i, b[i]);
        else { size_t n = std::min<size_t>((s - 20) / 2 + 1, b.size() - i); if(s % 2) b.erase(b.begin() + i, b.begin() + i + n); else { Buf q(b.begin() + i, b.begin() + i + n); b.insert(b.begin() + i, q.begin(), q.end()); } }
        as_tree(x, f, b, i % 2, i % 4 == 0);
        as_object(x, f, b, false, i % 3 == 0);
        if(i % 7 == 0) { as_object(x, f, b, true, true); as_others(x, f, b); }
    }
}

MC_SCENARIO("pairs of substitutions", "every pair of bytes of small documents replaced by each of 10 values (quick: pairs up to 12 apart)")
{
    int f = 1 + x.shard(3 * 10) % 3;
    static const uint8_t js[] { '"', '{', ']', ',', ':', '\\', '/', '1', 0, 0xff }, ms[] { 0, 1, 0x81, 0x91, 0xa3, 0xc4, 0xca, 0xdb, 0xdf, 0xff }, ss[] { 0, 1, 2, 7, 12, 14, 15, 16, 0x80, 0xff };
    auto* al = f == 1 ? js : f == 2 ? ms : ss;
    int v1 = x.shard_val / 3;
    auto d = corpus(f)[1 + x.choose(2)];
    int v2 = x.choose(10);
    for(size_t i = 0; i < d.size(); i++) for(size_t k = i + 1; k < d.size() && (x.thorough || k < i + 12); k++) {
        auto a = d[i], b = d[k];
        d[i] = al[v1]; d[k] = al[v2];
        as_tree(x, f, d, (i + k) % 2, false);
        d[i] = a; d[k] = b;
    }
}

MC_SCENARIO("extreme lengths", "every length-carrying construct of MessagePack and Srl with announced lengths 0..70, 2^k-1, 2^k, 2^k+1, all ones, followed by 0..40 bytes (every Srl integer of 1..11 bytes), at top level and nested, memory and stream")
{
    static const std::vector<uint64_t> ns = [] { std::set<uint64_t> s; for(int i = 0; i < 71; i++) s.insert(i); for(int k = 7; k < 64; k++) for(int d = -1; d < 2; d++) s.insert((1ull << k) + d); s.insert(UINT64_MAX); s.insert(UINT64_MAX - 1); s.insert(UINT64_MAX - 31); return std::vector<uint64_t>(s.begin(), s.end()); }();
    auto n = ns[x.shard(ns.size())];
    int kind = x.choose(13 + 8), have = x.choose(5), outer = x.choose(3);
    static const int bytes[] { 0, 1, 7, 32, 40 };
    Buf b;
    int f = kind < 13 ? Msg : SrlF;
    auto tail = [&] { for(int i = 0; i < bytes[have]; i++) b.push_back("\xa1" "a\x01\xa1" "b\xc0\x01\x02"[i % 8]); };
    if(f == Msg) {
        static const int pf[] { 0xc4, 0xc5, 0xc6, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xa0, 0x80, 0x90 }, w[] { 1, 2, 4, 1, 2, 4, 2, 4, 2, 4, 0, 0, 0 };
        if(w[kind] < 8 && w[kind] && n >> (8 * w[kind])) x.skip();
        if(!w[kind] && n > (pf[kind] == 0xa0 ? 31 : 15)) x.skip();
        if(outer == 1) b = { 0x81, 0xa1, 'a' };
        if(outer == 2) b = { 0x81 };                    /* as key */
        if(w[kind]) { b.push_back(pf[kind]); be(b, n, w[kind]); } else b.push_back(pf[kind] | (int)n);
        tail();
    } else {
        /* a written document with one length replaced: found by writing it with a length of 5 */
        int k = kind - 13;
        Tree t(k == 3 ? Type::Array : Type::Object);
        size_t at = 0;
        if(k == 0) t.root().insert("abcde", 1);                               /* length of a name */
        if(k == 1 || k == 3) t.root().insert("a", "vwxyz");                   /* length of a text */
        if(k == 2) t.root().insert("a", BitWrap((const uint8_t*)"vwxyz", 5)); /* of a blob */
        if(k == 4) { t.root().insert("n", ScopeWrap([](Node& n) { n.insert("k", 1); n.insert("k", 2); })); }
        if(k == 5) { for(int i = 0; i < 2; i++) t.root().insert("same", i); }
        if(k == 6) { t.root().insert("n", ScopeWrap([](Node& n) { n.insert("fghij", "x"); })); }
        if(k == 7) { t.root().insert("a", (uint64_t)5); }
        b = write(t, SrlF);
        /* replace every byte position in turn by the encoded length */
        auto base = b;
        int pos = outer * 7;
        for(int q = 0; q < 7 && pos + q < (int)base.size(); q++) {
            b.assign(base.begin(), base.begin() + pos + q);
            uint64_t v = n; do { uint8_t c = v & 0x7f; v >>= 7; if(v) c |= 0x80; b.push_back(c); } while(v);
            b.insert(b.end(), base.begin() + pos + q + 1, base.end());
            for(int i = 0; i < bytes[have]; i++) b.push_back(i);
            as_tree(x, f, b, false, true); as_tree(x, f, b, true, false); as_object(x, f, b, false, true);
            /* big-endian groups */
            b.assign(base.begin(), base.begin() + pos + q);
            Buf g; v = n; do { g.insert(g.begin(), (v & 0x7f) | (g.empty() ? 0 : 0x80)); v >>= 7; } while(v);
            b.insert(b.end(), g.begin(), g.end());
            b.insert(b.end(), base.begin() + pos + q + 1, base.end());
            as_tree(x, f, b, false, true); as_tree(x, f, b, true, false);
        }
        return;
    }
    as_tree(x, f, b, false, true); as_tree(x, f, b, true, false); as_object(x, f, b, false, true); as_others(x, f, b);
}

MC_SCENARIO("repeated pieces", "every opening piece of every format repeated 1..4, 10, 100, 127..130, 1000, 30000 times, alone and closed, memory and stream")
{
    static const std::vector<std::pair<int, std::string>> ps {
        { JsonC, "[" }, { JsonC, "{" }, { JsonC, "{\"a\":" }, { JsonC, "[[]," }, { JsonC, "\"" }, { JsonC, "[\"" }, { JsonC, "[\"\\" }, { JsonC, "/*" }, { JsonC, "[//" }, { JsonC, "[1" }, { JsonC, "[," }, { JsonC, "[ " }, { JsonC, "{\"a\":1," }, { JsonC, "\xef\xbb\xbf" }, { JsonC, "[\"\\u" }, { JsonC, "[-" }, { JsonC, "[1e" },
        { Msg, "\x91" }, { Msg, "\x9f" }, { Msg, "\x81\xa1" "a" }, { Msg, "\xdd\xff\xff\xff\xff" }, { Msg, "\xde\x01\x01\xa0" }, { Msg, std::string("\xdf\x00\x00\x00\x02", 5) }, { Msg, "\x90" }, { Msg, "\x81\x81" },
        { SrlF, "\x0e" }, { SrlF, "\x0d" }, { SrlF, "\x0f" }, { SrlF, "\x80" }, { SrlF, "\xff" }, { SrlF, std::string("\x0e\x00", 2) }, { SrlF, "\x0e\x01" }, { SrlF, std::string("\x0d\x02\x00", 3) } };
    auto& p = ps[x.shard(ps.size())];
    static const std::vector<int> reps { 1, 2, 3, 4, 10, 100, 127, 128, 129, 130, 1000, 30000 };
    int n = x.pick(reps), close = x.choose(3);
    Buf b;
    if(close == 2) { Tree t; t.root().insert("a", 1); b = write(t, p.first); if(!b.empty()) b.pop_back(); }
    for(int i = 0; i < n; i++) b.insert(b.end(), p.second.begin(), p.second.end());
    if(close == 1) for(int i = 0; i < n; i++) b.push_back(p.second[0] == '[' ? ']' : p.second[0] == '{' ? '}' : '"');
    as_tree(x, p.first, b, false, true); as_tree(x, p.first, b, true, false); as_object(x, p.first, b, false, true); as_object(x, p.first, b, true, false); as_others(x, p.first, b);
}

/* conversions of arbitrary text */
MC_SCENARIO("text to number", "all texts of up to 6 (thorough: 7) characters over 0 1 9 - + . e n i f t space as values restored into numbers, and through JSON as literals")
{
    static const std::string al = "019-+.enift ";
    int N = al.size();
    int s = x.shard(N * N);
    std::string t { al[s / N], al[s % N] };
    size_t max = x.thorough ? 6 : 5;
    std::function<void()> rec = [&] {
        {
            Exact e(t);
            allocated = 0;
            try { auto r = Tools::str_to_type(e.p, e.n); if(r.first) { r.second.unwrap<std::string>(); x.state(mc::hash(r.second.unwrap<std::string>())); } } catch(Exception&) { }
            for(auto h : { Type::I32, Type::UI64, Type::FP64, Type::Bool, Type::Null }) try { Tools::str_to_type(e.p, e.n, h); } catch(Exception&) { }
            x.step();
            if(t.size() < 5) { Buf b { '[' }; b.insert(b.end(), t.begin(), t.end()); b.push_back(']'); as_tree(x, JsonC, b, false, false); b.pop_back(); as_tree(x, JsonC, b, true, false); }
        }
        if(t.size() >= max) return;
        for(char c : al) { t.push_back(c); rec(); t.pop_back(); }
    };
    rec();
}

int main(int argc, char** argv) { return mc::main("P07", argc, argv); }
