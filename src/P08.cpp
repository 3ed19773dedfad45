#include "gen.h"
#include "stream.h"

using namespace doc;

/* no proper prefix may be accepted; the complete document is */
static void refused(mc::X& x, int f, const Buf& full, size_t n, bool stream, std::vector<size_t> sizes = { })
{
    Buf b(full.begin(), full.begin() + n);
    auto r = try_load(f, b, stream, sizes);
    x.step();
    x.state(mc::hash(b) + stream);
    if(r.ok != (n == full.size()))
        x.fail(std::string(r.ok ? "prefix accepted: " : "document refused: ") + fmt_name(f) + (stream ? " from stream" : ""),
               mc::show(b, 400) + (r.ok ? "\naccepted as " + show(r.d) : r.err) + "\nthe document is " + mc::show(full, 400));
}

static Buf written(const Doc& d, int f)
{
    Srl::Tree t(d.array ? Srl::Type::Array : Srl::Type::Object);
    build(t.root(), d);
    return write(t, f);
}

static void all_cuts(mc::X& x, const Doc& d, int f)
{
    auto b = written(d, f);
    x.note("%s as %s: %zu bytes", show(d).c_str(), fmt_name(f), b.size());
    for(size_t n = 0; n <= b.size(); n++) { refused(x, f, b, n, false); refused(x, f, b, n, true); }
}

MC_SCENARIO("shapes", "all documents with up to 3 (thorough: 4) items below the root, nesting up to 4, names {a, empty}, 4 kinds of values; all formats, every truncation point, memory and stream")
{
    gen::Gen g(x, x.thorough ? 4 : 3, 4);
    auto d = g.root({ "a", "" }, { Val::i32(7), Val::str("t"), Val::null(), Val::bin("\x01\xff") });
    for(int f = 0; f < NumFmt; f++) all_cuts(x, d, f);
}

static const std::vector<Val>& kinds()
{
    static const std::vector<Val> v {
        Val::null(), Val::boolean(true), Val::boolean(false), Val::integer(-5, Srl::Type::I8), Val::integer(-100, Srl::Type::I8), Val::integer(200, Srl::Type::UI8),
        Val::integer(-300, Srl::Type::I16), Val::integer(60000, Srl::Type::UI16), Val::i32(-70000), Val::integer(4000000000u, Srl::Type::UI32),
        Val::i64(INT64_MIN), Val::u64(UINT64_MAX), Val::u64(5), Val::fp(-0.1f), Val::dbl(1e300), Val::dbl(1.25), Val::str(""), Val::str("]}"), Val::str("\"]}\\"), Val::str("text of more than eight bytes"),
        Val::str("\xf0\x9f\x98\x80"), Val::str(std::string("\0\0\0", 3)), Val::bin(""), Val::bin(std::string("\0", 1)), Val::bin("\x00\x80\xff more than eight bytes"), Val::str(std::string(300, 'x')), Val::bin(std::string(300, '\0')) };
    return v;
}

MC_SCENARIO("value kinds", "all pairs of 27 values (every type and encoding width) in object and array, with an empty or filled scope behind or around; all formats, every truncation point")
{
    int s = x.shard(kinds().size() * 2);
    Doc d(s % 2);
    d.v("x", kinds()[s / 2]);
    d.v("name longer than in-place", x.pick(kinds()));
    int w = x.choose(4);
    if(w == 1) d.n("e", Doc(true));
    if(w == 2) d.n("n", Doc().v("x", Val::null()));
    if(w == 3) { auto c = d; d = Doc(); d.n("outer", c); }
    int f = x.choose(NumFmt);
    all_cuts(x, d, f);
}

MC_SCENARIO("sizes", "texts, blobs, names, arrays and objects of all lengths/counts 0..40 and around 128, 256, 1024, 2048, 16384, 65536: every truncation point up to 200 bytes and within 70 bytes of each multiple of 1024 (up to 4 KiB), of the boundaries and of the end")
{
    static const std::vector<size_t> ls = gen::lengths(40, x.thorough ? 66000 : 17000);
    size_t len = ls[x.shard(ls.size())];
    int kind = x.choose(6), f = x.choose(NumFmt);
    Doc d;
    auto s = gen::pattern(len, kind);
    if(kind == 0) d.v("t", Val::str(s));
    if(kind == 1) d.v("b", Val::bin(s));
    if(kind == 2) d.v(s, Val::i32(3)).v(s, Val::i32(4));
    if(kind == 3) { Doc c(true); for(size_t i = 0; i < len; i++) c.v("", Val::u64(i % 200)); d.n("n", c); }
    if(kind == 4) for(size_t i = 0; i < len; i++) d.v(i % 2 ? "aa" : "b", Val::null());
    if(kind == 5) { Doc c(true); for(size_t i = 0; i < len; i++) c.n("", Doc(i % 2)); d = c; }
    if(kind != 5) d.v("last", Val::boolean(true));
    auto b = written(d, f);
    std::set<size_t> cuts;
    auto near = [&](size_t p, int w) { for(int k = -w; k <= w; k++) { long n = (long)p + k; if(n >= 0 && n <= (long)b.size()) cuts.insert(n); } };
    int w = x.thorough ? 70 : 20;
    near(0, x.thorough ? 200 : 40); near(b.size(), w);
    for(size_t p = 1024; p <= 4096; p += 1024) near(p, x.thorough ? 70 : 6);
    if(len < 120) near(len, 1000);
    for(auto n : cuts) { refused(x, f, b, n, false); refused(x, f, b, n, true); }
}

MC_SCENARIO("chunked delivery", "12 documents, all formats, every truncation point, delivered in chunks of every size 1..17 and 3 mixed schedules")
{
    static const std::vector<Doc> ds = [] {
        std::vector<Doc> v;
        for(size_t i = 1; i < kinds().size(); i += 3) { Doc c(true); c.v("", kinds()[i]).v("", kinds()[i - 1]); v.push_back(Doc().v("a", kinds()[i]).n("n", c).n("m", Doc())); }
        return v;
    }();
    int s = x.shard(20);
    auto& d = x.pick(ds);
    int f = x.choose(NumFmt);
    std::vector<size_t> sz { (size_t)s + 1 };
    if(s == 17) sz = { 1, 2, 3, 5 }; if(s == 18) sz = { 30, 1 }; if(s == 19) sz = { 2, 1000 };
    auto b = written(d, f);
    for(size_t n = 0; n <= b.size(); n++) refused(x, f, b, n, true, sz);
}

/* typed restore: never another object than the complete one ***************************************/
struct Sub { std::string a; std::vector<int> v; std::map<std::string, double> m; template<class C> void srl_resolve(C& c) { c("a", a); c("v", v); c("m", m); }
    bool operator==(const Sub& o) const { return a == o.a && v == o.v && m == o.m; } };
struct Obj {
    int i = 0; std::string s; std::vector<Sub> vs; std::unique_ptr<Sub> p; std::tuple<int, std::string> t; std::shared_ptr<Sub> sh, sh2; int arr[2] { }; double d = 0; std::list<std::string> opt;
    int rev = 0;
    /* the references to a shared object in the order of writing */
    template<class C> void srl_resolve(C& c)
    {
        static const int reversed[] { 9, 8, 7, 5, 6, 4, 3, 2, 1, 0 };
        for(int k = 0; k < 10; k++) switch(rev ? reversed[k] : k) {
            case 0: c("i", i); break; case 1: c("s", s); break; case 2: c("vs", vs); break; case 3: c("p", p); break; case 4: c("t", t); break;
            case 5: c("sh", sh); break; case 6: c("sh2", sh2); break; case 7: c("arr", arr); break; case 8: c("d", d); break; case 9: c("opt", opt, Srl::CtxFlags::Optional); break;
        }
    }
    bool operator==(const Obj& o) const { return i == o.i && s == o.s && vs == o.vs && !p == !o.p && (!p || *p == *o.p) && t == o.t && (sh == sh2) == (o.sh == o.sh2) && !sh == !o.sh && (!sh || *sh == *o.sh) && arr[0] == o.arr[0] && arr[1] == o.arr[1] && d == o.d && opt == o.opt; }
};

template<class T> static void typed(mc::X& x, int f, const Buf& full, const T& e, std::function<void(T&)> prep, bool need_all)
{
    for(size_t n = 0; n <= full.size(); n++) for(int stream = 0; stream < 2; stream++) {
        Buf b(full.begin(), full.begin() + n);
        T o { };
        prep(o);
        bool ok = true;
        Srl::Tree t;
        try {
            if(stream) { ChunkStream s(b, { 3, 1, 1, 40 }); with(f, [&](auto& p) { t.restore(o, s, p); return 0; }); }
            else { Exact ex(b); with(f, [&](auto& p) { t.restore(o, ex.src(), p); return 0; }); }
        } catch(Srl::Exception& ex) { ok = false; x.note("%zu: %s", n, ex.what()); }
        x.step();
        x.state(mc::hash(b));
        if(ok && !(o == e)) x.fail(std::string("prefix restored as another object: ") + fmt_name(f), mc::show(b, 400));
        if(!ok && n == full.size()) x.fail("complete document refused");
        if(ok && need_all && n < full.size()) x.fail(std::string("prefix restored: ") + fmt_name(f), mc::show(b, 400));
    }
}

MC_SCENARIO("typed restore", "objects of 10 fields (nested objects, containers, pointers, shared pointers, an optional field) written in 4 fillings and two field orders, containers, restored from every truncation point: refused, or the complete object when only the end of the outermost scope is missing; all formats, memory and stream")
{
    int s = x.shard(16);
    int f = s % 4, fill = s / 4, what = x.choose(6), worder = x.choose(2), rorder = x.choose(2);
    Obj o;
    o.rev = worder;
    if(fill & 1) { o.i = 77; o.s = "te\"xt"; o.vs.resize(2); o.vs[0].a = "q"; o.vs[1].v = { 1, 2, 300 }; o.p = std::make_unique<Sub>(); o.p->m["k"] = 1.5; o.opt = { "x", "" }; }
    if(fill & 2) { o.sh = std::make_shared<Sub>(); o.sh->a = "shared"; o.sh2 = o.sh; std::get<1>(o.t) = "tuple"; o.d = 0.1; o.arr[1] = -9; }
    if(what == 0) {
        auto b = with(f, [&](auto& p) { return Srl::Tree().store(o, p); });
        typed<Obj>(x, f, b, o, [&](Obj& q) { q.rev = rorder; }, false);
        return;
    }
    if(rorder || worder) x.skip();
    auto one = [&](auto e, bool all) {
        typedef decltype(e) T;
        auto b = with(f, [&](auto& p) { return Srl::Tree().store(e, p); });
        typed<T>(x, f, b, e, [](T&) { }, all);
    };
    if(what == 1) one(fill & 1 ? std::vector<int> { 1, 200, -70000 } : std::vector<int> { }, true);
    if(what == 2) { std::map<std::string, std::vector<double>> m; if(fill & 1) m["a"] = { 1.5 }; if(fill & 2) m["b"] = { }; one(m, true); }
    if(what == 3) one(std::vector<Sub>(fill), true);
    if(what == 4) one(std::list<std::string>(fill, "element"), true);
    if(what == 5) one(std::string(fill * 9, 'y'), false);
}

/* interrupted output ******************************************************************************/

/* records what is done to it */
struct Recorder : std::streambuf {
    struct Op { size_t at; std::string s; };
    std::vector<Op> ops;
    size_t pos = 0;
    std::string all;
    std::streamsize xsputn(const char* s, std::streamsize n) override { ops.push_back({ pos, std::string(s, n) }); apply(all, ops.back(), n); pos += n; return n; }
    int_type overflow(int_type c) override { char ch = c; xsputn(&ch, 1); return c; }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override { pos = d == std::ios_base::beg ? o : d == std::ios_base::cur ? pos + o : all.size() + o; return pos; }
    pos_type seekpos(pos_type p, std::ios_base::openmode) override { pos = p; return p; }
    static void apply(std::string& s, const Op& op, size_t n) { if(s.size() < op.at + n) s.resize(op.at + n); s.replace(op.at, n, op.s, 0, n); }
};

MC_SCENARIO("interrupted output", "documents of 0.2 to 5 KiB with 1 to 4 open scopes of both kinds when the output buffer is flushed, written to a stream; the file left by stopping at every write, itself torn at every byte near its ends (thorough: every byte), is refused unless complete; all formats")
{
    static const std::vector<size_t> ps { 0, 500, 900, 1000, 1010, 1016, 1018, 1020, 1023, 1024, 1030, 2040, 2048, 2100, 5000 };
    int s = x.shard(ps.size() * 4);
    size_t pad = ps[s / 4];
    int f = s % 4, outer = x.choose(4), depth = x.choose(3), store = x.choose(3);
    Doc d(outer & 1);
    Doc* c = &d;
    if(store == 2) { d.v("p", Val::str(std::string(pad, 'q'))); }
    for(int i = 0; i < depth; i++) { c->v("v", Val::i32(i)); c->n("n", Doc(outer >> 1 ^ (i & 1))); c = &c->nodes.back().second; }
    if(store == 0) c->v("p", Val::str(std::string(pad, 'q')));
    if(store == 1) for(size_t i = 0; i < pad / 10; i++) c->v("name" + std::to_string(i % 20), Val::u64(i));
    c->v("last", Val::boolean(true));
    c->n("e", Doc()); c->n("e", Doc(true));
    Srl::Tree t(d.array ? Srl::Type::Array : Srl::Type::Object);
    build(t.root(), d);
    Recorder rec;
    std::ostream os(&rec);
    with(f, [&](auto& p) { t.to_source(os, p); return 0; });
    auto full = rec.all;
    if(full != std::string((const char*)write(t, f).data(), full.size())) x.fail("stream output differs");
    std::string file;
    for(auto& op : rec.ops) {
        std::set<size_t> cuts;
        for(size_t n = 0; n < op.s.size(); n++) if(x.thorough || n < 12 || n + 12 > op.s.size() || n % 128 == 0) cuts.insert(n);
        cuts.insert(op.s.size());
        for(auto n : cuts) {
            auto torn = file;
            Recorder::apply(torn, op, n);
            Buf b(torn.begin(), torn.end());
            auto r = try_load(f, b, n & 1);
            x.step(); x.state(mc::hash(torn));
            if(r.ok && torn != full)
                x.fail(std::string("unfinished output accepted: ") + fmt_name(f), "accepted as " + show(r.d) + "\n" + mc::show(torn, 300));
            if(!r.ok && torn == full) x.fail("complete output refused", r.err);
        }
        Recorder::apply(file, op, op.s.size());
    }
    if(file != full) x.fail("incomplete output");
}

int main(int argc, char** argv) { return mc::main("P08", argc, argv); }
