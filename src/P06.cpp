#include "gen.h"
#include "stream.h"

using namespace doc;

static std::string pad(size_t n) { std::string s; for(size_t i = 0; i < n; i++) s += "abcdefghijklmnopqrstuvwxyz"[(i * 5 + i / 26) % 26]; return s; }
static std::string str(const Buf& b) { return std::string(b.begin(), b.end()); }

static void build_tree(Srl::Tree& t, const Doc& d) { t = Srl::Tree(d.array ? Srl::Type::Array : Srl::Type::Object); build(t.root(), d); }

static const std::vector<size_t>& sizes(bool thorough)
{
    static std::vector<size_t> v;
    if(v.empty()) {
        std::set<size_t> s;
        auto r = [&](size_t a, size_t b) { for(size_t i = a; i <= b; i++) s.insert(i); };
        if(thorough) r(0, 3200); else { r(0, 20); r(930, 1060); r(1980, 2080); r(3030, 3090); }
        for(size_t b : { 4096, 8192, 16384, 32768, 65536 }) r(b - 4, b + 4);
        v.assign(s.begin(), s.end());
    }
    return v;
}

static void compare(mc::X& x, const std::string& mem, const std::string& got, const char* how, int f)
{
    x.step();
    if(mem != got) {
        size_t i = 0;
        while(i < mem.size() && i < got.size() && mem[i] == got[i]) i++;
        x.fail(std::string("stream output differs: ") + fmt_name(f), std::string(how) + ", " + std::to_string(mem.size()) + " and " + std::to_string(got.size()) + " bytes, first difference at " + std::to_string(i) +
               "\nexpected " + mc::show(mem.substr(i > 20 ? i - 20 : 0, 60)) + "\ngot      " + mc::show(got.substr(i > 20 ? i - 20 : 0, 60)));
    }
}

/* a stream buffer which cannot seek */
struct Pipe : std::streambuf {
    std::string s;
    int_type overflow(int_type c) override { if(c != traits_type::eof()) s += (char)c; return c; }
};

/* a file opened for appending: seeking is possible, but what is written goes to the end */
struct Append : std::streambuf {
    std::string s; size_t at = 0;
    Append(const std::string& s_) : s(s_) { }
    std::streamsize xsputn(const char* p, std::streamsize n) override { s.append(p, n); at = s.size(); return n; }
    int_type overflow(int_type c) override { if(c != traits_type::eof()) { char ch = c; xsputn(&ch, 1); } return c; }
    pos_type seekpos(pos_type p, std::ios_base::openmode) override { at = (size_t)(off_type)p; return p; }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode m) override { return seekpos(o + (d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? at : s.size()), m); }
};

static void all_routes(mc::X& x, const Doc& d, int f)
{
    Srl::Tree t;
    build_tree(t, d);
    auto mem = str(write(t, f));
    x.state(mc::hash(mem));
    x.note("%s: %zu bytes", fmt_name(f), mem.size());
    /* the bytes in memory denote the document */
    auto df = diff(d, load_doc(f, Buf(mem.begin(), mem.end())), is_text(f));
    if(!df.empty()) x.fail(std::string("document changed: ") + fmt_name(f), df);
    compare(x, mem, str(write_stream(t, f)), "empty stream", f);
    {   /* appended to what is there, and followed by more */
        std::stringstream os;
        os << "before";
        with(f, [&](auto& p) { t.to_source(os, p); return 0; });
        os << "after";
        compare(x, "before" + mem + "after", os.str(), "between other content", f);
    }
    {   /* overwriting a part */
        std::string old(mem.size() + 50, '#');
        std::stringstream os(old);
        os.seekp(13);
        with(f, [&](auto& p) { t.to_source(os, p); return 0; });
        auto e = old; e.replace(13, mem.size(), mem);
        compare(x, e, os.str(), "inside other content", f);
    }
    for(int k = 0; k < 2; k++) {    /* appends, to an empty file or behind other content */
        std::string before = k ? "before" : "";
        Append app(before);
        std::ostream os(&app);
        bool ok = true;
        try { with(f, [&](auto& p) { t.to_source(os, p); return 0; }); } catch(Srl::Exception&) { ok = false; }
        if(ok) compare(x, before + mem, app.s, "stream which appends", f);
        else if(f != Msg) x.fail(std::string("sequential format refused by a stream which appends: ") + fmt_name(f));
        else if(mem.size() <= 256) x.fail("small document refused by a stream which appends");
    }
    {   /* cannot seek: the same bytes or refused */
        Pipe pipe;
        std::ostream os(&pipe);
        bool ok = true;
        try { with(f, [&](auto& p) { t.to_source(os, p); return 0; }); } catch(Srl::Exception&) { ok = false; }
        if(ok) compare(x, mem, pipe.s, "stream which cannot seek", f);
        else if(f != Msg) x.fail(std::string("sequential format refused by a stream which cannot seek: ") + fmt_name(f));
        else if(mem.size() <= 256) x.fail("small document refused by a stream which cannot seek");
    }
}

MC_SCENARIO("sizes", "a document of one text of every size near the buffer boundaries (0..20, 930..1060, 1980..2080, 3030..3090, 2^12..2^16; thorough: 0..3200) before, inside, or behind scopes, all formats, seven streams")
{
    auto& ss = sizes(x.thorough);
    auto n = ss[x.shard(ss.size())];
    int f = x.choose(NumFmt), where = x.choose(6);
    Doc d(where == 5), in(where == 4);
    in.v("i", Val::i32(1)).v("t", Val::boolean(true));
    if(where == 0) d.v("p", Val::str(pad(n))).n("n", in);
    if(where == 1) { in.v("p", Val::str(pad(n))); d.n("n", in).n("m", in); }
    if(where == 2) { d.n("n", in).n("m", Doc().v("p", Val::bin(pad(n)))).n("o", in); }
    if(where == 3) { d.v(pad(n), Val::i32(1)).n(pad(n), in).v("z", Val::dbl(0.1)); }
    if(where == 4) { in.n("k", Doc().v("p", Val::str(pad(n)))).n("e", Doc()); d.n("n", in); }
    if(where == 5) { for(size_t i = 0; i < n / 2; i++) d.v("", Val::i32((int)i % 100)); d.n("", in); }
    if(where == 5 && n > 9000) x.skip();
    all_routes(x, d, f);
}

MC_SCENARIO("nested scopes", "scopes nested 1..4 deep with texts of 0, 400, 1000, 1100, 2500 bytes before and behind each inner scope, all combinations, both scope kinds, MessagePack and the others")
{
    static const std::vector<size_t> ps { 0, 400, 1000, 1100, 2500 };
    int s = x.shard(25);
    int depth = 1 + x.choose(x.thorough ? 4 : 3), arr = x.choose(2), f = x.choose(NumFmt);
    Doc d(arr);
    d.v("a", Val::str(pad(ps[s % 5])));
    Doc* at = &d;
    size_t total = ps[s % 5];
    for(int i = 0; i < depth; i++) {
        size_t n = i == 0 ? ps[s / 5] : x.pick(ps);
        at->n("c", Doc((arr + i) % 2));
        at->n("tail", Doc().v("t", Val::str(pad(n))));
        at = &at->nodes[0].second;
        at->v("b", Val::str(pad(x.choose(3) * 510)));
    }
    all_routes(x, d, f);
}

MC_SCENARIO("several writes", "all sequences of 3 documents out of 5 (empty, small, 1000, 1024+, 5000 bytes) written one after another to one stream with 4 formats, from one tree and parser and from new ones")
{
    static const std::vector<Doc> ds { Doc(), Doc(true).v("", Val::i32(1)), Doc().v("p", Val::str(pad(990))).n("n", Doc().v("i", Val::i32(1))),
        Doc().n("n", Doc().v("p", Val::str(pad(1200))).n("m", Doc(true).v("", Val::null()))), Doc().n("n", Doc().v("p", Val::str(pad(5000)))).v("e", Val::bin(pad(20))) };
    int s = x.shard(25);
    int f = x.choose(NumFmt);
    bool share = x.flip();
    int seq[3] { s % 5, s / 5, x.choose(5) };
    with(f, [&](auto& p) {
        std::stringstream os;
        std::string e;
        for(int i : seq) {
            Srl::Tree t;
            build_tree(t, ds[i]);
            if(share) t.to_source(os, p);
            else with(f, [&](auto& q) { t.to_source(os, q); return 0; });
            e += str(write(t, f));
            compare(x, e, os.str(), "several documents", f);
        }
        x.state(mc::hash(e));
        return 0;
    });
}

struct In2 { std::string a; std::vector<int> v; template<class C> void srl_resolve(C& c) { c("a", a); c("v", v); } };
struct Obj {
    std::string s; std::vector<std::string> vs; std::map<std::string, int> m; std::vector<In2> in; double d = 0.25; std::shared_ptr<In2> a, b;
    template<class C> void srl_resolve(C& c) { c("s", s); c("vs", vs); c("m", m); c("in", in); c("d", d); c("a", a); c("b", b); }
};

MC_SCENARIO("objects", "an object with a text of every size near the boundaries in three places, stored directly and packed into memory and stream, all formats")
{
    auto& ss = sizes(x.thorough);
    auto n = ss[x.shard(ss.size())];
    int f = x.choose(NumFmt), where = x.choose(3);
    Obj o;
    o.s = where == 0 ? pad(n) : "s"; o.vs = { "a", where == 1 ? pad(n) : "b" }; o.m["k"] = 1;
    o.in.resize(3); o.in[1].a = where == 2 ? pad(n) : ""; o.in[2].v = { 1, 2, 3 };
    o.a = o.b = std::make_shared<In2>();
    with(f, [&](auto& p) {
        auto mem = str(Srl::Tree().store(o, p));
        std::stringstream os;
        os << "--";
        Srl::Tree().store(o, os, p);
        os << "++";
        compare(x, "--" + mem + "++", os.str(), "stored object", f);
        Buf pm;
        std::stringstream ps;
        int i = 7;
        Srl::ScopeWrap w([&](Srl::Node& n) { n.insert("s", o.s, "in", o.in); }, Srl::Type::Object);
        Srl::Tree().pack(pm, p, "i", i, "o", o, "w", w, "e", i);
        ps << "x";
        Srl::Tree().pack(ps, p, "i", i, "o", o, "w", w, "e", i);
        compare(x, "x" + str(pm), ps.str(), "packed items", f);
        x.state(mc::hash(mem));
        return 0;
    });
}

MC_SCENARIO("number of items", "objects and arrays with every number of items 0..40 and around 2^8, 2^12, 2^16 behind a text of every size 990..1030 (thorough 900..1100), written to memory and stream")
{
    static const auto cs = gen::counts(40, x.thorough ? 70000 : 5000);
    size_t c = cs[x.shard(cs.size())];
    int lo = x.thorough ? 900 : 990, hi = x.thorough ? 1100 : 1030;
    int p = c > 300 ? lo + x.choose(3) * 17 : lo + x.choose(hi - lo + 1);
    bool arr = x.flip();
    Doc d, in(arr);
    for(size_t i = 0; i < c; i++) in.v("n", Val::boolean(i % 2));
    d.v("p", Val::str(pad(p))).n("in", in).n("n", Doc(true).v("", Val::i32(1)));
    Srl::Tree t;
    build_tree(t, d);
    for(int f = 0; f < NumFmt; f++) { auto mem = str(write(t, f)); x.state(mc::hash(mem)); compare(x, mem, str(write_stream(t, f)), "empty stream", f); }
}

int main(int argc, char** argv) { return mc::main("P06", argc, argv); }
