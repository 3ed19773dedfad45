/* Sessions: sequences of calls on trees, parsers and data of their own, of every kind of use of the library */
#ifndef SESSION_H
#define SESSION_H
#include "objs.h"
#include "stream.h"

using namespace doc;
using namespace Srl;

/* Points of a session where user code is called */
static thread_local std::function<void()>* callback = nullptr;
/* settings of the streams given to the library */
static std::function<void(std::ios&)> settings = nullptr;
static std::string bits(double d) { return mc::show(&d, 8); }
static void user() { if(callback) (*callback)(); }

struct SlowBuf : std::streambuf {       /* user code supplies the input */
    Buf d; size_t at = 0; char c[8];
    SlowBuf(const Buf& d_) : d(d_) { }
    int_type underflow() override { user(); if(at >= d.size()) return traits_type::eof(); size_t n = std::min<size_t>(7, d.size() - at); memcpy(c, d.data() + at, n); at += n; setg(c, c, c + n); return traits_type::to_int_type(*gptr()); }
};
struct SlowOut : std::streambuf {       /* and takes the output */
    std::string s;
    int_type overflow(int_type c) override { user(); s += (char)c; return c; }
    std::streamsize xsputn(const char* p, std::streamsize n) override { user(); s.append(p, n); return n; }
    pos_type seekpos(pos_type p, std::ios_base::openmode) override { pos = (size_t)(off_type)p; return p; }
    pos_type seekoff(off_type o, std::ios_base::seekdir, std::ios_base::openmode) override { return s.size(); }
    size_t pos = 0;
};

struct Base { int v = 0; virtual ~Base() { } virtual const TypeID& srl_type_id(); virtual void srl_resolve(Context& c) { user(); c("v", v); user(); } };
struct Derived : Base { std::string s; const TypeID& srl_type_id() override; void srl_resolve(Context& c) override { Base::srl_resolve(c); c("s", s); user(); } };
static const auto r0 = register_type<Base>("Base"); static const auto r1 = register_type<Derived>("Derived");
const TypeID& Base::srl_type_id() { return r0; } const TypeID& Derived::srl_type_id() { return r1; }

struct Leaf { int a = 0; double d = 0; std::string s; std::u16string w; void srl_resolve(Context& c) { user(); c("a", a)("d", d); user(); c("s", s)("w", w); user(); } };
struct Obj {
    Leaf l; std::vector<std::unique_ptr<Base>> p; std::shared_ptr<Leaf> s, t; std::map<std::string, int> m; std::vector<uint8_t> raw;
    void srl_resolve(Context& c)
    {
        c("leaf", l)("poly", p); user(); c("s", s)("t", t)("m", m);
        BitWrap b(raw.data(), raw.size(), [this](size_t n) { user(); raw.resize(n); return raw.data(); });
        c("raw", b); user();
    }
};
static void fill(Leaf& l, int n) { l.a = n * 1001; l.d = n * 1.1; l.s = "leaf text \"" + std::string(n % 7 * 9, 'a' + n % 26); l.w = u"w\u00e9\u20ac" + std::u16string(n % 30, u'b' + n % 20); }
static void fill(Obj& o, int n)
{
    fill(o.l, n);
    for(int i = 0; i < 3; i++) { auto b = (i + n) % 2 ? new Base : new Derived; b->v = n + i; if(auto d = dynamic_cast<Derived*>(b)) d->s = "derived " + std::to_string(n * 7); o.p.emplace_back(b); }
    o.s = std::make_shared<Leaf>(); fill(*o.s, n + 1); o.t = o.s; o.m["k" + std::to_string(n)] = n; o.m["z"] = -n; o.raw.assign(20 + n % 9, n * 3);
}
static std::string show(const Leaf& l) { return std::to_string(l.a) + " " + bits(l.d) + " " + l.s + " " + std::to_string(mc::hash(l.w.data(), l.w.size() * 2)) + "; "; }
static std::string show(Obj& o)
{
    auto r = show(o.l);
    for(auto& b : o.p) { r += std::to_string(b ? b->v : -1); if(auto d = dynamic_cast<Derived*>(b.get())) r += d->s; r += ","; }
    r += o.s ? show(*o.s) : "null"; r += o.s == o.t ? "same " : "different ";
    for(auto& e : o.m) r += e.first + "=" + std::to_string(e.second) + " ";
    return r + std::to_string(mc::hash(o.raw));
}
static std::string text(const Buf& b) { return std::string(b.begin(), b.end()); }

/* A session: calls on its own tree, parser and data. n varies the data */
struct Session {
    int kind, n; Tree t; std::unique_ptr<Parser> p; Obj o; Buf b; std::string name; int at = 0;
    std::unique_ptr<Lib::HTable<std::string, std::string>> table; std::unique_ptr<Lib::Heap> heap; std::vector<std::pair<uint8_t*, size_t>> mem;
    Session(int k, int n_) : kind(k), n(n_) { fill(o, n); name = "name of session " + std::to_string(n) + std::string(n, '+'); }

    static const int Kinds = 20, Steps = 4;

    void tree()
    {
        auto& r = t.root();
        std::u16string w = u"w\u00e4\U0001f600" + std::u16string(n, u'w');
        r.insert(name, name + name, "num", n * 12345, "real", n * 0.37, w, w);
        r.insert("scope", ScopeWrap([&](Node& s) { user(); s.insert("x", n, name, "y"); user(); s.insert("list", { n, n + 1, n * 1000 }); }));
        r.insert("bytes", Bytes(std::vector<uint8_t>(n + 5, n)), "null", nullptr, "min", std::numeric_limits<int64_t>::min() + n, "flag", n % 2 == 0);
    }
    std::string dump()
    {
        std::string r;
        std::function<void(Node&)> f = [&](Node& m) {
            m.foreach_value([&](Value& v) { user(); r += v.name().unwrap() + "=" + mc::show(v.data(), v.size()) + " "; });
            m.foreach_node([&](Node& s) { r += s.name().unwrap() + "{"; f(s); r += "} "; });
        };
        f(t.root());
        return r;
    }
    static std::string failing(const std::function<void()>& f) { try { f(); } catch(Exception& e) { return std::string("refused: ") + e.what(); } return "accepted"; }

    std::string write(int f) { p.reset(objs::new_parser(f)); b = t.to_source(*p); return text(b); }
    std::string write_stream(int f) { p.reset(objs::new_parser(f)); SlowOut s; std::ostream os(&s); if(settings) settings(os); t.to_source(os, *p); return s.s; }

    std::string step()
    {
        int i = at++;
        switch(kind) {
            case 0: case 1: case 2: case 3:     /* build, write, read, look up */
                if(i == 0) { tree(); return dump(); }
                if(i == 1) return write(kind);
                if(i == 2) { t.load_source(b, *p); return dump(); }
                return t.root().value("num").unwrap<std::string>() + t.root().value("real").unwrap<std::string>() + std::to_string(t.root().node("scope").unwrap_field<int>("x"));
            case 4: case 5: case 6: case 7: {   /* streams */
                if(i == 0) { tree(); return dump(); }
                if(i == 1) { auto b1 = write(kind - 4); return kind == 5 || kind == 4 ? write_stream(kind - 4) : b1; }
                SlowBuf s(b); std::istream is(&s); if(settings) settings(is);
                if(i == 2) { t.load_source(is, *p); return dump(); }
                int x = 0; double d = 0; std::string q;
                t.unpack(is, *p, "real", d, "num", x, name, q);
                return std::to_string(x) + bits(d) + q;
            }
            case 8: case 9: case 10: case 11: { /* objects */
                if(i == 0) { p.reset(objs::new_parser(kind - 8)); b = t.store(o, *p); return text(b); }
                if(i == 1) { Obj q; t.restore(q, b, *p); return show(q); }
                if(i == 2) { t.load_object(o); return dump(); }
                SlowBuf s(b); std::istream is(&s); if(settings) settings(is); Obj q; t.restore(q, is, *p); return show(q);
            }
            case 12: {                          /* refused documents */
                PJson js; PMsgPack ms; PSrl ss;
                std::string bad = "{\"" + name + "\":\"" + std::string(n, 'x') + "\\q\"}", num = "{\"a\":\"n" + name + "\",\"d\":1e999}";
                if(i == 0) return failing([&] { t.load_source(bad.data(), bad.size(), js); }) + failing([&] { t.load_source(bad.data(), bad.size() / 2, js); });
                if(i == 1) return failing([&] { t.load_source(num.data(), num.size(), js); t.root().unwrap_field<int>("a"); }) + failing([&] { t.root().unwrap_field<int8_t>("d"); }) + failing([&] { t.root().unwrap_field<Leaf>(name); });
                if(i == 2) return failing([&] { t.load_source(num.data(), num.size(), ms); }) + failing([&] { t.load_source(num.data(), num.size(), ss); });
                return failing([&] { t.root().value(name + "v"); }) + failing([&] { t.root().node(name + "n"); }) + failing([&] { t.get(name); });
            }
            case 13: {                          /* text of numbers */
                std::string r;
                if(i == 0) { for(double d : { n * 1.1, n * 1e30, -n / 7.0, n * 1e-9 }) r += Tools::type_to_str(Value(d)) + " "; return r; }
                if(i == 1) { for(int64_t e : { n * 11ll, -n * 1000000007ll }) r += Tools::type_to_str(Value(e)) + " "; return r; }
                for(auto& s : { std::to_string(n), "-" + std::to_string(n) + ".25e3", "0." + std::to_string(n * 7), std::string("true"), "1" + std::to_string(n) + "x" }) { auto c = Tools::str_to_type(String(s)); r += c.first ? std::to_string((int)c.second.type()) + mc::show(c.second.data(), c.second.size()) : "no number"; r += " "; }
                return r;
            }
            case 14: {                          /* character sets */
                std::u32string u; for(int k = 0; k < 20 + n; k++) u += k % 3 ? char32_t('a' + (k + n) % 26) : char32_t(0x1f600 + n + k);
                auto s8 = from32(u); auto s16 = to16(u);
                std::vector<uint8_t> out; std::string r;
                if(i == 0) { auto k = Tools::conv_charset(Encoding::UTF16, String(s8), out, true); return mc::show(out.data(), k); }
                if(i == 1) { auto k = Tools::conv_charset(Encoding::UTF8, String(s16), out, true); return mc::show(out.data(), k, 4000); }
                if(i == 2) { auto q = String(u).unwrap<char16_t>(); return std::to_string(q == s16) + String(s16).unwrap(); }
                return failing([&] { std::string bad = s8 + "\xff" + name; Tools::conv_charset(Encoding::UTF32, String(bad), out, true); }) + String(s8 + "\xff" + name).unwrap(false);
            }
            case 15: {                          /* bytes as text */
                std::vector<uint8_t> v(30 + n); for(size_t k = 0; k < v.size(); k++) v[k] = k * n;
                if(i == 0) { t.root().insert("b", Bytes(std::vector<uint8_t>(v))); return write(JsonC); }
                if(i == 1) { t.load_source(b, *p); return mc::show(t.root().unwrap_field<Bytes>("b").extract()); }
                if(i == 2) { return text(Tools::bytes_to_base64(v.data(), v.size())); }
                return text(Tools::bytes_to_hex(v.data(), v.size()));
            }
            case 16: {                          /* direct writing */
                p.reset(objs::new_parser(n % 4));
                if(i == 0) { t.pack(b, *p, name, name, "n", n, "s", ScopeWrap([&](Node& m) { user(); m.insert(name, n); user(); }), "d", n * 0.7); return text(b); }
                if(i == 1) { int k; double d; std::string s; t.unpack(b, *p, "d", d, name, s, "n", k); return std::to_string(k) + bits(d) + s; }
                if(i == 2) { SlowOut s; std::ostream os(&s); if(settings) settings(os); p.reset(objs::new_parser(JsonC)); t.pack(os, *p, name, n, "u", o.m); return s.s; }
                return dump();
            }
            case 17: {                          /* editing */
                auto& r = t.root();
                if(i == 0) { for(int k = 0; k < 6; k++) r.insert(name + std::to_string(k % 4), k * n); return dump(); }
                if(i == 1) { r.remove_value(name + "1"); r.remove_value((size_t)0); r.insert("sub", ScopeWrap([&](Node& m) { user(); m.insert(name, name); })); return dump(); }
                if(i == 2) { Tree u; u.root().insert("copy", r); r.insert("back", u.root()); return dump(); }
                r.remove_node("sub"); auto f = r.find_values(name + "2", true); return dump() + std::to_string(f.size()) + std::to_string(r.has_node("back"));
            }
            case 18: {                          /* table */
                if(!table) table.reset(new Lib::HTable<std::string, std::string>(4));
                std::string r;
                for(int k = 0; k < 8; k++) { auto key = std::to_string((k * n + i) % 23); if(k % 3 == i % 3) table->remove(key); else table->insert(key, name + key); }
                for(int k = 0; k < 23; k++) { auto* v = table->get(std::to_string(k)); r += v ? *v + "," : "-"; }
                return r + std::to_string(table->num_entries());
            }
            case 19: {                          /* arena */
                if(!heap) heap.reset(new Lib::Heap);
                for(int k = 0; k < 5; k++) { size_t s = 8 + k * n; auto* m = heap->get_mem<uint8_t>(s); memset(m, n + k + i, s); mem.push_back({ m, s }); }
                if(i == 2) { heap->put_mem(mem[1].first, mem[1].second); mem.erase(mem.begin() + 1); }
                std::string r; for(auto& m : mem) r += std::to_string(mc::hash(m.first, m.second)) + " ";
                return r;
            }
        }
        return "";
    }
};
static const char* kind_names[] { "JSON", "JSON with spaces", "MessagePack", "Srl", "JSON streams", "JSON with spaces streams", "MessagePack streams", "Srl streams", "objects JSON", "objects JSON with spaces", "objects MessagePack", "objects Srl",
    "refused documents", "text of numbers", "character sets", "bytes as text", "direct writing", "editing", "table", "arena" };

/* what a session gives when it runs alone */
static std::string guard(Session& s) { try { return s.step(); } catch(std::exception& e) { return std::string("exception: ") + e.what(); } }
static const std::vector<std::string>& alone(int kind, int n)
{
    static std::map<std::pair<int, int>, std::vector<std::string>> all;
    auto& r = all[{ kind, n }];
    if(r.empty()) { Session s(kind, n); for(int i = 0; i < Session::Steps; i++) r.push_back(guard(s)); }
    return r;
}
const int N1 = 3, N2 = 16;      /* data of the two sessions */

static void compare(mc::X& x, int kind, int n, int step, const std::string& got, const std::string& what)
{
    x.step();
    if(got != alone(kind, n)[step]) x.fail("other result than alone", std::string(kind_names[kind]) + " call " + std::to_string(step) + ", " + what + ": " + mc::show(got, 1500) + "\ninstead of " + mc::show(alone(kind, n)[step], 1500));
    x.state(mc::mix(mc::hash(got), kind));
}
#endif
