#include "stream.h"
#include "gen.h"
#include "objs.h"

using namespace doc;
using namespace Srl;

static const std::string longname = "a name which is too long for local storage \xC3\xA4";

/* a name to look for, in an encoding, and its UTF-8 form if it is valid text */
struct Key { std::string label; std::function<String()> str; bool valid; std::string utf8; };
static const std::vector<Key>& keys()
{
    static std::vector<Key> r;
    static std::list<std::u16string> k16; static std::list<std::u32string> k32; static std::list<std::string> k8;
    if(r.empty()) {
        for(std::string s : { std::string("a"), std::string("\xC3\xA4"), std::string(), longname, std::string("absent"), std::string("A"), std::string("aa"), std::string("a\0", 2), std::string("\xF0\x9F\x98\x80") }) {
            k8.push_back(s); auto& a = k8.back(); k32.push_back(to32(s)); auto& u = k32.back(); k16.push_back(to16(u)); auto& w = k16.back();
            r.push_back({ s + " (utf-8)", [&a] { return String(a); }, true, s });
            r.push_back({ s + " (utf-16)", [&w] { return String(w); }, true, s });
            r.push_back({ s + " (utf-32)", [&u] { return String(u); }, true, s });
        }
        for(std::string s : { "\xFF", "a\xFF", "\xC3" }) { k8.push_back(s); auto& a = k8.back(); r.push_back({ "ill-formed utf-8", [&a] { return String(a); }, false, s }); }
        for(std::u16string s : { std::u16string(1, 0xD800), std::u16string { u'a', 0xDC00 }, std::u16string { 0xDC00, 0xD800 } }) { k16.push_back(s); auto& a = k16.back(); r.push_back({ "ill-formed utf-16", [&a] { return String(a); }, false, "?" }); }
        for(std::u32string s : { std::u32string(1, 0x110000), std::u32string { U'a', 0xD800 } }) { k32.push_back(s); auto& a = k32.back(); r.push_back({ "ill-formed utf-32", [&a] { return String(a); }, false, "?" }); }
    }
    return r;
}

/* what fn does: 1 result, 0 the library's exception */
template<class F> static bool does(mc::X& x, F fn, const std::string& what)
{
    x.step();
    try { fn(); return true; }
    catch(Exception&) { return false; }
    catch(std::exception& e) { x.fail("another exception than the library's", what + ": " + e.what()); }
}

struct Lookups {
    mc::X& x; std::string what;
    bool light = false; const std::vector<Key>* with = nullptr;

    /* refused: result refused; got: returned item; want: expected or null */
    template<class P, class F> void one(P* want, F fn, const std::string& how)
    {
        P* got = nullptr;
        bool ok = does(x, [&] { got = fn(); }, how + what);
        if(ok && !want) x.fail("absent item found", how + what);
        if(!ok && want) x.fail("item not found", how + what);
        if(ok && got != want) x.fail("wrong item found", how + what);
    }
    template<class P, class F> void many(const std::vector<P*>& want, F fn, const std::string& how)
    {
        std::list<P*> got;
        if(!does(x, [&] { got = fn(); }, how + what)) x.fail("search refused", how + what);
        if(std::vector<P*>(got.begin(), got.end()) != want) x.fail("wrong items found", how + what + ": " + std::to_string(got.size()) + " instead of " + std::to_string(want.size()));
    }
    void item(Value* v, Node* n, Union u, const std::string& how)
    {
        if(u.value() != v || u.node() != n || u.is_value() != (v != nullptr) || u.is_node() != (n != nullptr)) x.fail("wrong generic item", how + what);
    }

    static void collect(Node& n, std::vector<Value*>& vs, std::vector<Node*>& ns, std::vector<std::string>& vn, std::vector<std::string>& nn, const Doc& d, bool rec)
    {
        /* own values, own scopes, in order; then those within each scope */
        size_t i = 0;
        n.foreach_value([&](Value& v) { vs.push_back(&v); vn.push_back(d.values.at(i++).first); });
        i = 0;
        n.foreach_node([&](Node& c) { auto& cd = d.nodes.at(i++); ns.push_back(&c); nn.push_back(cd.first); if(rec) collect(c, vs, ns, vn, nn, cd.second, true); });
    }

    void node(Node& n, const Doc& d, Tree* t)
    {
        std::vector<Value*> vs, rvs; std::vector<Node*> ns, rns; std::vector<std::string> vn, nn, rvn, rnn;
        collect(n, vs, ns, vn, nn, d, false);
        collect(n, rvs, rns, rvn, rnn, d, true);
        if(vs.size() != d.values.size() || ns.size() != d.nodes.size()) x.fail("enumeration is not complete", what);
        if(n.num_values() != vs.size() || n.num_nodes() != ns.size()) x.fail("wrong number of items", what);
        many<Value>(vs, [&] { return n.all_values(); }, "all_values");
        many<Node>(ns, [&] { return n.all_nodes(); }, "all_nodes");
        many<Value>(rvs, [&] { return n.all_values(true); }, "all_values recursive");
        many<Node>(rns, [&] { return n.all_nodes(true); }, "all_nodes recursive");
        for(size_t i = 0; i < vs.size(); i++) if(vs[i]->name().unwrap() != vn[i]) x.fail("wrong name", what);
        for(size_t i = 0; i < ns.size(); i++) if(ns[i]->name().unwrap() != nn[i]) x.fail("wrong name", what);

        std::vector<size_t> idx; for(size_t i = 0; i < vs.size() + ns.size() + 3; i++) idx.push_back(i); idx.push_back((size_t)-1); idx.push_back((size_t)1 << 32);
        for(size_t i : idx) {
            auto at = " at " + std::to_string(i);
            Value* v = i < vs.size() ? vs[i] : nullptr; Node* m = i < ns.size() ? ns[i] : nullptr;
            one<Value>(v, [&] { return &n.value(i); }, "value" + at);
            one<Node>(m, [&] { return &n.node(i); }, "node" + at);
            /* a generic item: scopes first, as documented by its code; what exists must be found */
            Union u; bool ok = does(x, [&] { u = n.get(i); }, "get" + at);
            if(ok != (v || m)) x.fail(ok ? "absent item found" : "item not found", "get" + at + what);
            if(ok) item(m ? nullptr : v, m, u, "get" + at);
            auto o = n.try_get(i);
            if(!!o != (v || m)) x.fail(o ? "absent item found" : "item not found", "try_get" + at + what);
            if(o) item(m ? nullptr : v, m, *o, "try_get" + at);
        }
        auto first = [](auto& ps, auto& names, const Key& k) { for(size_t i = 0; i < ps.size(); i++) if(names[i] == k.utf8) return ps[i]; return (typename std::decay<decltype(ps[0])>::type)nullptr; };
        auto every = [](auto& ps, auto& names, const Key& k) { typename std::decay<decltype(ps)>::type r; for(size_t i = 0; i < ps.size(); i++) if(names[i] == k.utf8) r.push_back(ps[i]); return r; };
        size_t ki = 0;
        for(auto& k : with ? *with : keys()) {
            if(light && ki++ % 3 != 0 && k.valid) continue;
            auto s = k.str();
            auto by = " '" + mc::show(k.label, 40) + "'";
            Value* v = first(vs, vn, k); Node* m = first(ns, nn, k);
            one<Value>(v, [&] { return &n.value(s); }, "value" + by);
            one<Node>(m, [&] { return &n.node(s); }, "node" + by);
            bool has = false;
            if(!does(x, [&] { has = n.has_value(s); }, "has_value" + by) || has != (v != nullptr)) x.fail("has_value", by + what);
            if(!does(x, [&] { has = n.has_node(s); }, "has_node" + by) || has != (m != nullptr)) x.fail("has_node", by + what);
            auto generic = [&](auto get, const char* how) {
                Union u; bool ok = does(x, [&] { u = get(); }, how + by);
                if(ok != (v || m)) x.fail(ok ? "absent item found" : "item not found", how + by + what);
                if(ok) item(v, v ? nullptr : m, u, how + by);
            };
            auto tries = [&](auto get, const char* how) {
                std::optional<Union> u; bool ok = does(x, [&] { u = get(); }, how + by);
                if(!ok) x.fail("try-style look-up throws", how + by + what);
                if(!!u != (v || m)) x.fail(u ? "absent item found" : "item not found", how + by + what);
                if(u) item(v, v ? nullptr : m, *u, how + by);
            };
            generic([&] { return n.get(s); }, "get");
            generic([&] { return n[s]; }, "[]");
            generic([&] { return Union(n).get(s); }, "generic get");
            tries([&] { return n.try_get(s); }, "try_get");
            tries([&] { return Union(n).try_get(s); }, "generic try_get");
            if(t) { generic([&] { return t->get(s); }, "tree get"); tries([&] { return t->try_get(s); }, "tree try_get"); }
            many<Value>(every(vs, vn, k), [&] { return n.find_values(s); }, "find_values" + by);
            many<Node>(every(ns, nn, k), [&] { return n.find_nodes(s); }, "find_nodes" + by);
            many<Value>(every(rvs, rvn, k), [&] { return n.find_values(s, true); }, "find_values recursive" + by);
            many<Node>(every(rns, rnn, k), [&] { return n.find_nodes(s, true); }, "find_nodes recursive" + by);
        }
        size_t i = 0;
        n.foreach_node([&](Node& c) { node(c, d.nodes[i++].second, nullptr); });
        for(auto* v : vs) {   /* nothing is within a value */
            if(does(x, [&] { Union(*v).get("a"); }, "get in a value")) x.fail("item found in a value", what);
            if(Union(*v).try_get("a") || Union(*v).try_get("")) x.fail("item found in a value", what);
        }
    }
};

MC_SCENARIO("documents", "all documents of up to 4 (thorough 5) items, 2 levels, names {a, \"\", non-ASCII}; all look-ups by 27 names in 3 encodings present and absent, 8 ill-formed names, all indices and 5 beyond, recursive and not, through nodes, trees and generic items")
{
    gen::Gen g(x, x.thorough ? 5 : 4, 2);
    auto d = g.root({ "a", "", "\xC3\xA4" }, { Val::i32(1) });
    Tree t(d.array ? Type::Array : Type::Object);
    build(t.root(), d);
    x.state(hash(d));
    Lookups l { x, " in " + show(d) };
    l.light = g.left == 0 && !x.thorough;
    l.node(t.root(), d, &t);
}

MC_SCENARIO("names alike", "all documents of 1..4 values and scopes under two names which share a hash or nearly everything (19 pairs), built or loaded: all look-ups by both in 3 encodings")
{
    auto& t = gen::twins()[x.shard(gen::twins().size())];
    int n = x.choose(4) + 1; bool load_it = x.flip();
    Doc d;
    for(int i = 0; i < n; i++) { int k = x.choose(4); if(k & 2) d.n(t[k & 1], Doc().v(t[1 - (k & 1)], Val::i32(i + 10))); else d.v(t[k & 1], Val::i32(i)); }
    Tree tr; build(tr.root(), d);
    if(load_it) { auto b = write(tr, SrlF); Tree q; load(q, SrlF, b); tr = std::move(q); }
    x.state(hash(d));
    static const std::vector<Key> empty;
    std::list<std::u16string> k16; std::list<std::u32string> k32;
    Lookups l { x, " in " + show(d) };
    std::vector<Key> mine;
    for(auto& s : t) {
        k32.push_back(to32(s)); auto& u = k32.back(); k16.push_back(to16(u)); auto& w = k16.back();
        mine.push_back({ s + " (utf-8)", [&s] { return String(s); }, true, s }); mine.push_back({ s + " (utf-16)", [&w] { return String(w); }, true, s }); mine.push_back({ s + " (utf-32)", [&u] { return String(u); }, true, s });
    }
    l.with = &mine;
    l.node(tr.root(), d, &tr);
}

MC_SCENARIO("loaded documents", "all documents of up to 3 (thorough 4) items, 3 levels, names {a, long}, loaded from 4 formats: all look-ups")
{
    gen::Gen g(x, x.thorough ? 4 : 3, 3);
    auto d = g.root({ "a", longname }, { Val::str("text") });
    int f = x.choose(4);
    Buf b; { Tree t(d.array ? Type::Array : Type::Object); build(t.root(), d); b = write(t, f); }
    Tree t; load(t, f, b);
    x.state(hash(d));
    Lookups l { x, std::string(" loaded from ") + fmt_name(f) + " " + show(d) };
    l.node(t.root(), d, &t);
}

/* every ordered tree of scopes, given by its depth sequence */
static void shape(mc::X& x, Doc& d, int& left, int lvl, int maxlvl, int names, int& k)
{
    while(left > 0) {
        if(lvl > maxlvl || !x.flip()) return;
        left--;
        int me = k++;
        Doc c(me % 3 == 1);
        static const char* two[] = { "a", "b" };
        std::string name = names == 0 ? "a" : names == 1 ? two[me & 1] : std::string(1, (char)('a' + me));
        for(int i = 0; i < (names == 0 ? 1 : names == 1 ? me % 3 : 2); i++) c.v(c.array ? "" : i ? "v" : name, Val::i32(me * 10 + i));
        shape(x, c, left, lvl + 1, maxlvl, names, k);
        d.n(d.array ? "" : name, std::move(c));
    }
}

MC_SCENARIO("tree shapes", "all trees of up to 6 (thorough 8) scopes, of every shape and depth, scopes with 1, 2 or 0 to 2 values, names equal, alternating or distinct, in an object and in an array, built and loaded: all look-ups")
{
    int names = x.shard(6);
    Doc d(names >= 3); names %= 3;
    int left = x.thorough ? 8 : 6, k = 0;
    d.v(d.array ? "" : "a", Val::i32(-1));
    shape(x, d, left, 1, left, names, k);
    int how = x.choose(3);
    Tree t(d.array ? Type::Array : Type::Object);
    build(t.root(), d);
    if(how) { int f = how == 1 ? 0 : 2; auto b = write(t, f); Tree n; load(n, f, b); t = std::move(n); }
    x.state(hash(d));
    Lookups l { x, " in " + show(d) };
    l.light = true;
    l.node(t.root(), d, &t);
}

MC_SCENARIO("after edits", "look-ups in a document of n = 0..40 and 300 equally or differently named items, before and after the removal of each position or the first of a name")
{
    static std::vector<size_t> ns; if(ns.empty()) { for(size_t i = 0; i <= 40; i++) ns.push_back(i); ns.push_back(300); }
    size_t n = ns[x.shard(ns.size())];
    int names = x.choose(3);
    Tree t; Doc d;
    for(size_t i = 0; i < n; i++) {
        std::string name = names == 0 ? "a" : names == 1 ? (i % 3 ? "a" : longname) : "k" + std::to_string(i % 10);
        if(i % 2) { d.v(name, Val::i32(i)); t.root().insert(name, (int)i); }
        else { Doc s; s.v(name, Val::i32(i)); d.n(name, s); t.root().insert(name, ScopeWrap([&](Node& m) { m.insert(name, (int)i); })); }
    }
    Lookups l { x, " n " + std::to_string(n) + " names " + std::to_string(names) };
    l.light = true;
    l.node(t.root(), d, &t);
    if(!n) return;
    size_t pos = n > 40 ? n / 2 : x.choose(n);
    if(pos < d.values.size()) { d.values.erase(d.values.begin() + pos); t.root().remove_value(pos); }
    if(pos < d.nodes.size()) { d.nodes.erase(d.nodes.begin() + pos); t.root().remove_node(pos); }
    for(size_t i = 0; i < d.values.size(); i++) if(d.values[i].first == "a") { d.values.erase(d.values.begin() + i); break; }
    t.root().remove_value("a");
    l.what += " removed " + std::to_string(pos);
    l.node(t.root(), d, &t);
    x.state(mc::mix(n, names * 1000 + pos));
}

/* conversions **************************************************************************************/

struct Thing { std::string name; Val v; Doc d; bool scope = false; };

static const std::vector<Thing>& things()
{
    static std::vector<Thing> r;
    if(r.empty()) {
        auto v = [&](const char* n, Val x) { Thing t; t.name = n; t.v = x; r.push_back(t); };
        auto s = [&](const char* n, Doc x) { Thing t; t.name = n; t.d = x; t.scope = true; r.push_back(t); };
        v("null", Val::null()); v("true", Val::boolean(true)); v("false", Val::boolean(false));
        v("0", Val::i32(0)); v("1", Val::integer(1, Type::UI8)); v("-1", Val::integer(-1, Type::I8)); v("300", Val::integer(300, Type::I16)); v("u64max", Val::u64(UINT64_MAX)); v("i64min", Val::i64(INT64_MIN));
        v("1.5", Val::fp(1.5f)); v("1e300", Val::dbl(1e300)); v("0.1", Val::dbl(0.1));
        v("empty text", Val::str("")); v("'a'", Val::str("a")); v("'12'", Val::str("12")); v("'-1.5'", Val::str("-1.5")); v("'x y'", Val::str("x y \xC3\xA4\xF0\x9F\x98\x80")); v("long text", Val::str(longname + longname)); v("'\xC3\xA4'", Val::str("\xC3\xA4"));
        v("no bytes", Val::bin("")); v("bytes", Val::bin(std::string("\0\1\xFF", 3))); v("many bytes", Val::bin(gen::pattern(200, 1)));
        Doc o; s("empty object", o); Doc a(true); s("empty array", a);
        Doc p; p.v("x", Val::i32(3)).v("y", Val::i32(-4)); s("point", p);
        Doc q; q.v("y", Val::i32(-4)).n("z", p).v("x", Val::i32(3)).v("w", Val::str("w")); s("point and more", q);
        Doc h; h.v("x", Val::i32(3)); s("half a point", h);
        Doc w; w.v("x", Val::str("no number")).v("y", Val::i32(1)); s("no point", w);
        Doc l(true); l.v("", Val::i32(1)).v("", Val::i32(2)).v("", Val::i32(3)); s("list", l);
        Doc m(true); m.v("", Val::i32(1)).v("", Val::str("2")).v("", Val::str("x")); s("mixed list", m);
        Doc k(true); k.v("", Val::i32(1)).v("", Val::i32(1000)); s("large list", k);
        Doc e; e.v("key", Val::str("k")).v("value", Val::i32(5)); Doc mp(true); mp.n("", e); s("map", mp);
        Doc f; f.v("first", Val::i32(1)).v("second", Val::str("s")); s("pair", f);
    }
    return r;
}

struct Point { int x = 0, y = 0; void srl_resolve(Context& c) { c("x", x)("y", y); } bool operator==(const Point& o) const { return x == o.x && y == o.y; } };

enum V { Refuse, Give, Any };
template<class T, class = void> struct Want;
static bool int_text(const std::string& s) { if(s.empty()) return false; size_t i = s[0] == '-'; if(i == s.size()) return false; for(; i < s.size(); i++) if(!isdigit((uint8_t)s[i])) return false; return true; }
/* the number an item stands for */
static bool number(const Thing& t, double& d, I& i, bool& fp)
{
    if(t.scope) return false;
    fp = false;
    switch(t.v.kind) {
        case KNull: i = 0; d = 0; return true;
        case KBool: case KInt: i = t.v.i; d = (double)i; return true;
        case KFloat: case KDouble: d = t.v.d; fp = true; return true;
        case KStr: if(int_text(t.v.s)) { i = atoll(t.v.s.c_str()); d = (double)i; return true; } if(t.v.s == "-1.5") { d = -1.5; fp = true; return true; } return false;
        default: return false;
    }
}
template<class T> struct Want<T, typename std::enable_if<std::is_arithmetic<T>::value && !Lib::is_char<T>::value>::type> {
    static V want(const Thing& t, T& r)
    {
        double d = 0; I i = 0; bool fp = false;
        if(!number(t, d, i, fp)) return Refuse;
        if(std::is_floating_point<T>::value) { r = fp ? (T)d : (T)i; return std::isfinite((T)d) ? Give : Refuse; }
        if(fp) { if(d > 1e20 || d < -1e20) return Refuse; i = (I)d; if(std::is_same<T, bool>::value) { r = d != 0; return d > 0 && d < 1 ? Any : Refuse; } }
        I lo = (I)std::numeric_limits<T>::min(), hi = (I)std::numeric_limits<T>::max();
        if(i < lo || i > hi) return Refuse;
        if(fp && ((I)std::floor(d) < lo || (I)std::ceil(d) > hi)) return Any;
        r = (T)i; return Give;
    }
    static bool same(const T& a, const T& b) { return a == b; }
};
template<class C> static std::basic_string<C> to(const std::string& s)
{
    auto u = to32(s);
    if constexpr(sizeof(C) == 1) { return std::basic_string<C>(s.begin(), s.end()); }
    else if constexpr(sizeof(C) == 2) { auto w = to16(u); return std::basic_string<C>(w.begin(), w.end()); }
    else return std::basic_string<C>(u.begin(), u.end());
}
template<class C> struct Want<std::basic_string<C>> {
    typedef std::basic_string<C> T;
    static V want(const Thing& t, T& r)
    {
        if(t.scope) return Refuse;
        switch(t.v.kind) {
            case KNull: return Give;
            case KBool: r = to<C>(t.v.i ? "true" : "false"); return Give;
            case KInt: r = to<C>(i2s(t.v.i)); return Give;
            case KFloat: r = to<C>("1.5"); return t.name == "1.5" ? Give : Any;
            case KDouble: r = to<C>(t.name == "0.1" ? "0.1" : "?"); return t.name == "0.1" ? Give : Any;
            case KStr: r = to<C>(t.v.s); return Give;
            default: return Refuse;
        }
    }
    static bool same(const T& a, const T& b) { return a == b; }
};
template<class T> struct Want<T, typename std::enable_if<Lib::is_char<T>::value>::type> {
    static V want(const Thing& t, T& r)
    {
        if(t.scope || t.v.kind != KStr) return !t.scope && t.v.kind == KBin ? Any : Refuse;
        auto s = to<T>(t.v.s);
        if(s.size() != 1) return Refuse;
        r = s[0]; return Give;
    }
    static bool same(const T& a, const T& b) { return a == b; }
};
template<> struct Want<std::vector<uint8_t>> {
    static V want(const Thing& t, std::vector<uint8_t>& r)
    {
        if(!t.scope) return Refuse;
        for(auto& v : t.d.values) { Thing e; e.v = v.second; uint8_t i = 0; auto w = Want<uint8_t>::want(e, i); if(w != Give) return w; r.push_back(i); }
        return Give;
    }
    static bool same(const std::vector<uint8_t>& a, const std::vector<uint8_t>& b) { return a == b; }
};
template<> struct Want<std::list<std::string>> {
    static V want(const Thing& t, std::list<std::string>& r)
    {
        if(!t.scope) return Refuse;
        for(auto& v : t.d.values) { Thing e; e.v = v.second; std::string s; auto w = Want<std::string>::want(e, s); if(w != Give) return w; r.push_back(s); }
        return Give;
    }
    static bool same(const std::list<std::string>& a, const std::list<std::string>& b) { return a == b; }
};
template<> struct Want<Point> {
    static V want(const Thing& t, Point& r)
    {
        if(!t.scope) return Refuse;
        if(t.name == "point" || t.name == "point and more") { r.x = 3; r.y = -4; return Give; }
        return Refuse;
    }
    static bool same(const Point& a, const Point& b) { return a == b; }
};
template<> struct Want<std::map<std::string, int>> {
    typedef std::map<std::string, int> T;
    static V want(const Thing& t, T& r)
    {
        if(!t.scope) return Refuse;
        if(t.name == "map") { r["k"] = 5; return Give; }
        if(t.name == "point and more") return Any;
        return Give;     /* no scopes: no elements */
    }
    static bool same(const T& a, const T& b) { return a == b; }
};
template<> struct Want<std::pair<int, std::string>> {
    typedef std::pair<int, std::string> T;
    static V want(const Thing& t, T& r) { if(t.scope && t.name == "pair") { r = { 1, "s" }; return Give; } return Refuse; }
    static bool same(const T& a, const T& b) { return a == b; }
};
template<> struct Want<std::vector<Point>> {
    typedef std::vector<Point> T;
    static V want(const Thing& t, T& r)
    {
        if(!t.scope) return Refuse;
        if(t.name == "point and more") { r.push_back({ 3, -4 }); return Give; }
        return t.name == "map" ? Refuse : Give;
    }
    static bool same(const T& a, const T& b) { return a == b; }
};

template<class T> static void conversion(mc::X& x, Tree& t, Node& n, const Thing& th, const String& name, size_t index, const std::string& where)
{
    T want { };
    V v = Want<T>::want(th, want);
    constexpr bool scope = TpTools::is_scope(Lib::Switch<T>::type);
    if(scope != th.scope && v != Refuse) { if(v == Give) x.fail("model", "kinds"); v = Refuse; }
    auto what = [&](const char* how) { return th.name + " to " + typeid(T).name() + " by " + how + where; };
    int first = -1;
    auto go = [&](const char* how, auto fn) {
        T got { };
        bool ok = does(x, [&] { got = fn(); }, what(how));
        if(v == Refuse && ok) x.fail("impossible conversion succeeds", what(how));
        if(v == Give && !ok) x.fail("possible conversion refused", what(how));
        if(v == Give && !Want<T>::same(got, want)) x.fail("conversion gives a wrong value", what(how));
        if(first >= 0 && first != (int)ok) x.fail("ways to convert differ", what(how));
        first = ok;
    };
    auto item = [&] { return index == (size_t)-1 ? n.get(name) : n.get(index); };
    go("unwrap of item", [&] { return item().template unwrap<T>(); });
    go("copy_to", [&] { T r { }; item().copy_to(r); return r; });
    go("implicit conversion", [&] { T r = item().operator T(); return r; });
    auto maybe = [&](const char* how, auto get) {
        T got { }; bool has = false;
        if(!does(x, [&] { auto o = get(); has = !!o; if(o) got = std::move(*o); }, what(how))) x.fail("try-style look-up throws", what(how));
        if(has != (first == 1)) x.fail("ways to convert differ", what(how));
        if(v == Give && !Want<T>::same(got, want)) x.fail("conversion gives a wrong value", what(how));
    };
    maybe("unwrap_if", [&] { return item().template unwrap_if<T>(); });
    if(index == (size_t)-1) {
        go("node unwrap_field", [&] { return n.unwrap_field<T>(name); });
        go("node paste_field", [&] { T r { }; n.paste_field(name, r); return r; });
        go("node paste", [&] { T r { }; n.paste(String(name), r); return r; });
        if(&n == &t.root()) {
            go("tree item", [&] { return t.get(name).unwrap<T>(); });
            maybe("tree try_get", [&] { auto o = t.try_get(name); return o->unwrap_if<T>(); });
            Union u(n);
            go("item of item", [&] { return u.get(name).unwrap<T>(); });
        }
    } else if(scope == th.scope) {
        size_t i = index;
        if(!scope) { /* index counts scopes first only in the generic look-up */ }
        go("node unwrap_field at", [&] { return n.unwrap_field<T>(i); });
    }
    if(scope == th.scope) {
        if constexpr(scope) go("unwrap of node", [&] { return n.node(name).template unwrap<T>(); });
        else go("unwrap of value", [&] { return n.value(name).template unwrap<T>(); });
    }
}

MC_SCENARIO("conversions", "33 kinds of items x 20 target types x up to 12 ways to convert, in a tree built or loaded from 4 formats, at the root and nested, between other items")
{
    auto& ths = things();
    int s = x.shard(ths.size() * 5);
    Thing th = ths[s / 5]; int f = s % 5 - 1;
    int nest = x.choose(2), around = x.choose(3);
    Tree t;
    Doc d, in;
    if(around) in.v("before", Val::str("b")).n("n", Doc());
    if(th.scope) in.n("it", th.d); else in.v("it", th.v);
    if(around == 2) { if(th.scope) in.n("it", Doc()); else in.v("it", Val::i64(77)); in.v("after", Val::null()); }
    d = nest ? Doc().n("in", in) : in;
    build(t.root(), d);
    if(f >= 0) { auto b = write(t, f); load(t, f, b); if(is_text(f) && th.v.kind == KBin) th.v = Val::str(base64(th.v.s)); }
    Node& n = nest ? t.root().node("in") : t.root();
    std::string where = f < 0 ? "" : std::string(" in ") + fmt_name(f);
    x.state(mc::mix(s, nest * 3 + around));
    #define C(...) conversion<__VA_ARGS__>(x, t, n, th, "it", (size_t)-1, where);
    C(bool) C(int8_t) C(uint8_t) C(int16_t) C(uint16_t) C(int32_t) C(uint32_t) C(int64_t) C(uint64_t) C(float) C(double)
    C(std::string) C(std::u16string) C(std::u32string) C(char) C(char16_t) C(char32_t)
    C(std::vector<uint8_t>) C(std::list<std::string>) C(Point) C(std::map<std::string, int>) C(std::pair<int, std::string>) C(std::vector<Point>)
    /* by position among those of its kind, the only one of it */
    if(!around) {
        #define D(...) conversion<__VA_ARGS__>(x, t, n, th, "it", 0, where + " by position");
        D(int32_t) D(double) D(std::string) D(std::vector<uint8_t>) D(Point)
    }
}

MC_SCENARIO("empty item", "an empty generic item: every access refused or empty")
{
    x.shard(1);
    Union u;
    auto no = [&](auto fn, const char* how) { if(does(x, fn, how)) x.fail("empty item gives something", how); };
    no([&] { u.unwrap<int>(); }, "unwrap<int>"); no([&] { u.unwrap<std::string>(); }, "unwrap<string>"); no([&] { u.unwrap<std::vector<int>>(); }, "unwrap<vector>"); no([&] { u.unwrap<Point>(); }, "unwrap<Point>");
    no([&] { int i; u.copy_to(i); }, "copy_to int"); no([&] { Point p; u.copy_to(p); }, "copy_to Point");
    no([&] { int i = u; (void)i; }, "int"); no([&] { u.get("a"); }, "get"); no([&] { u.get(""); }, "get");
    if(u.is_node() || u.is_value() || u.node() || u.value()) x.fail("empty item is something");
    if(u.try_get("a") || u.unwrap_if<int>() || u.unwrap_if<Point>() || u.unwrap_if<std::string>() || u.unwrap_if<std::vector<int>>()) x.fail("empty item gives something", "try");
    Tree t;
    no([&] { t.get("a"); }, "empty tree"); no([&] { t.root().value("a"); }, "empty tree"); no([&] { t.root().node((size_t)0); }, "empty tree"); no([&] { t.root().get((size_t)0); }, "empty tree");
    if(t.try_get("") || t.root().try_get((size_t)0)) x.fail("empty tree gives something");
    x.state(1);
}

int main(int argc, char** argv) { return mc::main("P18", argc, argv); }
