/* Stored documents keep their layout: the library's binary format and the documents objects are stored as, by an
 * encoder and descriptions of their own. */
#include "objs.h"
#include "gen.h"
#include "stream.h"
#include <deque>
#include <list>
#include <map>
#include <set>
#include <unordered_map>

using namespace doc;
using namespace Srl;

/* documents in the order written */
struct Item {
    std::string name; bool scope = false, array = false; Val val; std::vector<Item> items;
    static Item value(const std::string& n, const Val& v) { Item i; i.name = n; i.val = v; return i; }
    static Item open(const std::string& n, bool array) { Item i; i.name = n; i.scope = true; i.array = array; return i; }
    Item& add(Item i) { items.push_back(std::move(i)); return *this; }
};

/* the binary format: flags, integers in groups of 7 bits starting with the lowest, names spelled out once and
 * referred to by their number afterwards, numbers of floating point as they are in memory */
struct Enc {
    std::vector<std::string> names; std::map<std::string, size_t> known; Buf out;
    void vlq(uint64_t v) { while(v >= 128) { out.push_back((uint8_t)(v & 127) | 128); v >>= 7; } out.push_back((uint8_t)v); }
    void head(uint8_t flag, const std::string& name, bool named)
    {
        if(!named || name.empty()) { out.push_back(flag); return; }
        auto it = known.find(name);
        if(it != known.end()) { out.push_back(flag | 2 | 4); vlq(it->second); return; }
        auto n = known.size(); known[name] = n;
        out.push_back(flag | 2); vlq(name.size()); out.insert(out.end(), name.begin(), name.end());
    }
    void raw(const void* p, size_t n) { out.insert(out.end(), (const uint8_t*)p, (const uint8_t*)p + n); }
    void put(const Item& i, bool named)
    {
        if(i.scope) {
            head(i.array ? 0x80 : 0x40, i.name, named);
            for(auto& e : i.items) put(e, !i.array);
            out.push_back(0);
            return;
        }
        auto& v = i.val;
        switch(v.kind) {
            case KNull: head(0x08, i.name, named); break;
            case KBool: head(v.i ? 0x41 : 0x81, i.name, named); break;
            case KInt: head(v.i < 0 ? 0x09 : 0x01, i.name, named); vlq((uint64_t)(v.i < 0 ? -v.i : v.i)); break;
            case KFloat: { head(0x11, i.name, named); float f = v.d; raw(&f, 4); break; }
            case KDouble: {
                float f = (float)v.d;
                if((double)f == v.d) { head(0x11, i.name, named); raw(&f, 4); }
                else { head(0x21, i.name, named); raw(&v.d, 8); }
                break;
            }
            case KStr: head(0x20, i.name, named); vlq(v.s.size()); raw(v.s.data(), v.s.size()); break;
            case KBin: head(0x10, i.name, named); vlq(v.s.size()); raw(v.s.data(), v.s.size()); break;
        }
    }
    static Buf encode(const Item& i) { Enc e; e.put(i, false); return e.out; }
};
static Item from_doc(const Doc& d, const std::string& name = "")
{
    auto r = Item::open(name, d.array);
    for(auto& v : d.values) r.add(Item::value(v.first, v.second));
    for(auto& n : d.nodes) r.add(from_doc(n.second, n.first));
    return r;
}
/* values before scopes, as in trees */
static Item sorted(const Item& i)
{
    if(!i.scope) return i;
    auto r = Item::open(i.name, i.array);
    for(auto& e : i.items) if(!e.scope) r.add(e);
    for(auto& e : i.items) if(e.scope) r.add(sorted(e));
    return r;
}
static Doc to_doc(const Item& i)
{
    Doc d(i.array);
    for(auto& e : i.items) if(e.scope) d.n(i.array ? "" : e.name, to_doc(e)); else d.v(i.array ? "" : e.name, e.val);
    return d;
}
static void same_bytes(mc::X& x, const char* sig, const Buf& e, const Buf& g, const std::string& what)
{
    x.step();
    if(e != g) x.fail(sig, what + "\nexpected " + mc::show(e) + "\ngot      " + mc::show(g));
}

static void layout(mc::X& x, const Doc& d)
{
    auto i = from_doc(d);
    auto e = Enc::encode(i);
    x.note("%s", show(d).c_str());
    Tree t(d.array ? Type::Array : Type::Object); build(t.root(), d);
    same_bytes(x, "another layout is written", e, write(t, SrlF), show(d));
    same_bytes(x, "another layout is written to a stream", e, write_stream(t, SrlF), show(d));
    x.state(mc::hash(e));
    auto l = load_doc(SrlF, e);
    auto df = diff(d, l, false); x.step();
    if(!df.empty()) x.fail("the layout is read differently", df + "\n" + mc::show(e));
    ChunkStream s(e, { 1 }); Tree u; PSrl p; u.load_source(s, p);
    df = diff(d, extract(u.root()), false); x.step();
    if(!df.empty()) x.fail("the layout is read differently from a stream", df + "\n" + mc::show(e));
    /* the loaded document is written as it was */
    same_bytes(x, "a loaded document is written in another layout", e, write(u, SrlF), show(d));
}

MC_SCENARIO("shapes", "all documents with up to 4 (thorough: 5) items below the root and nesting up to 4, names {a, b, empty}, 3 kinds of values: bytes written, documents read")
{
    gen::Gen g(x, x.thorough ? 5 : 4, 4);
    layout(x, g.root({ "a", "b", "" }, { Val::i32(300), Val::str("t"), Val::boolean(true) }));
}

MC_SCENARIO("values", "all values of 8 and 16 bits in all types; 32- and 64-bit integers within 40 of zero, of powers of two and of the limits; floats and doubles of every exponent; texts and blobs of all lengths to 300 and around powers of two")
{
    static const auto lens = gen::lengths(300, 70000);
    int s = x.shard(256 + 65 + 256 + 16);
    Doc d(s % 2);
    auto add = [&](const Val& v) { d.v(d.values.size() % 3 ? "n" : "", v); };
    if(s < 256) {
        for(int k = 0; k < 256; k++) { int v = s * 256 + k; add(Val::integer((int16_t)v, Type::I16)); add(Val::integer(v, Type::UI16)); add(Val::integer((int16_t)v, Type::I64)); add(Val::integer(v, Type::UI32)); }
        add(Val::integer((int8_t)s, Type::I8)); add(Val::integer(s, Type::UI8)); add(Val::boolean(s & 1)); add(Val::null());
    } else if(s < 256 + 65) {
        I base = (I)1 << (s - 256);
        for(int k = -40; k <= 40; k++) for(int sign = 0; sign < 2; sign++) {
            I v = sign ? -(base + k) : base + k;
            if(v >= INT32_MIN && v <= INT32_MAX) add(Val::integer(v, Type::I32));
            if(v >= 0 && v <= UINT32_MAX) add(Val::integer(v, Type::UI32));
            if(v >= INT64_MIN && v <= INT64_MAX) add(Val::integer(v, Type::I64));
            if(v >= 0 && v <= (I)UINT64_MAX) add(Val::integer(v, Type::UI64));
        }
    } else if(s < 256 + 65 + 256) {
        for(uint64_t e = (s - 321) * 8; e < (uint64_t)(s - 321) * 8 + 8; e++) for(uint64_t m : { 0ull, 1ull, 1ull << 28, 1ull << 29, 1ull << 51, (1ull << 52) - 1, 0x5555555555555ull }) for(uint64_t sg : { 0ull, 1ull }) {
            uint64_t b = sg << 63 | e << 52 | m; double v; memcpy(&v, &b, 8); if(std::isnan(v)) continue; add(Val::dbl(v));
        }
        for(uint32_t m : { 0u, 1u, 0x400000u, 0x7fffffu, 0x2aaaaau }) for(uint32_t sg : { 0u, 1u }) { uint32_t b = sg << 31 | (uint32_t)(s - 321) << 23 | m; float v; memcpy(&v, &b, 4); if(std::isnan(v)) continue; add(Val::fp(v)); }
    } else {
        size_t from = lens.size() * (s - 577) / 16, to = lens.size() * (s - 576) / 16;
        auto l = lens[from + x.choose(to - from)];
        auto k = x.choose(4);
        auto p = gen::pattern(l, k & 1);
        if(k < 2) { add(k ? Val::bin(p) : Val::str(p)); add(Val::i32(1)); } else { d.v(p, Val::i32(1)); d.v("next", Val::i32(2)); d.v(p, Val::i32(3)); d.n(p, Doc()); }
    }
    layout(x, d);
}

MC_SCENARIO("names", "all sequences of 5 (thorough: 6) fields over 4 names in a scope and the scopes below; 100 to 20000 distinct names referred to in order, in reverse and across scopes")
{
    int s = x.shard(64 + 16);
    Doc d;
    if(s < 64) {
        static const std::vector<std::string> names { "x", "yy", "", "a name which is not stored in place" };
        int n = x.thorough ? 6 : 5;
        Doc* at = &d;
        for(int i = 0; i < n; i++) {
            int c = i == 0 ? s % 8 : i == 1 ? s / 8 : x.choose(8);
            if(c & 4) { at->n(names[c & 3], Doc(i == 3)); at = &at->nodes.back().second; } else at->v(names[c & 3], Val::i32(i));
        }
        layout(x, d);
        return;
    }
    static const int counts[] { 100, 127, 128, 129, 300, 16383, 16384, 16400 };
    int n = counts[s % 8], k = x.choose(4);
    for(int i = 0; i < n; i++) d.v("n" + std::to_string(i), Val::i32(i));
    auto& m = s >= 72 ? (d.n("sub", Doc()), d.nodes.back().second) : d;
    for(int i = 0; i < n; i++) m.v("n" + std::to_string(k == 0 ? i : k == 1 ? n - 1 - i : k == 2 ? (int)((int64_t)i * 7919 % n) : n + i), Val::null());
    layout(x, d);
}

/* objects *****************************************************************************************************/
struct Base { int v = 1; virtual ~Base() { } virtual const TypeID& srl_type_id(); virtual void srl_resolve(Context& c) { c("v", v); } };
struct Derived : Base { std::string s = "der"; const TypeID& srl_type_id() override; void srl_resolve(Context& c) override { Base::srl_resolve(c); c("s", s); } };
static const auto r0 = register_type<Base>("layout::Base"); static const auto r1 = register_type<Derived>("layout::Derived");
const TypeID& Base::srl_type_id() { return r0; } const TypeID& Derived::srl_type_id() { return r1; }
struct Plain { int a = 1; std::string b = "text"; std::vector<int> c { 1, 2 }; double d = 0.1; void srl_resolve(Context& x) { x("a", a)("b", b)("c", c)("d", d); } };
struct Unnamed { int a = 3; std::string b = "u"; void srl_resolve(Context& x) { x(a)(b); } };
struct Split { int a = 4; void srl_store(StoreContext& c) const { c("stored", a); } void srl_restore(RestoreContext& c) { c("stored", a); } };

/* how a value is made (by choices) and what it is stored as */
struct Shared { std::map<const void*, uint64_t> keys; };
static bool narrow;   /* few choices for the second field */
static int pick(mc::X& x, int n) { return narrow ? n - 1 : x.choose(n); }
template<class T, class = void> struct K;
#define LEAF(T, ...) template<> struct K<T> { static void make(mc::X& x, T& o) { static const T all[] { __VA_ARGS__ }; o = all[pick(x, sizeof all / sizeof *all)]; } static Item shape(const T& o, const std::string& n, Shared&) { return Item::value(n, val(o)); } static Val val(const T& o); };
LEAF(int, 0, -129) LEAF(int8_t, 5, -128) LEAF(uint16_t, 65535) LEAF(uint64_t, 1ull << 63, 127) LEAF(bool, false, true) LEAF(float, 0.1f, 2) LEAF(double, 0.1, 2) LEAF(std::string, "", "a text which is not stored in place")
Val K<int>::val(const int& o) { return Val::i32(o); } Val K<int8_t>::val(const int8_t& o) { return Val::i32(o); } Val K<uint16_t>::val(const uint16_t& o) { return Val::u64(o); } Val K<uint64_t>::val(const uint64_t& o) { return Val::u64(o); }
Val K<bool>::val(const bool& o) { return Val::boolean(o); } Val K<float>::val(const float& o) { return Val::fp(o); } Val K<double>::val(const double& o) { return Val::dbl(o); } Val K<std::string>::val(const std::string& o) { return Val::str(o); }
template<> struct K<std::u16string> { static void make(mc::X&, std::u16string& o) { o = u"\u20ac\U0001f600"; } static Item shape(const std::u16string&, const std::string& n, Shared&) { return Item::value(n, Val::str("\u20ac\U0001f600")); } };
template<> struct K<char> { static void make(mc::X&, char& o) { o = 'c'; } static Item shape(const char&, const std::string& n, Shared&) { return Item::value(n, Val::str("c")); } };
template<> struct K<char[6]> { static void make(mc::X&, char (&o)[6]) { strcpy(o, "arr"); } static Item shape(const char (&)[6], const std::string& n, Shared&) { return Item::value(n, Val::str("arr")); } };
template<> struct K<Bytes> { static void make(mc::X&, Bytes& o) { o = Bytes(std::vector<uint8_t> { 0, 255, 7 }); } static Item shape(const Bytes&, const std::string& n, Shared&) { return Item::value(n, Val::bin(std::string("\0\xff\x07", 3))); } };
template<> struct K<Plain> { static void make(mc::X& x, Plain& o) { o.a = pick(x, 2) * 200; } static Item shape(const Plain& o, const std::string& n, Shared&) { auto r = Item::open(n, false); r.add(Item::value("a", Val::i32(o.a))).add(Item::value("b", Val::str(o.b))).add(Item::open("c", true).add(Item::value("", Val::i32(1))).add(Item::value("", Val::i32(2)))).add(Item::value("d", Val::dbl(o.d))); return r; } };
template<> struct K<Unnamed> { static void make(mc::X&, Unnamed&) { } static Item shape(const Unnamed& o, const std::string& n, Shared&) { auto r = Item::open(n, false); r.add(Item::value("", Val::i32(o.a))).add(Item::value("", Val::str(o.b))); return r; } };
template<> struct K<Split> { static void make(mc::X&, Split&) { } static Item shape(const Split& o, const std::string& n, Shared&) { auto r = Item::open(n, false); r.add(Item::value("stored", Val::i32(o.a))); return r; } };

template<class C> struct KSeq {
    typedef typename C::value_type E;
    static Item shape(const C& o, const std::string& n, Shared& s) { auto r = Item::open(n, true); for(auto& e : o) r.add(K<typename std::remove_const<E>::type>::shape(e, "", s)); return r; }
    static void make(mc::X& x, C& o) { int n = narrow ? 1 : x.choose(3); for(int i = 0; i < n; i++) { o.emplace_back(); K<E>::make(x, o.back()); } }
};
template<class E> struct K<std::vector<E>> : KSeq<std::vector<E>> { };
template<class E> struct K<std::list<E>> : KSeq<std::list<E>> { };
template<class E> struct K<std::deque<E>> : KSeq<std::deque<E>> { };
template<class E> struct K<std::set<E>> : KSeq<std::set<E>> { static void make(mc::X& x, std::set<E>& o) { int n = narrow ? 1 : x.choose(3); for(int i = 0; i < n; i++) { E e; K<E>::make(x, e); o.insert(e); } } };
template<class A, class B> struct KMap {
    template<class M> static Item shape_(const M& o, const std::string& n, Shared& s) { auto r = Item::open(n, true); for(auto& e : o) { auto p = Item::open("", false); p.add(K<A>::shape(e.first, "key", s)).add(K<B>::shape(e.second, "value", s)); r.add(p); } return r; }
};
template<class A, class B> struct K<std::map<A, B>> : KMap<A, B> { static void make(mc::X& x, std::map<A, B>& o) { int n = narrow ? 1 : x.choose(3); for(int i = 0; i < n; i++) { A a; K<A>::make(x, a); K<B>::make(x, o[a]); } } static Item shape(const std::map<A, B>& o, const std::string& n, Shared& s) { return KMap<A, B>::shape_(o, n, s); } };
template<class A, class B> struct K<std::multimap<A, B>> : KMap<A, B> { static void make(mc::X& x, std::multimap<A, B>& o) { int n = narrow ? 1 : x.choose(3); for(int i = 0; i < n; i++) { A a; B b; K<A>::make(x, a); K<B>::make(x, b); o.insert({ a, b }); } } static Item shape(const std::multimap<A, B>& o, const std::string& n, Shared& s) { return KMap<A, B>::shape_(o, n, s); } };
template<class A, class B> struct K<std::unordered_map<A, B>> : KMap<A, B> { static void make(mc::X& x, std::unordered_map<A, B>& o) { A a; K<A>::make(x, a); K<B>::make(x, o[a]); } static Item shape(const std::unordered_map<A, B>& o, const std::string& n, Shared& s) { return KMap<A, B>::shape_(o, n, s); } };
template<class A, class B> struct K<std::pair<A, B>> { static void make(mc::X& x, std::pair<A, B>& o) { K<A>::make(x, o.first); K<B>::make(x, o.second); } static Item shape(const std::pair<A, B>& o, const std::string& n, Shared& s) { auto r = Item::open(n, false); r.add(K<A>::shape(o.first, "first", s)).add(K<B>::shape(o.second, "second", s)); return r; } };
template<class A, class B> struct K<std::tuple<A, B>> { static void make(mc::X& x, std::tuple<A, B>& o) { K<A>::make(x, std::get<0>(o)); K<B>::make(x, std::get<1>(o)); } static Item shape(const std::tuple<A, B>& o, const std::string& n, Shared& s) { auto r = Item::open(n, true); r.add(K<A>::shape(std::get<0>(o), "", s)).add(K<B>::shape(std::get<1>(o), "", s)); return r; } };
template<class E> struct K<E[2], typename std::enable_if<!std::is_same<E, char>::value>::type> { static void make(mc::X& x, E (&o)[2]) { K<E>::make(x, o[0]); K<E>::make(x, o[1]); } static Item shape(const E (&o)[2], const std::string& n, Shared& s) { auto r = Item::open(n, true); r.add(K<E>::shape(o[0], "", s)).add(K<E>::shape(o[1], "", s)); return r; } };
template<class E> struct K<std::unique_ptr<E>> { static void make(mc::X& x, std::unique_ptr<E>& o) { if(pick(x, 2)) { o.reset(new E()); K<E>::make(x, *o); } } static Item shape(const std::unique_ptr<E>& o, const std::string& n, Shared& s) { return o ? K<E>::shape(*o, n, s) : Item::value(n, Val::null()); } };
static Item poly_shape(const Base& o, const std::string& n) { auto r = Item::open(n, false); auto d = dynamic_cast<const Derived*>(&o); r.add(Item::value("srl_type_id", Val::str(d ? "layout::Derived" : "layout::Base"))).add(Item::value("v", Val::i32(o.v))); if(d) r.add(Item::value("s", Val::str(d->s))); return r; }
template<> struct K<std::unique_ptr<Base>> { static void make(mc::X& x, std::unique_ptr<Base>& o) { o.reset(pick(x, 2) ? new Derived : new Base); } static Item shape(const std::unique_ptr<Base>& o, const std::string& n, Shared&) { return poly_shape(*o, n); } };
template<class E, class P> static Item shared_shape(const P& o, const std::string& n, Shared& s)
{
    auto r = Item::open(n, false);
    if(!o) { r.add(Item::value("srl_shared_key", Val::null())); return r; }
    auto it = s.keys.find(o.get());
    if(it != s.keys.end()) { r.add(Item::value("srl_shared_key", Val::u64(it->second))); return r; }
    auto k = s.keys.size(); s.keys[o.get()] = k;
    r.add(Item::value("srl_shared_key", Val::u64(k)));
    if constexpr(std::is_same<E, Base>::value) r.add(poly_shape(*o, "srl_shared_value")); else r.add(K<E>::shape(*o, "srl_shared_value", s));
    return r;
}
/* null, new, or the one made before */
template<class E> static std::shared_ptr<E>& before() { static std::shared_ptr<E> p; return p; }
template<class E> struct K<std::shared_ptr<E>> {
    static void make(mc::X& x, std::shared_ptr<E>& o)
    {
        int c = x.choose(3); auto& b = before<E>();
        if(c == 0) return;
        if(c == 2) { if(!b) x.skip(); o = b; return; }
        if constexpr(std::is_same<E, Base>::value) { if(pick(x, 2)) b = std::make_shared<Derived>(); else b = std::make_shared<Base>(); } else { b = std::make_shared<E>(); K<E>::make(x, *b); }
        o = b;
    }
    static Item shape(const std::shared_ptr<E>& o, const std::string& n, Shared& s) { return shared_shape<E>(o, n, s); }
};
template<class E> struct K<std::weak_ptr<E>> {
    static void make(mc::X& x, std::weak_ptr<E>& o) { if(x.choose(2)) { if(!before<E>()) x.skip(); o = before<E>(); } }
    static Item shape(const std::weak_ptr<E>& o, const std::string& n, Shared& s) { return shared_shape<E>(o.lock(), n, s); }
};
template<class E> struct K<Lib::HTable<std::string, E>> {
    static void make(mc::X& x, Lib::HTable<std::string, E>& o) { E e; K<E>::make(x, e); o.insert(std::string("entry"), std::move(e)); }
    static Item shape(const Lib::HTable<std::string, E>& o, const std::string& n, Shared& s) { auto r = Item::open(n, false); o.foreach([&](const std::string& k, const E& e) { r.add(K<E>::shape(e, k, s)); }); return r; }
};

/* two fields of the type and one behind them */
template<class T> struct Two { T first_field; int between = 5; T second_field; void srl_resolve(Context& c) { c("one", first_field)("between", between)("two", second_field); } Two() { } };
template<class T> static void object(mc::X& x, const char* name)
{
    before<Plain>().reset(); before<Base>().reset(); before<int>().reset(); before<std::string>().reset(); before<std::vector<int>>().reset();
    auto o = std::make_unique<Two<T>>(); memset((void*)&o->between, 0, sizeof(int)); o->between = 5;
    narrow = false; K<T>::make(x, o->first_field); narrow = true; K<T>::make(x, o->second_field);
    auto shape = Item::open("", false); Shared s;
    shape.add(K<T>::shape(o->first_field, "one", s)).add(Item::value("between", Val::i32(5))).add(K<T>::shape(o->second_field, "two", s));
    auto e = Enc::encode(shape);
    auto d = to_doc(shape);
    x.note("%s: %s", name, show(d).c_str()); x.state(mc::hash(e));
    same_bytes(x, "an object is stored in another layout", e, Tree().store(*o, PSrl()), show(d));
    { std::ostringstream os; Tree().store(*o, os, PSrl()); auto b = os.str(); same_bytes(x, "an object is stored in another layout to a stream", e, Buf(b.begin(), b.end()), show(d)); }
    /* the same document by way of a tree, in all formats */
    {
        Tree t; t.load_object(*o);
        if(s.keys.empty()) same_bytes(x, "an object is stored in another layout by way of a tree", Enc::encode(sorted(shape)), write(t, SrlF), show(d));
        auto df = diff(d, extract(t.root()), false); x.step();
        if(!df.empty()) x.fail("the tree of an object is another one", df + "\n" + show(d));
    }
    for(int f = 0; f < SrlF; f++) {
        auto b = with(f, [&](auto& p) { return Tree().store(*o, p); });
        Doc g; std::string err;
        if(f == Msg) { /* decoded by the reference */ }
        auto df = diff(d, load_doc(f, b), is_text(f)); x.step();
        if(!df.empty()) x.fail("an object is stored in another layout", std::string(fmt_name(f)) + ": " + df + "\n" + show(d));
    }
    /* read from the layout, memory and stream, and by way of a tree */
    for(int r = 0; r < 3; r++) {
        auto q = std::make_unique<Two<T>>(); Tree t; PSrl p;
        if(r == 0) { Exact m(e); t.restore(*q, m.p, m.n, p); }
        else if(r == 1) { ChunkStream c(e, { 1 }); t.restore(*q, c, p); }
        else { t.load_source(e.data(), e.size(), p); t.root().paste(*q); }
        Shared s2; auto again = Item::open("", false);
        again.add(K<T>::shape(q->first_field, "one", s2)).add(Item::value("between", Val::i32(q->between))).add(K<T>::shape(q->second_field, "two", s2));
        same_bytes(x, "an object is read differently from its layout", e, Enc::encode(again), show(d) + ", route " + std::to_string(r));
    }
}
typedef std::pair<const char*, void (*)(mc::X&, const char*)> Case;
#define CASE(...) { #__VA_ARGS__, &object<__VA_ARGS__> }
typedef int Ints[2]; typedef char Chars[6]; typedef std::string Texts[2];
static const std::vector<Case>& cases()
{
    static const std::vector<Case> all {
        CASE(int), CASE(int8_t), CASE(uint16_t), CASE(uint64_t), CASE(bool), CASE(float), CASE(double), CASE(std::string), CASE(std::u16string), CASE(char), CASE(Chars), CASE(Bytes), CASE(Plain), CASE(Unnamed), CASE(Split),
        CASE(std::vector<int>), CASE(std::list<std::string>), CASE(std::deque<double>), CASE(std::set<int>), CASE(std::vector<Plain>), CASE(std::vector<std::vector<int>>), CASE(std::vector<Bytes>),
        CASE(std::map<std::string, int>), CASE(std::map<int, std::string>), CASE(std::multimap<int, int>), CASE(std::unordered_map<int, std::string>), CASE(std::map<int, std::vector<int>>), CASE(std::map<std::string, Plain>), CASE(std::map<std::string, std::map<int, bool>>),
        CASE(std::pair<int, std::string>), CASE(std::pair<std::pair<int, bool>, std::vector<int>>), CASE(std::tuple<int, std::string>), CASE(std::tuple<std::vector<int>, Plain>), CASE(Ints), CASE(Texts),
        CASE(std::unique_ptr<int>), CASE(std::unique_ptr<Plain>), CASE(std::unique_ptr<std::string>), CASE(std::unique_ptr<std::vector<int>>), CASE(std::unique_ptr<Base>), CASE(std::vector<std::unique_ptr<Base>>),
        CASE(std::shared_ptr<int>), CASE(std::shared_ptr<std::string>), CASE(std::shared_ptr<Plain>), CASE(std::shared_ptr<std::vector<int>>), CASE(std::shared_ptr<Base>), CASE(std::vector<std::shared_ptr<Plain>>), CASE(std::list<std::shared_ptr<Base>>), CASE(std::map<int, std::shared_ptr<int>>), CASE(std::pair<std::shared_ptr<Base>, std::weak_ptr<Base>>),
        CASE(std::pair<std::shared_ptr<std::string>, std::weak_ptr<std::string>>), CASE(Lib::HTable<std::string, int>), CASE(Lib::HTable<std::string, Plain>), CASE(Lib::HTable<std::string, std::vector<int>>),
    };
    return all;
}
MC_SCENARIO("objects", "54 types (numbers, texts, blobs, classes, containers, maps, pairs, tuples, arrays, unique, shared, weak and polymorphic pointers, nested in each other), two fields each, the first of up to 2 elements with all choices of values, all choices of sharing: bytes stored, documents in every format, restored from the layout by 3 routes")
{
    auto& c = cases()[x.shard(cases().size())];
    c.second(x, c.first);
}
int main(int argc, char** argv) { return mc::main("P30", argc, argv); }
