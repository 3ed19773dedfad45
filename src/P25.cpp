#include "objs.h"

using namespace doc;
using namespace Srl;

/* Faults **************************************************************************************/
struct Boom { int n; };
static int fuse = -1;       /* events left until one throws, < 0: none does */
static int events = 0;
static void ev() { events++; if(fuse >= 0 && fuse-- == 0) throw Boom { events }; }

static long alloc_fuse = -1, allocs = 0;
static bool counting = false;
static void* alloc(size_t n)
{
    if(counting) { allocs++; if(alloc_fuse >= 0 && alloc_fuse-- == 0) throw std::bad_alloc(); }
    void* p = malloc(n ? n : 1);
    if(!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return alloc(n); }
void* operator new[](size_t n) { return alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

/* every object is counted, alive objects are marked */
struct Count {
    static int live; static bool twice; uint32_t mark = 0xA11FE;
    Count() { ev(); live++; } Count(const Count&) { live++; } Count& operator=(const Count&) { return *this; }
    ~Count() { if(mark != 0xA11FE) twice = true; mark = 0; live--; }
};
int Count::live = 0; bool Count::twice = false;

/* Types ***************************************************************************************/
struct Leaf : Count {
    int a = 0; std::string s; std::vector<short> v;
    template<class C> void resolve(C& c) { ev(); c("a", a); ev(); c("s", s)("v", v); ev(); }
    void srl_resolve(Context& c) { resolve(c); }
};
/* fields without names */
struct Bare : Count {
    int a = 0; std::unique_ptr<std::string> s;
    void srl_store(StoreContext& c) const { ev(); c(a)(s); ev(); }
    void srl_restore(RestoreContext& c) { ev(); c(a); ev(); c(s); ev(); }
};
struct Base : Count {
    int v = 0;
    virtual ~Base() { }
    virtual const TypeID& srl_type_id();
    virtual void srl_resolve(Context& c) { ev(); c("v", v); ev(); }
};
struct Derived : Base {
    Leaf* raw = nullptr; std::unique_ptr<Base> u; std::string text;
    ~Derived() { delete raw; }
    const TypeID& srl_type_id() override;
    void srl_resolve(Context& c) override { ev(); c("raw", raw); Base::srl_resolve(c); ev(); c("u", u)("text", text); ev(); }
};
struct Pad { long pad = 7; virtual ~Pad() { } };
struct Offset : Pad, Base { Base* raw = nullptr; ~Offset() { delete raw; } const TypeID& srl_type_id() override; void srl_resolve(Context& c) override { Base::srl_resolve(c); ev(); c("raw", raw); ev(); } };
static const auto r0 = register_type<Base>("Base"); static const auto r1 = register_type<Derived>("Derived"); static const auto r2 = register_type<Offset>("Offset");
const TypeID& Base::srl_type_id() { return r0; } const TypeID& Derived::srl_type_id() { return r1; } const TypeID& Offset::srl_type_id() { return r2; }

/* sets t to a value, n numbers the objects */
template<class T, class = void> struct F;
template<class T> static void fill(T& t, int& n) { F<T>::set(t, n); }
template<class T> struct F<T, typename std::enable_if<std::is_arithmetic<T>::value>::type> { static void set(T& t, int& n) { t = T(++n); } static void free(T&) { } };
template<> struct F<std::string> { static void set(std::string& t, int& n) { t = "text number " + std::to_string(++n) + (n % 3 ? "" : " which is a longer one than the others"); } static void free(std::string&) { } };
template<> struct F<Leaf> { static void set(Leaf& t, int& n) { fill(t.a, n); fill(t.s, n); t.v = { 1, 2 }; } static void free(Leaf&) { } };
template<> struct F<Bare> { static void set(Bare& t, int& n) { fill(t.a, n); t.s.reset(new std::string); fill(*t.s, n); } static void free(Bare&) { } };
static Base* make(int& n, int depth = 0)
{
    int k = n++;
    if(depth > 1 || k % 3 == 0) { auto p = new Base; p->v = k; return p; }
    if(k % 3 == 1) { auto p = new Derived; p->v = k; p->raw = new Leaf; fill(*p->raw, n); p->u.reset(make(n, depth + 1)); fill(p->text, n); return p; }
    auto p = new Offset; p->v = k; p->raw = make(n, depth + 1); return p;
}
template<class T> struct F<T*> {
    static void set(T*& p, int& n) { if constexpr(std::is_same<T, Base>::value) p = make(n); else { p = new T; fill(*p, n); } }
    static void free(T*& p) { if(p) F<T>::free(*p); delete p; p = nullptr; }
};
template<> struct F<Base> { static void free(Base&) { } };
template<class T> struct F<std::unique_ptr<T>> {
    static void set(std::unique_ptr<T>& p, int& n) { T* q; F<T*>::set(q, n); p.reset(q); }
    static void free(std::unique_ptr<T>& p) { if(p) F<T>::free(*p); }
};
template<class T> struct F<std::shared_ptr<T>> {
    static void set(std::shared_ptr<T>& p, int& n) { T* q; F<T*>::set(q, n); p.reset(q); }
    static void free(std::shared_ptr<T>&) { }
};
template<class C> struct FSeq {
    static void set(C& c, int& n) { for(int i = 0; i < 2; i++) { typename C::value_type e { }; fill(e, n); c.insert(c.end(), std::move(e)); } }
    static void free(C& c) { for(auto& e : c) F<typename std::remove_const<typename std::remove_reference<decltype(e)>::type>::type>::free(const_cast<typename C::value_type&>(e)); }
};
template<class T> struct F<std::vector<T>> : FSeq<std::vector<T>> { };
template<class T> struct F<std::list<T>> : FSeq<std::list<T>> { };
template<class T> struct F<std::deque<T>> : FSeq<std::deque<T>> { };
template<class T> struct F<std::set<T>> : FSeq<std::set<T>> { };
/* the same object twice */
template<class T> struct F<std::vector<std::shared_ptr<T>>> { typedef std::vector<std::shared_ptr<T>> C; static void set(C& c, int& n) { c.resize(2); fill(c[0], n); fill(c[1], n); c.push_back(c[0]); } static void free(C&) { } };
template<class M> struct FMap {
    static void set(M& m, int& n) { for(int i = 0; i < 2; i++) { typename std::remove_const<typename M::key_type>::type k { }; fill(k, n); typename M::mapped_type v { }; fill(v, n); m.emplace(std::move(k), std::move(v)); } }
    static void free(M& m) { for(auto& e : m) F<typename M::mapped_type>::free(e.second); }
};
template<class K, class V> struct F<std::map<K, V>> : FMap<std::map<K, V>> { };
template<class K, class V> struct F<std::multimap<K, V>> : FMap<std::multimap<K, V>> { };
template<class K, class V> struct F<std::unordered_map<K, V>> { typedef std::unordered_map<K, V> M; static void set(M& m, int& n) { K k { }; fill(k, n); V v { }; fill(v, n); m.emplace(std::move(k), std::move(v)); } static void free(M& m) { for(auto& e : m) F<V>::free(e.second); } };
template<class V> struct F<Lib::HTable<std::string, V>> { typedef Lib::HTable<std::string, V> M; static void set(M& m, int& n) { V v { }; fill(v, n); m.insert("only", std::move(v)); V w { }; fill(w, n); m.insert("other", std::move(w)); } static void free(M& m) { m.foreach([](const std::string&, V& v) { F<V>::free(v); }); } };
template<class A, class B> struct F<std::pair<A, B>> { typedef std::pair<A, B> T; static void set(T& t, int& n) { fill(t.first, n); fill(t.second, n); } static void free(T& t) { F<A>::free(t.first); F<B>::free(t.second); } };
template<class... E> struct F<std::tuple<E...>> { typedef std::tuple<E...> T; static void set(T& t, int& n) { std::apply([&](auto&... e) { (fill(e, n), ...); }, t); } static void free(T& t) { std::apply([](auto&... e) { (F<typename std::remove_reference<decltype(e)>::type>::free(e), ...); }, t); } };
template<class T, size_t N> struct F<T[N]> { static void set(T (&t)[N], int& n) { for(auto& e : t) fill(e, n); } static void free(T (&t)[N]) { for(auto& e : t) F<T>::free(e); } };

struct Weak { std::shared_ptr<Leaf> s; std::weak_ptr<Leaf> w, q; void srl_resolve(Context& c) { ev(); c("s", s); ev(); c("w", w)("q", q); ev(); } };
template<> struct F<Weak> { static void set(Weak& t, int& n) { fill(t.s, n); t.w = t.s; } static void free(Weak&) { } };
struct Bin { std::vector<int> v; std::string raw; void srl_resolve(Context& c) { ev(); VecWrap<int> w(v); c("v", w); BitWrap b((const uint8_t*)raw.data(), raw.size(), [this](size_t n) { ev(); raw.resize(n); return (uint8_t*)raw.data(); }); ev(); c("raw", b); ev(); } };
template<> struct F<Bin> { static void set(Bin& t, int& n) { t.v = { n, 2, 3 }; fill(t.raw, n); } static void free(Bin&) { } };

/* whether containers of it own raw pointers, which a restore over them does not delete */
template<class T> struct Owns : std::false_type { };
template<class T> struct Owns<std::vector<T>> : std::integral_constant<bool, std::is_pointer<T>::value || Owns<T>::value> { };
template<class T> struct Owns<std::list<T>> : Owns<std::vector<T>> { };
template<class K, class T> struct Owns<std::map<K, T>> : Owns<std::vector<T>> { };
template<class K, class T> struct Owns<std::multimap<K, T>> : Owns<std::vector<T>> { };
template<class T> struct Owns<std::unique_ptr<T>> : Owns<T> { };
template<class... T> struct Owns<std::tuple<T...>> : std::integral_constant<bool, (Owns<std::vector<T>>::value || ...)> { };
template<class A, class B> struct Owns<std::pair<A, B>> : Owns<std::tuple<A, B>> { };
template<class T> struct Owns<Lib::HTable<std::string, T>> : Owns<std::vector<T>> { };

template<class T> struct Holder : Count {
    int first = 0; T v { }; std::string last;
    Holder() { }
    Holder(Holder&& o) : first(o.first), v(std::move(o.v)), last(std::move(o.last)) { o.v = T { }; }
    ~Holder() { F<T>::free(v); }
    void srl_resolve(Context& c) { ev(); c("first", first); ev(); c("v", v); ev(); c("last", last); ev(); }
};
template<class T, size_t N> struct Holder<T[N]> : Count {
    int first = 0; T v[N] { }; std::string last;
    ~Holder() { F<T[N]>::free(v); }
    void srl_resolve(Context& c) { ev(); c("first", first); ev(); c("v", v); ev(); c("last", last); ev(); }
};
template<class T> static void fill_holder(Holder<T>& h, int n) { h.first = n; F<T>::set(h.v, n); h.last = "last"; }

/* one type, independent of it */
const int Routes = 8;
static const char* route_names[] { "restore from memory", "restore from stream", "restore by value", "load and paste", "load and unwrap", "unpack", "load and paste field", "load and unwrap field" };
struct Type_ {
    const char* name;
    virtual ~Type_() { }
    virtual void* create(int n) = 0;                    /* n: 0 empty, otherwise filled */
    virtual bool fills() = 0;                           /* may be restored over a filled one */
    virtual void destroy(void* p) = 0;
    virtual bool by_value() = 0;
    virtual void read(void* p, Tree& t, Parser& r, const Buf& b, int route) = 0;
    virtual void write(void* p, Tree& t, Parser& r, Buf& b, int route) = 0;
    virtual Buf bytes(void* p) = 0;
};
template<class T> struct Of : Type_ {
    typedef Holder<T> H;
    void* create(int n) override { auto h = new H; if(n) fill_holder(*h, n); return h; }
    bool fills() override { return !Owns<T>::value; }
    void destroy(void* p) override { delete (H*)p; }
    bool by_value() override { return !std::is_array<T>::value; }
    void read(void* p, Tree& t, Parser& r, const Buf& b, int route) override
    {
        auto& h = *(H*)p;
        switch(route) {
            case 0: { Exact e(b); t.restore(h, e.src(), r); break; }
            case 1: { ChunkStream s(b, { 1, 5 }); t.restore(h, s, r); break; }
            case 2: if constexpr(!std::is_array<T>::value) { Exact e(b); auto o = t.restore<H>(e.src(), r); h.first = o.first; F<T>::free(h.v); h.v = std::move(o.v); o.v = T { }; h.last = std::move(o.last); } break;
            case 3: { ChunkStream s(b, { 7 }); t.load_source(s, r); t.root().paste(h); break; }
            case 4: if constexpr(!std::is_array<T>::value) { t.load_source(b, r); auto o = t.root().unwrap<H>(); h.first = o.first; F<T>::free(h.v); h.v = std::move(o.v); o.v = T { }; h.last = std::move(o.last); } break;
            case 5: { ChunkStream s(b, { 3 }); t.unpack(s, r, "last", h.last, "v", h.v, "first", h.first); break; }
            case 6: { t.load_source(b, r); t.root().paste_field("last", h.last); t.root().paste_field("v", h.v); t.root().paste_field("first", h.first); break; }
            case 7: if constexpr(!std::is_array<T>::value) { t.load_source(b, r); F<T>::free(h.v); h.v = T { }; h.v = t.root().unwrap_field<T>("v"); h.first = t.root().unwrap_field<int>("first"); h.last = t.root().unwrap_field<std::string>("last"); } break;
        }
    }
    void write(void* p, Tree& t, Parser& r, Buf& b, int route) override
    {
        auto& h = *(H*)p;
        switch(route) {
            case 0: t.store(h, b, r); break;
            case 1: { std::ostringstream s; t.store(h, s, r); auto c = s.str(); b.assign(c.begin(), c.end()); break; }
            case 2: t.load_object(h); b = t.to_source(r); break;
            case 3: t.clear(); t.root().insert("first", h.first, "v", h.v); t.root().insert("last", h.last); b = t.to_source(r); break;
            case 4: t.pack(b, r, "first", h.first, "v", h.v, "last", h.last); break;
        }
    }
    Buf bytes(void* p) override { Tree t; return t.store<PJson>(*(H*)p); }
};
static std::vector<Type_*> types;
template<class T> struct Add { Add(const char* n) { types.push_back(new Of<T>()); types.back()->name = n; } };
#define T_(id, ...) static Add<__VA_ARGS__> add_##id(#__VA_ARGS__);
T_(1, Leaf) T_(2, Bare) T_(3, std::unique_ptr<Leaf>) T_(4, Leaf*) T_(5, std::vector<Leaf>) T_(6, std::vector<std::unique_ptr<Leaf>>) T_(7, std::vector<Leaf*>)
T_(8, std::list<Leaf*>) T_(9, std::map<std::string, Leaf>) T_(10, std::map<std::string, Leaf*>) T_(11, std::map<int, std::shared_ptr<Leaf>>) T_(12, std::set<std::string>)
T_(13, std::shared_ptr<Leaf>) T_(14, std::vector<std::shared_ptr<Leaf>>) T_(15, Weak) T_(16, std::pair<std::unique_ptr<Leaf>, Bare>) T_(17, std::tuple<Leaf, std::unique_ptr<Bare>, std::vector<Bare>>)
T_(18, Leaf[2]) T_(19, std::unique_ptr<Leaf>[2]) T_(20, Leaf*[2]) T_(21, Lib::HTable<std::string, Leaf>) T_(22, Base*) T_(23, std::unique_ptr<Base>) T_(24, std::vector<Base*>)
T_(25, std::vector<std::unique_ptr<Base>>) T_(26, std::map<std::string, Base*>) T_(27, std::vector<std::shared_ptr<Base>>) T_(28, std::vector<std::vector<Leaf*>>) T_(29, std::unique_ptr<std::vector<Base*>>)
T_(30, std::list<std::unique_ptr<std::vector<std::unique_ptr<Base>>>>) T_(31, Bin) T_(32, std::map<int, std::vector<Base*>>) T_(33, std::unordered_map<std::string, Leaf>) T_(34, std::multimap<std::string, Leaf*>)
T_(35, std::vector<Bin>) T_(36, std::shared_ptr<Base>) T_(37, Lib::HTable<std::string, std::vector<Leaf*>>) T_(38, std::pair<Leaf*, std::shared_ptr<Leaf>>) T_(39, Base*[2])
T_(45, Lib::HTable<std::string, int*>) T_(46, std::vector<int*>) T_(47, std::map<std::string, std::string*>)
T_(40, std::vector<std::tuple<Leaf*, int>>) T_(41, std::tuple<Leaf*, int>) T_(42, std::map<std::string, std::tuple<Leaf*, Base*>>) T_(43, std::shared_ptr<std::vector<Leaf>>) T_(44, std::map<std::string, std::pair<Leaf*, int>>)

const int Formats[] { JsonC, Msg, SrlF };

/* one restore with a fault and what comes after it */
struct Run {
    mc::X& x; Type_* ty; int f, route; Buf good; Buf expect;
    std::unique_ptr<Tree> tree; std::unique_ptr<Parser> parser; void* target = nullptr;
    std::string what;
    int base;

    Run(mc::X& x_, int ti, int f_, int route_, int prefilled) : x(x_), ty(types[ti]), f(Formats[f_]), route(route_)
    {
        fuse = -1; alloc_fuse = -1; counting = false; Count::live = 0; Count::twice = false; base = 0;
        std::unique_ptr<Parser> p(objs::new_parser(f));
        void* o = ty->create(3);
        Tree t; ty->write(o, t, *p, good, 0); expect = ty->bytes(o);
        ty->destroy(o);
        parser.reset(objs::new_parser(f)); tree.reset(new Tree);
        target = ty->create(prefilled ? 50 : 0);
        what = std::string(ty->name) + ", " + fmt_name(f) + ", " + route_names[route] + (prefilled ? ", into a filled object" : "");
        x.note("%s", what.c_str());
    }
    ~Run() { fuse = -1; alloc_fuse = -1; counting = false; if(target) ty->destroy(target); }
    /* 1: restored, 0: refused */
    bool read(const Buf& b)
    {
        x.step();
        struct Off { ~Off() { fuse = -1; alloc_fuse = -1; counting = false; } } off;
        try { counting = true; ty->read(target, *tree, *parser, b, route); return true; }
        catch(Boom& e) { x.note("exception at event %d", e.n); }
        catch(Exception& e) { x.note("refused: %s", e.what()); }
        catch(std::bad_alloc&) { x.note("out of memory"); }
        return false;
    }
    std::string around() { return what; }
    void end(int after)
    {
        if(Count::twice) x.fail("object destroyed twice", what);
        if(after == 1) {            /* the target may be used again */
            if(!ty->fills()) { ty->destroy(target); target = ty->create(0); }
            if(!read(good)) x.fail("good document refused after a failed restore", what);
            if(ty->bytes(target) != expect) x.fail("object differs, restored after a failed restore", what + ": " + mc::show(ty->bytes(target)) + " instead of " + mc::show(expect));
        }
        if(after == 2) {            /* tree and parser may be used for anything */
            tree->root().foreach_node([](Node&) { }, true);
            tree->clear();
            void* o = ty->create(3); Buf b;
            ty->write(o, *tree, *parser, b, route % 5);
            Buf ref; { Tree t; std::unique_ptr<Parser> p(objs::new_parser(f)); ty->write(o, t, *p, ref, route % 5); }
            ty->destroy(o);
            if(b != ref) x.fail("stored document differs after a failed restore", what + ": " + mc::show(b) + " instead of " + mc::show(ref));
            tree->load_source(good, *parser);
            b = tree->to_source(*parser);
            Tree t; t.load_source(good, *parser);
            if(b != t.to_source(*parser)) x.fail("loaded document differs after a failed restore", what);
        }
        if(after == 3) {            /* nothing has to be done with them */
            parser.reset();
        }
        if(after == 4) {            /* the scope of a failed restore may be looked at and changed */
            std::string s;
            tree->root().foreach_value([&](Value& v) { s += std::to_string(v.size()); }, true);
            tree->root().insert("more", 1);
            Tree u(std::move(*tree));
            if(u.root().find_values("more").empty()) x.fail("item inserted after a failed restore is lost", what);
        }
        ty->destroy(target); target = nullptr;
        tree.reset(); parser.reset();
        if(Count::twice) x.fail("object destroyed twice", what);
        if(Count::live) x.fail("objects which are never destroyed", what + ": " + std::to_string(Count::live));
    }
};

struct Par { int t, f, route, pre; };
static Par pick(mc::X& x)
{
    int sh = x.shard(types.size() * 3 * Routes);
    Par p { sh / 3 / Routes, sh % 3, sh / 3 % Routes, x.choose(2) };
    if(!types[p.t]->by_value() && (p.route == 2 || p.route == 4 || p.route == 7)) x.skip();
    if(p.pre && (!types[p.t]->fills() || p.route == 2 || p.route == 4 || p.route == 7)) x.skip();
    return p;
}
/* number of points where an exception may be thrown in a restore without fault */
static std::pair<int, int> points(mc::X& x, const Par& p)
{
    Run r(x, p.t, p.f, p.route, 0);
    events = 0; allocs = 0;
    if(!r.read(r.good)) x.fail("good document refused", r.what);
    std::pair<int, int> n(events, allocs);
    if(r.ty->bytes(r.target) != r.expect) x.fail("object differs", r.what);
    r.end(0);
    return n;
}

MC_SCENARIO("exceptions from user code", "47 types of members x 3 formats x 8 routes x empty and filled target: an exception from every constructor, every point between the fields of every resolve method, every allocation callback; then 5 ways to go on")
{
    auto p = pick(x);
    auto n = points(x, p).first;
    if(!n) x.skip();
    int k = x.choose(n), after = x.choose(5);
    Run r(x, p.t, p.f, p.route, p.pre);
    r.what += ", exception at event " + std::to_string(k) + ", after " + std::to_string(after);
    fuse = k;
    if(r.read(r.good)) x.fail("exception is lost", r.what);
    x.state(mc::mix(mc::hash(r.good), mc::mix(k, r.route)));
    r.end(after);
}

MC_SCENARIO("no memory", "47 types of members x 3 formats x 8 routes x empty and filled target: every allocation made by a restore fails")
{
    auto p = pick(x);
    auto n = points(x, p).second;
    int k = x.choose(n), after = x.thorough ? x.choose(5) : k % 5;
    Run r(x, p.t, p.f, p.route, p.pre);
    r.what += ", allocation " + std::to_string(k) + " fails, after " + std::to_string(after);
    alloc_fuse = k;
    r.read(r.good);
    x.state(mc::mix(mc::hash(r.good), mc::mix(k, r.route)));
    r.end(after);
}

MC_SCENARIO("truncated documents", "47 types of members x 3 formats x 8 routes x empty and filled target: the document cut after every byte")
{
    auto p = pick(x);
    Run r(x, p.t, p.f, p.route, p.pre);
    int k = x.choose(r.good.size()), after = x.thorough ? x.choose(5) : (k + p.route) % 5;
    r.what += ", cut after " + std::to_string(k) + " bytes, after " + std::to_string(after);
    r.read(Buf(r.good.begin(), r.good.begin() + k));
    x.state(mc::mix(mc::hash(r.good), mc::mix(k, r.route)));
    r.end(after);
}

/* all places of a document */
static void places(Doc& d, std::vector<std::pair<Doc*, int>>& r)
{
    for(size_t i = 0; i < d.values.size(); i++) r.push_back({ &d, (int)i });
    for(size_t i = 0; i < d.nodes.size(); i++) { r.push_back({ &d, -1 - (int)i }); places(d.nodes[i].second, r); }
}
const int Changes = 12;
static const char* changes[] { "null", "other text", "large number", "scope", "array", "binary", "missing", "name changed", "twice", "negative number", "unknown item before it", "number as text" };
static bool change(Doc& d, int i, int c)
{
    bool node = i < 0; size_t k = node ? -1 - i : i;
    auto name = node ? d.nodes[k].first : d.values[k].first;
    auto put = [&](Val v) { if(node) { d.nodes.erase(d.nodes.begin() + k); d.v(name, v); } else d.values[k].second = v; };
    auto scope = [&](Doc s) { if(!node) { d.values.erase(d.values.begin() + k); d.n(name, s); } else d.nodes[k].second = s; };
    switch(c) {
        case 0: put(Val::null()); break;
        case 1: put(Val::str("no number")); break;
        case 2: put(Val::u64(~0ull - 5)); break;
        case 3: { Doc s; s.v("x", Val::i32(1)); scope(s); break; }
        case 4: { Doc s(true); s.v("", Val::str("x")).n("", Doc()); scope(s); break; }
        case 5: put(Val::bin(std::string(7, '\xff'))); break;
        case 6: if(node) d.nodes.erase(d.nodes.begin() + k); else d.values.erase(d.values.begin() + k); break;
        case 7: (node ? d.nodes[k].first : d.values[k].first) += "x"; break;
        case 8: if(node) { auto e = d.nodes[k]; d.nodes.insert(d.nodes.begin() + k, e); } else { auto e = d.values[k]; d.values.insert(d.values.begin() + k, e); } break;
        case 9: put(Val::i32(-1)); break;
        case 10: { Doc s(true); s.v("", Val::str("unknown")); if(node) d.nodes.insert(d.nodes.begin() + k, { "unknown", s }); else d.values.insert(d.values.begin() + k, { "unknown", Val::str("v") }); break; }
        case 11: put(Val::str("1")); break;
    }
    return true;
}
MC_SCENARIO("unfitting documents", "47 types of members x 3 formats x 8 routes x empty and filled target: every value and scope of the document replaced, removed, renamed, repeated (12 kinds of changes)")
{
    auto p = pick(x);
    Run r(x, p.t, p.f, p.route, p.pre);
    auto d = load_doc(r.f, r.good);
    std::vector<std::pair<Doc*, int>> all; places(d, all);
    auto& at = all[x.choose(all.size())];
    int c = x.choose(Changes), after = x.thorough ? x.choose(5) : (c + p.route) % 5;
    auto name = at.second < 0 ? at.first->nodes[-1 - at.second].first : at.first->values[at.second].first;
    change(*at.first, at.second, c);
    Tree t; build(t.root(), d);
    auto b = write(t, r.f);
    r.what += ", " + name + ": " + changes[c] + ", after " + std::to_string(after);
    r.read(b);
    x.state(mc::mix(mc::hash(b), r.route));
    r.end(after);
}

static void storing(mc::X& x, bool memory)
{
    int sh = x.shard(types.size() * 3 * 5);
    int f = Formats[sh % 3], route = sh / 3 % 5; auto* ty = types[sh / 15];
    fuse = -1; alloc_fuse = -1; counting = false; Count::live = 0; Count::twice = false;
    void* o = ty->create(3);
    std::unique_ptr<Parser> parser(objs::new_parser(f));
    Buf good; { Tree t; ty->write(o, t, *parser, good, 0); }
    Buf routed[5]; int n;
    for(int r = 0; r < 5; r++) { Tree t; events = 0; allocs = 0; counting = true; ty->write(o, t, *parser, routed[r], r); counting = false; if(r == route) n = memory ? allocs : events; }
    if(!n) { ty->destroy(o); x.skip(); }
    int k = x.choose(n), after = memory && !x.thorough ? k % 4 : x.choose(4);
    auto what = std::string(ty->name) + ", " + fmt_name(f) + ", route " + std::to_string(route) + (memory ? ", allocation fails: " : ", exception at event ") + std::to_string(k) + ", after " + std::to_string(after);
    x.note("%s", what.c_str());
    std::unique_ptr<Tree> t(new Tree); Buf b;
    if(memory) alloc_fuse = k; else fuse = k;
    bool thrown = false; counting = true;
    try { ty->write(o, *t, *parser, b, route); } catch(Boom&) { thrown = true; } catch(std::bad_alloc&) { thrown = true; } catch(Exception&) { if(!memory || route != 1) throw; thrown = true; }
    fuse = -1; alloc_fuse = -1; counting = false;
    if(!thrown && !memory) x.fail("exception is lost", what);
    if(!thrown && route != 1 && b != routed[route]) x.fail("document stored without memory differs", what);
    x.step();
    if(after == 1) { t->clear(); for(int r = 0; r < 5; r++) { Buf c; ty->write(o, *t, *parser, c, r); if(c != routed[r]) x.fail("stored document differs after a failed store", what + " route " + std::to_string(r) + ": " + mc::show(c) + " instead of " + mc::show(routed[r])); t->clear(); } }
    if(after == 2) { void* q = ty->create(0); ty->read(q, *t, *parser, good, 1); if(ty->bytes(q) != ty->bytes(o)) x.fail("restored object differs after a failed store", what); ty->destroy(q); }
    if(after == 3) { t->clear(); t->root().insert("a", 1); b = t->to_source(*parser); Tree u; u.root().insert("a", 1); if(b != u.to_source(*parser)) x.fail("written document differs after a failed store", what); }
    x.state(mc::mix(mc::hash(good), k * 5 + route + memory * 1000003));
    ty->destroy(o); t.reset(); parser.reset();
    if(Count::twice) x.fail("object destroyed twice", what);
    if(Count::live) x.fail("objects which are never destroyed", what);
}

MC_SCENARIO("exceptions while storing", "47 types of members x 3 formats x 5 routes: an exception from every point between the fields of every resolve method; then 4 ways to go on") { storing(x, false); }
MC_SCENARIO("no memory while storing", "47 types of members x 3 formats x 5 routes: every allocation fails") { storing(x, true); }

int main(int argc, char** argv) { return mc::main("P25", argc, argv); }
