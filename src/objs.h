/* Sample values and equality of C++ types, composed like the types themselves */
#ifndef OBJS_H
#define OBJS_H
#include "gen.h"
#include "stream.h"
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <tuple>
#include <unordered_map>
#include <unordered_set>

namespace objs {

    /* n: number of samples, set(t, k): make t the sample k, eq */
    template<class T, class = void> struct S;

    template<class T> bool same(const T& a, const T& b) { return S<T>::eq(a, b); }
    template<class T> T make(int k) { T t { }; S<T>::set(t, k % S<T>::n); return t; }

    template<class T, int N_> struct Simple {
        static const int n = N_;
        static bool eq(const T& a, const T& b) { return a == b; }
    };
    #define OBJS_VALUES(T, ...) template<> struct S<T> : Simple<T, sizeof((const T[]) __VA_ARGS__) / sizeof(T)> { \
        static void set(T& t, int k) { static const T v[] __VA_ARGS__; t = v[k]; } };
    #define OBJS_COMMA ,

    template<> struct S<bool> : Simple<bool, 2> { static void set(bool& t, int k) { t = k; } };
    template<class T> struct S<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value && !Srl::Lib::is_char<T>::value>::type> : Simple<T, 5> {
        static void set(T& t, int k) { t = k == 0 ? 0 : k == 1 ? std::numeric_limits<T>::max() : k == 2 ? std::numeric_limits<T>::min() : k == 3 ? T(-1) : T(42); } };
    template<class T> struct S<T, typename std::enable_if<std::is_floating_point<T>::value>::type> : Simple<T, 6> {
        static void set(T& t, int k) { t = k == 0 ? 0 : k == 1 ? T(0.1f) : k == 2 ? T(std::numeric_limits<float>::max()) : k == 3 ? T(-1.5e-9f) : k == 4 ? T(-3) : T(16777217); if(std::is_same<T, long double>::value) t = (double)t; } };
    template<class T> struct S<T, typename std::enable_if<Srl::Lib::is_char<T>::value>::type> : Simple<T, 4> {
        static void set(T& t, int k) { t = k == 0 ? 'a' : k == 1 ? '"' : k == 2 ? '\n' : sizeof(T) == 1 ? 0x7f : sizeof(T) == 2 ? 0x20ac : 0x1f600; } };
    template<class C> struct S<std::basic_string<C>> : Simple<std::basic_string<C>, 5> {
        static void set(std::basic_string<C>& t, int k)
        {
            t.clear();
            if(k == 1) t = { 't', 'e', 'x', 't' };
            if(k == 2) for(int i = 0; i < 70; i++) t += C('a' + i % 26);
            if(k == 3) { t = { '"', '\\', '\n', 0, 'x' }; }
            if(k == 4) { if(sizeof(C) == 1) { for(char c : std::string("\xc3\xa9\xf0\x9f\x98\x80")) t += C(c); } else if(sizeof(C) == 2) { t += C(0xe9); t += C(0xd83d); t += C(0xde00); } else { t += C(0xe9); t += C(0x1f600); } }
        } };

    template<class C> struct Seq {
        typedef typename C::value_type E;
        static const int n = 4;
        static void set(C& c, int k)
        {
            c = C();
            int len = k == 3 ? 9 : k;
            for(int i = 0; i < len; i++) { E e { }; S<E>::set(e, (i + k) % S<E>::n); c.insert(c.end(), std::move(e)); }
        }
        static bool eq(const C& a, const C& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](const E& x, const E& y) { return same(x, y); }); }
    };
    template<class T> struct S<std::vector<T>> : Seq<std::vector<T>> { };
    template<class T> struct S<std::list<T>> : Seq<std::list<T>> { };
    template<class T> struct S<std::deque<T>> : Seq<std::deque<T>> { };
    template<class T> struct S<std::set<T>> : Seq<std::set<T>> { };
    template<class T> struct S<std::multiset<T>> : Seq<std::multiset<T>> { };
    template<class T> struct S<std::unordered_set<T>> : Seq<std::unordered_set<T>> { static bool eq(const std::unordered_set<T>& a, const std::unordered_set<T>& b) { return a == b; } };
    template<class M> struct Mp {
        typedef typename M::key_type K; typedef typename M::mapped_type V;
        static const int n = 4;
        static void set(M& m, int k)
        {
            m.clear();
            for(int i = 0; i < (k == 3 ? S<K>::n : k); i++) m.emplace(make<K>(i + k), make<V>(i + 2 * k));
        }
        static bool eq(const M& a, const M& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](auto& x, auto& y) { return same(x.first, y.first) && same(x.second, y.second); }); }
    };
    template<class K, class V> struct S<std::map<K, V>> : Mp<std::map<K, V>> { };
    template<class K, class V> struct S<std::multimap<K, V>> : Mp<std::multimap<K, V>> { };
    template<class K, class V> struct S<std::unordered_map<K, V>> : Mp<std::unordered_map<K, V>> {
        typedef std::unordered_map<K, V> M;
        static bool eq(const M& a, const M& b) { if(a.size() != b.size()) return false; for(auto& e : a) { auto it = b.find(e.first); if(it == b.end() || !same(e.second, it->second)) return false; } return true; }
    };
    template<class V> struct S<Srl::Lib::HTable<std::string, V>> {
        typedef Srl::Lib::HTable<std::string, V> M;
        static const int n = 3;
        static void set(M& m, int k) { m.clear(); for(int i = 0; i < 2 * k; i++) m.insert(make<std::string>(i), make<V>(i + k)); }
        static bool eq(const M& a_, const M& b_)
        {
            auto& a = const_cast<M&>(a_); auto& b = const_cast<M&>(b_);
            if(a.num_entries() != b.num_entries()) return false;
            bool ok = true;
            a.foreach([&](const std::string& k, const V& v) { auto* w = b.get(k); if(!w || !same(v, *w)) ok = false; });
            return ok;
        }
    };
    template<class A, class B> struct S<std::pair<A, B>> {
        static const int n = 3;
        static void set(std::pair<A, B>& p, int k) { S<A>::set(p.first, k % S<A>::n); S<B>::set(p.second, (2 * k + 1) % S<B>::n); }
        static bool eq(const std::pair<A, B>& a, const std::pair<A, B>& b) { return same(a.first, b.first) && same(a.second, b.second); }
    };
    template<class... T> struct S<std::tuple<T...>> {
        static const int n = 3;
        template<size_t... I> static void put(std::tuple<T...>& t, int k, std::index_sequence<I...>) { (S<T>::set(std::get<I>(t), (k + (int)I) % S<T>::n), ...); }
        template<size_t... I> static bool cmp(const std::tuple<T...>& a, const std::tuple<T...>& b, std::index_sequence<I...>) { return (same(std::get<I>(a), std::get<I>(b)) && ...); }
        static void set(std::tuple<T...>& t, int k) { put(t, k, std::index_sequence_for<T...>()); }
        static bool eq(const std::tuple<T...>& a, const std::tuple<T...>& b) { return cmp(a, b, std::index_sequence_for<T...>()); }
    };
    template<class T, size_t N> struct S<T[N], typename std::enable_if<!Srl::Lib::is_char<T>::value>::type> {
        static const int n = 3;
        static void set(T (&a)[N], int k) { for(size_t i = 0; i < N; i++) S<T>::set(a[i], ((int)i + k) % S<T>::n); }
        static bool eq(const T (&a)[N], const T (&b)[N]) { for(size_t i = 0; i < N; i++) if(!S<T>::eq(a[i], b[i])) return false; return true; }
    };
    template<class T, size_t N> struct S<T[N], typename std::enable_if<Srl::Lib::is_char<T>::value>::type> {
        static const int n = N + 1;
        static void set(T (&a)[N], int k) { memset(a, 0, sizeof a); for(size_t i = 0; (int)i < k && i + 1 < N; i++) a[i] = T(k % 2 ? 'b' + i : '"'); if(k == (int)N && sizeof(T) > 1) a[0] = 0x20ac; }
        static bool eq(const T (&a)[N], const T (&b)[N]) { for(size_t i = 0; i < N; i++) { if(a[i] != b[i]) return false; if(!a[i]) return true; } return true; }
    };
    template<class T> struct S<std::unique_ptr<T>> {
        static const int n = S<T>::n < 4 ? S<T>::n + 1 : 4;
        static void set(std::unique_ptr<T>& p, int k) { p.reset(); if(k) { p = std::make_unique<T>(); S<T>::set(*p, k - 1); } }
        static bool eq(const std::unique_ptr<T>& a, const std::unique_ptr<T>& b) { return !a == !b && (!a || same(*a, *b)); }
    };
    template<class T> struct S<std::shared_ptr<T>> {
        static const int n = S<T>::n < 4 ? S<T>::n + 1 : 4;
        static void set(std::shared_ptr<T>& p, int k) { p.reset(); if(k) { p = std::make_shared<T>(); S<T>::set(*p, k - 1); } }
        static bool eq(const std::shared_ptr<T>& a, const std::shared_ptr<T>& b) { return !a == !b && (!a || same(*a, *b)); }
    };
    /* pointers inside of containers: never null (objects are not kept apart from missing ones there) */
    template<class P> struct NonNull {
        static const int n = S<P>::n - 1;
        static void set(P& p, int k) { S<P>::set(p, k + 1); }
        static bool eq(const P& a, const P& b) { return S<P>::eq(a, b); }
    };
    template<class T> struct S<std::vector<std::unique_ptr<T>>> {
        typedef std::vector<std::unique_ptr<T>> C;
        static const int n = 4;
        static void set(C& c, int k) { c.clear(); for(int i = 0; i < k; i++) { c.emplace_back(); NonNull<std::unique_ptr<T>>::set(c.back(), (i + k) % NonNull<std::unique_ptr<T>>::n); } }
        static bool eq(const C& a, const C& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](auto& x, auto& y) { return same(x, y); }); }
    };
    template<class T> struct S<std::list<std::unique_ptr<T>>> {
        typedef std::list<std::unique_ptr<T>> C;
        static const int n = 4;
        static void set(C& c, int k) { c.clear(); for(int i = 0; i < k; i++) { c.emplace_back(); NonNull<std::unique_ptr<T>>::set(c.back(), (i + k) % NonNull<std::unique_ptr<T>>::n); } }
        static bool eq(const C& a, const C& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](auto& x, auto& y) { return same(x, y); }); }
    };

    /* classes */
    struct Point { int x = 0, y = 0; void srl_resolve(Srl::Context& c) { c("x", x)("y", y); } };
    template<> struct S<Point> { static const int n = 3; static void set(Point& p, int k) { p.x = k * 1000; p.y = -k; } static bool eq(const Point& a, const Point& b) { return a.x == b.x && a.y == b.y; } };

    /* store and restore apart, unnamed fields, private constructor */
    class Split {
        template<class T, class... R> friend struct Srl::Ctor;
        friend struct S<Split>;
        std::string a; std::vector<int> v; int n = 0;
    public:
        Split() { }
        void srl_store(Srl::StoreContext& c) const { c(n)(v)(a); }
        void srl_restore(Srl::RestoreContext& c) { c(n)(v)(a); }
    };
    template<> struct S<Split> { static const int n = 4; static void set(Split& p, int k) { S<std::string>::set(p.a, k); S<std::vector<int>>::set(p.v, k); p.n = k; } static bool eq(const Split& a, const Split& b) { return a.a == b.a && a.v == b.v && a.n == b.n; } };

    /* no default constructor for others */
    struct Outer { Point p; std::vector<Point> ps; Split s; std::unique_ptr<Point> u; void srl_resolve(Srl::Context& c) { c("point", p)("points", ps)("split", s)("u", u); } };
    template<> struct S<Outer> {
        static const int n = 3;
        static void set(Outer& o, int k) { S<Point>::set(o.p, k); S<std::vector<Point>>::set(o.ps, k); S<Split>::set(o.s, k); S<std::unique_ptr<Point>>::set(o.u, k); }
        static bool eq(const Outer& a, const Outer& b) { return same(a.p, b.p) && same(a.ps, b.ps) && same(a.s, b.s) && same(a.u, b.u); }
    };
    struct Empty { void srl_resolve(Srl::Context&) { } };
    template<> struct S<Empty> { static const int n = 1; static void set(Empty&, int) { } static bool eq(const Empty&, const Empty&) { return true; } };

    /* only constructible through a specialised Ctor */
    struct Made { int v; explicit Made(int v_) : v(v_) { } void srl_resolve(Srl::Context& c) { c("v", v); } };
    template<> struct S<Made> { static const int n = 2; static void set(Made& m, int k) { m.v = k + 5; } static bool eq(const Made& a, const Made& b) { return a.v == b.v; } };

    template<class T> struct Blob { std::vector<T> v; void srl_resolve(Srl::Context& c) { c("blob", Srl::VecWrap<T>(v)); } };
    template<class T> struct S<Blob<T>> { static const int n = 4; static void set(Blob<T>& b, int k) { b.v.clear(); for(int i = 0; i < (k == 3 ? 100 : k); i++) b.v.push_back(T(i * 77 + k)); } static bool eq(const Blob<T>& a, const Blob<T>& b) { return a.v == b.v; } };
    struct Raw {
        std::string d;
        void srl_store(Srl::StoreContext& c) const { c("raw", Srl::BitWrap((const uint8_t*)d.data(), d.size())); }
        void srl_restore(Srl::RestoreContext& c) { c("raw", Srl::BitWrap([this](size_t n) { d.resize(n); return (uint8_t*)d.data(); })); }
    };
    template<> struct S<Raw> { static const int n = 4; static void set(Raw& r, int k) { r.d = std::string(k == 3 ? 70 : k, (char)(200 + k)); } static bool eq(const Raw& a, const Raw& b) { return a.d == b.d; } };

    inline Srl::Parser* new_parser(int f)
    {
        if(f == doc::JsonC) return new Srl::PJson(); if(f == doc::JsonS) return new Srl::PJson(false);
        if(f == doc::Msg) return new Srl::PMsgPack(); return new Srl::PSrl();
    }
}
namespace Srl { template<> struct Ctor<objs::Made> { static objs::Made Create() { return objs::Made(0); } static std::unique_ptr<objs::Made> Create_New() { return std::make_unique<objs::Made>(0); } }; }
#endif

