#include "gen.h"
#include "mc.h"
#include "Srl/Srl.h"
#include "Srl/Lib.h"
#include <memory>
#include <unordered_map>
using namespace Srl;
using namespace Srl::Lib;

/* objects which know whether they exist */
struct Life {
    static long live; static const char* bad;
    uint64_t magic = Alive;
    static const uint64_t Alive = 0x1122334455667788ull, Dead = 0xDDDDDDDDDDDDDDDDull;
    Life() { live++; }
    Life(const Life& o) { o.ok("copied"); live++; }
    Life(Life&& o) { o.ok("moved"); live++; }
    Life& operator=(const Life& o) { ok("assigned"); o.ok("assigned from"); return *this; }
    ~Life() { if(magic != Alive) bad = "destroyed although it does not exist"; magic = Dead; live--; }
    void ok(const char* w) const { if(magic != Alive) bad = w; }
};
long Life::live = 0; const char* Life::bad = nullptr;

struct Key : Life {
    uint64_t k; std::unique_ptr<int> own;     /* owns memory, so that a lost key is a leak */
    Key(uint64_t k_) : k(k_), own(new int(1)) { }
    Key(const Key& o) : Life(o), k(o.k), own(new int(1)) { }
    Key(Key&& o) : Life(std::move(o)), k(o.k), own(std::move(o.own)) { }
    bool operator==(const Key& o) const { ok("compared"); return k == o.k; }
};
struct Val : Life {
    int v; std::unique_ptr<int> own;
    explicit Val(int v_ = 0) : v(v_), own(new int(v_)) { }
    Val(const Val& o) : Life(o), v(o.v), own(new int(o.v)) { }
    Val(Val&& o) : Life(std::move(o)), v(o.v), own(std::move(o.own)) { }
    Val& operator=(Val&& o) { Life::operator=(o); v = o.v; own = std::move(o.own); return *this; }
};

static int hash_mode = 0;
static uint64_t hash_of(uint64_t k)
{
    switch(hash_mode) {
        case 0: return k;                     /* as for integers */
        case 1: return 7;                     /* everything collides */
        case 2: return k << 32;               /* differs in the upper half only */
        case 3: return k % 3;
        default: return k * 0x9E3779B97F4A7C15ull;
    }
}
struct H { uint64_t operator()(const Key& k) const { return hash_of(k.k); } };
typedef HTable<Key, Val, H> Table;

struct Model { std::map<uint64_t, std::pair<int, Val*>> m; };

struct World {
    mc::X& x;
    std::unique_ptr<Table> t; std::map<uint64_t, std::pair<int, Val*>> m;
    std::unique_ptr<Table> u; std::map<uint64_t, std::pair<int, Val*>> um;
    std::string log; size_t buckets; double load; int next = 100;
    std::vector<uint64_t> keys;
    World(mc::X& x_, size_t b, double l) : x(x_), t(new Table(b, l)), u(new Table(b + 1, l)), buckets(b), load(l) { Life::live = 0; Life::bad = nullptr; }

    void compare(Table& t, std::map<uint64_t, std::pair<int, Val*>>& m, const char* which, bool all)
    {
        auto bad = [&](const std::string& s) { x.fail("table differs from a map", std::string(which) + ": " + s + "\n" + log); };
        if(t.num_entries() != m.size()) bad("number of entries is " + std::to_string(t.num_entries()) + " instead of " + std::to_string(m.size()));
        for(auto k : keys) {
            auto* p = t.get(Key(k)); auto it = m.find(k);
            if(!p != (it == m.end())) bad("key " + std::to_string(k) + (p ? " found" : " lost"));
            if(p && (p->ok("looked up"), p->v != it->second.first || *p->own != p->v)) bad("key " + std::to_string(k) + " has the wrong value");
            if(p && p != it->second.second) bad("entry of key " + std::to_string(k) + " has moved");
        }
        for(auto& e : m) if(e.second.second->magic != Life::Alive || e.second.second->v != e.second.first) bad("entry of key " + std::to_string(e.first) + " is no longer valid");
        if(!all) return;
        std::map<uint64_t, int> seen;
        t.foreach([&](const Key& k, Val& v) { k.ok("enumerated"); v.ok("enumerated"); if(!seen.emplace(k.k, v.v).second) bad("foreach gives a key twice"); });
        auto same = [&](const char* how) { if(seen.size() != m.size()) bad(std::string(how) + " gives " + std::to_string(seen.size()) + " entries"); for(auto& s : seen) if(!m.count(s.first) || m[s.first].first != s.second) bad(std::string(how) + " gives wrong entries"); };
        same("foreach");
        seen.clear();
        for(auto p : t) { p.first.ok("iterated"); if(!seen.emplace(p.first.k, p.second.v).second) bad("iteration gives a key twice"); }
        same("iteration");
        for(size_t stop = 0; stop <= m.size() && stop < 3; stop++) {
            size_t n = 0;
            t.foreach_break([&](const Key&, Val&) { return n++ == stop; });
            if(n != std::min(stop + 1, m.size())) bad("foreach_break stops after " + std::to_string(n));
        }
    }
    void verify(bool all = true)
    {
        x.step();
        compare(*t, m, "table", all);
        compare(*u, um, "other table", false);
        if(Life::bad) x.fail(std::string("entry ") + Life::bad, log);
        if(Life::live != (long)(2 * (m.size() + um.size()))) x.fail("number of existing objects", std::to_string(Life::live) + " instead of " + std::to_string(2 * (m.size() + um.size())) + "\n" + log);
        uint64_t h = buckets; for(auto& e : m) h = mc::mix(mc::mix(h, e.first), e.second.first); for(auto& e : um) h = mc::mix(h, e.first);
        x.state(mc::mix(h, hash_mode));
    }
    void insert(uint64_t k)
    {
        int v = next++;
        auto r = t->insert(Key(k), v);
        auto it = m.find(k);
        if(r.first != (it != m.end())) x.fail("insert reports the wrong thing", log);
        if(it == m.end()) m[k] = { v, r.second };
        else if(r.second != it->second.second) x.fail("insert gives another entry", log);
    }
    void upsert(uint64_t k)
    {
        int v = next++;
        auto r = t->upsert(Key(k), v);
        auto it = m.find(k);
        if(r.first != (it != m.end())) x.fail("upsert reports the wrong thing", log);
        if(it != m.end() && r.second != it->second.second) x.fail("upsert moves the entry", log);
        m[k] = { v, r.second };
    }
    int ops() const { return (int)keys.size() * 4 + 8; }
    void op(int o)
    {
        int nk = keys.size();
        auto say = [&](const std::string& s) { log += s + "\n"; x.note("%s", s.c_str()); };
        if(o < nk * 4) {
            uint64_t k = keys[o % nk]; auto ks = std::to_string(k);
            switch(o / nk) {
                case 0: say("insert " + ks); insert(k); break;
                case 1: say("remove " + ks); t->remove(Key(k)); m.erase(k); break;
                case 2: say("upsert " + ks); upsert(k); break;
                case 3: { say("extract " + ks); auto r = t->extract(Key(k)); auto it = m.find(k); if(!!r != (it != m.end()) || (r && (r->ok("extracted"), r->v != it->second.first || *r->own != r->v))) x.fail("extract", log); m.erase(k); break; }
            }
        } else switch(o - nk * 4) {
            case 0: say("clear"); t->clear(); m.clear(); break;
            case 1: { say("remove_if odd"); std::set<uint64_t> seen; t->remove_if([&](const Key& k, Val& v) { seen.insert(k.k); return v.v % 2; }); if(seen.size() != m.size()) x.fail("remove_if leaves out entries", log); for(auto i = m.begin(); i != m.end();) i = i->second.first % 2 ? m.erase(i) : std::next(i); break; }
            case 2: say("remove_if all"); t->remove_if([](const Key&, Val&) { return true; }); m.clear(); break;
            case 3: say("remove_if none"); t->remove_if([](const Key&, Val&) { return false; }); break;
            case 4: { say("moved to a new table and back"); Table n(std::move(*t)); if(t->num_entries() || t->get(Key(keys[0])) || t->begin() != t->end()) x.fail("table which was moved from has entries", log); *t = std::move(n); break; }
            case 5: { say("exchanged with the other table"); Table n(std::move(*t)); *t = std::move(*u); *u = std::move(n); std::swap(m, um); break; }
            case 6: { say("replaces the other table, itself new"); *u = std::move(*t); um = m; m.clear(); insert(keys.back()); break; }
            case 7: { say("first of the chain removed while all are inserted again"); for(auto k : keys) insert(k); auto b = t->begin(); auto k = (*b).first.k; t->remove(Key(k)); m.erase(k); break; }
        }
        verify();
    }
};

MC_SCENARIO("histories", "all histories of up to 4 (thorough 5) of 24 operations over 4 keys on two tables of 1, 2, 3 buckets, 5 hash functions from identity to constant, load factors 0.5 and 1")
{
    static const size_t bs[] { 1, 2, 3 };
    int s = x.shard(3 * 5 * 2 * 24);
    hash_mode = s / 3 % 5;
    World w(x, bs[s % 3], s / 15 % 2 ? 0.5 : 1.0);
    w.keys = { 0, 6, 12, 1 };
    if(w.ops() != 24) x.fail("harness");
    w.op(s / 30);
    for(int i = 1; i < (x.thorough ? 5 : 3); i++) w.op(x.choose(24));
}

MC_SCENARIO("histories of distinct operations", "all histories of 5 (thorough 6) of 9 operations on 2 keys which share a bucket and a hash, or differ in the upper half of the hash")
{
    static const int alphabet[] { 0, 1, 2, 3, 4, 8, 9, 12, 13 };   /* insert, remove, upsert k0.. clear, remove_if, move */
    int s = x.shard(2 * 9);
    hash_mode = s % 2 ? 1 : 2;
    World w(x, 1, 1);
    w.keys = { 5, 9 };
    for(int i = 0; i < (x.thorough ? 6 : 5); i++) w.op(alphabet[i == 0 ? s / 2 : x.choose(9)]);
}

MC_SCENARIO("growth", "tables filled with n = 0..70 and boundary counts up to 1030 (thorough 20000) entries, initial buckets {0, 1, 2, 7, 64}, load factors {0, 0.1, 0.5, 1, 8}, 5 hash functions; then every operation, and every 2 operations (thorough: for every such table; quick: near the sizes where tables grow), on keys present, absent, first and last, and removal of all in 4 orders")
{
    static std::vector<size_t> ns; static const size_t bs[] { 0, 1, 2, 7, 64 }; static const double ls[] { 0, 0.1, 0.5, 1, 8 };
    if(ns.empty()) { for(size_t i = 0; i <= 70; i++) ns.push_back(i); for(size_t i : { 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1030 }) ns.push_back(i); if(x.thorough) { ns.push_back(5000); ns.push_back(20000); } }
    int s = x.shard(ns.size() * 5);
    size_t n = ns[s / 5];
    size_t b = bs[s % 5]; double l = ls[x.choose(5)];
    hash_mode = x.choose(5);
    if(hash_mode == 1 && n > 600) x.skip();
    World w(x, b, l);
    w.log = std::to_string(n) + " entries, " + std::to_string(b) + " buckets, load " + std::to_string(l) + ", hash " + std::to_string(hash_mode) + "\n";
    uint64_t mul = x.flip() ? 64 : 1;
    for(size_t i = 0; i < n; i++) { w.keys = { i * mul, 0, (i + 1) * mul }; w.insert(i * mul); if(i % 16 == 0) w.verify(false); }
    w.keys = { 0, n ? (n - 1) * mul : 3, n * mul, n / 2 * mul };
    w.verify();
    int order = x.choose(4);
    if(n <= 70 && order == 0) {
        w.op(x.choose(24));
        if(x.thorough || (mul == 1 && l == 1 && (n % 10 <= 1 || n % 10 == 9))) w.op(x.choose(24));
    }
    auto m = w.m; std::vector<uint64_t> ks; for(auto& e : m) ks.push_back(e.first);
    if(order == 1) std::reverse(ks.begin(), ks.end());
    if(order == 2) std::stable_partition(ks.begin(), ks.end(), [](uint64_t k) { return k % 3 == 0; });
    if(order == 3) for(size_t i = 0; i + 1 < ks.size(); i += 2) std::swap(ks[i], ks[ks.size() - 1 - i]);
    for(size_t i = 0; i < ks.size(); i++) {
        w.keys[3] = ks[i];
        w.t->remove(Key(ks[i])); w.m.erase(ks[i]);
        if(i % (ks.size() / 3 + 1) == 0 || ks.size() < 12) w.verify();
        if(i % 5 == 4 && i < ks.size() / 2) w.insert(ks[i - 4]);     /* reuse of removed entries */
    }
    w.verify();
    for(size_t i = 0; i < n / 2 + 2; i++) w.insert(i * 3);
    w.verify();
}

/* destruction */
MC_SCENARIO("end of life", "tables of n = 0..40 entries destroyed, cleared, moved from, replaced, after k removals: each entry destroyed once")
{
    int n = x.shard(41), how = x.choose(6), k = x.choose(n + 1);
    hash_mode = x.choose(5);
    Life::live = 0; Life::bad = nullptr;
    {
        Table t(4);
        for(int i = 0; i < n; i++) t.insert(Key(i), i);
        for(int i = 0; i < k; i++) t.remove(Key(i * 7 % n));
        x.step();
        if(Life::live != 2 * (long)t.num_entries()) x.fail("number of existing objects after removal");
        switch(how) {
            case 0: break;
            case 1: t.clear(); if(Life::live) x.fail("objects exist after clear"); break;
            case 2: { Table u(std::move(t)); if(Life::live != 2 * (long)u.num_entries()) x.fail("number of existing objects after move"); break; }
            case 3: { Table u; u.insert(Key(1), 1); u.insert(Key(2), 1); u = std::move(t); if(Life::live != 2 * (long)u.num_entries()) x.fail("number of existing objects after move"); u.insert(Key(100), 1); t.insert(Key(5), 5); if(t.num_entries() != 1 || !t.get(Key(5))) x.fail("table which was moved from"); break; }
            case 4: t.clear(); for(int i = 0; i < n; i++) t.insert(Key(i + 3), i); if((int)t.num_entries() != n) x.fail("entries after clear"); t.clear(); t.clear(); if(n && t.get(Key(3))) x.fail("entry after clear"); break;
            case 5: t.remove_if([](const Key& k, Val&) { return k.k % 2; }); for(int i = 0; i < n; i++) t.upsert(Key(i), -i); for(int i = 0; i < n; i++) if(!t.get(Key(i)) || t.get(Key(i))->v != -i) x.fail("upsert"); break;
        }
        x.state(mc::mix(mc::mix(n, how), k));
    }
    if(Life::live || Life::bad) x.fail("entries are not destroyed exactly once", std::to_string(Life::live) + (Life::bad ? Life::bad : ""));
}

/* the key types the library itself uses */
template<class K> static void typed(mc::X& x, const std::vector<K>& ks, int n)
{
    HTable<K, int> t(4);
    std::vector<int> ref(ks.size(), -1);
    for(int i = 0; i < n; i++) {
        int o = i == 0 && n ? x.choose((int)ks.size() * 2) : x.choose((int)ks.size() * 2);
        size_t k = o / 2;
        if(o % 2) { t.remove(ks[k]); ref[k] = -1; }
        else { auto r = t.insert(ks[k], i); if(r.first != (ref[k] >= 0)) x.fail("insert"); if(!r.first) ref[k] = i; }
        x.step();
        size_t cnt = 0;
        for(size_t j = 0; j < ks.size(); j++) { auto* p = t.get(ks[j]); cnt += ref[j] >= 0; if((p ? *p : -1) != ref[j]) x.fail("wrong entry of a key", std::to_string(j)); }
        if(t.num_entries() != cnt) x.fail("number of entries");
    }
}
MC_SCENARIO("key types", "all histories of 4 (thorough 5) insertions and removals over 5 keys of type std::string, String, int64_t, uint64_t, const void*, MemBlock, bool, char")
{
    int s = x.shard(8), n = x.thorough ? 5 : 4;
    switch(s) {
        case 0: typed<std::string>(x, { "", "a", std::string(8, 'x'), std::string(9, 'x'), std::string("a\0", 2) }, n); break;
        case 1: { std::string a = "", b = "a", c(300, 'x'), d(299, 'x'), e = "b"; typed<String>(x, { String(a), String(b), String(c), String(d), String(e) }, n); break; }
        case 2: typed<int64_t>(x, { 0, -1, INT64_MIN, INT64_MAX, 4 }, n); break;
        case 3: typed<uint64_t>(x, { 0, UINT64_MAX, 1ull << 32, 4, 1 }, n); break;
        case 4: { static int v[5]; typed<const void*>(x, { nullptr, v, v + 1, v + 2, &s }, n); break; }
        case 5: { static const uint8_t d[] = "abcabc"; typed<MemBlock>(x, { MemBlock(d, 0), MemBlock(d, 1), MemBlock(d, 3), MemBlock(d, 6), MemBlock(d + 1, 2) }, n); break; }
        case 6: typed<bool>(x, { false, true }, n + 2); break;
        case 7: typed<char>(x, { 'a', 'b', 0, (char)-1, 'z' }, n); break;
    }
    x.state(mc::mix(s, x.choices.size()));
}

MC_SCENARIO("texts alike", "all histories of 4 (thorough 5) insertions and removals over 4 keys of which two share a hash or nearly everything (19 pairs), of type std::string, String and MemBlock, 1 and 4 buckets")
{
    int s = x.shard(gen::twins().size() * 3), n = x.thorough ? 5 : 4;
    auto& t = gen::twins()[s / 3];
    static const std::string other = "other", more = "B8YhU0HUpyF";
    const std::string* k[] { &t[0], &t[1], &other, &more };
    std::vector<std::string> a; std::vector<String> b; std::vector<MemBlock> c;
    for(auto* p : k) { a.push_back(*p); b.push_back(String(*p)); c.push_back(MemBlock((const uint8_t*)p->data(), p->size())); }
    if(s % 3 == 0) typed(x, a, n); else if(s % 3 == 1) typed(x, b, n); else typed(x, c, n);
    x.state(mc::mix(s, x.choices.size()));
}

int main(int argc, char** argv) { return mc::main("P20", argc, argv); }
