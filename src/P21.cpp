#include "mc.h"
#include "Srl/Srl.h"
#include "Srl/Lib.h"
#include <list>
#include <memory>
using namespace Srl;
using namespace Srl::Lib;

extern "C" void* __asan_region_is_poisoned(void* beg, size_t size);

/* memory of the system which is aligned to 16 and not to more, and ends where it was asked to */
void* operator new[](size_t n)
{
    void* p = nullptr;
    if(n > SIZE_MAX - 64 || posix_memalign(&p, 64, n + 16)) throw std::bad_alloc();
    return (uint8_t*)p + 16;
}
void operator delete[](void* p) noexcept { if(p) free((uint8_t*)p - 16); }
void operator delete[](void* p, size_t) noexcept { if(p) free((uint8_t*)p - 16); }

template<size_t A> struct alignas(A) Al { uint8_t b[A]; };

static uint8_t* get(Heap& h, size_t sz, size_t al)   /* sz is a multiple of al */
{
    switch(al) {
        case 1:  return (uint8_t*)h.get_mem<uint8_t>(sz);
        case 2:  return (uint8_t*)h.get_mem<uint16_t>(sz / 2);
        case 4:  return (uint8_t*)h.get_mem<uint32_t>(sz / 4);
        case 8:  return (uint8_t*)h.get_mem<uint64_t>(sz / 8);
        case 16: return (uint8_t*)h.get_mem<Al<16>>(sz / 16);
        case 32: return (uint8_t*)h.get_mem<Al<32>>(sz / 32);
        default: return (uint8_t*)h.get_mem<Al<64>>(sz / 64);
    }
}

struct Block { uint8_t* p; size_t sz, al; uint8_t tag; };

/* an arena and the blocks which are in use */
struct World {
    mc::X& x; std::unique_ptr<Heap> h; std::vector<Block> live; std::string log; uint8_t tag = 0; bool sparse = false;
    World(mc::X& x_) : x(x_), h(new Heap()) { }

    /* of long blocks the first, the last and a few bytes between */
    static void fill(const Block& b) { if(b.sz < 3000) memset(b.p, b.tag, b.sz); else { memset(b.p, b.tag, 512); memset(b.p + b.sz - 512, b.tag, 512); for(size_t i = 512; i < b.sz; i += 509) b.p[i] = b.tag; } }
    static bool same(const Block& b)
    {
        auto all = [&](uint8_t* p, size_t n) { for(size_t i = 0; i < n; i++) if(p[i] != b.tag) return false; return true; };
        if(b.sz < 3000) return all(b.p, b.sz);
        for(size_t i = 512; i < b.sz; i += 509) if(b.p[i] != b.tag) return false;
        return all(b.p, 512) && all(b.p + b.sz - 512, 512);
    }
    [[noreturn]] void bad(const char* what, const std::string& m = "") { x.fail(what, m + "\n" + log); }

    void verify()
    {
        for(auto& b : live) {
            if(b.sz && __asan_region_is_poisoned(b.p, b.sz)) bad("a block in use is not in live memory", std::to_string(b.sz) + " bytes");
            if(!same(b)) bad("the content of a block in use has changed", std::to_string(b.sz) + " bytes");
        }
    }
    void get_block(size_t sz, size_t al)
    {
        sz = (sz + al - 1) / al * al;
        if(log.size() < 2000) log += "get " + std::to_string(sz) + " aligned " + std::to_string(al) + "\n";
        Block b { get(*h, sz, al), sz, al, ++tag };
        check(b);
        live.push_back(b); fill(b);
        x.step();
    }
    void check(const Block& b)
    {
        if(!b.p && b.sz) bad("no memory");
        if((size_t)b.p % b.al) bad("block is not aligned", std::to_string(b.sz) + " bytes aligned to " + std::to_string(b.al));
        if(b.sz && __asan_region_is_poisoned(b.p, b.sz)) bad("block is not in live memory", std::to_string(b.sz) + " bytes aligned to " + std::to_string(b.al));
        for(auto& o : live) if(b.sz && o.sz && b.p < o.p + o.sz && o.p < b.p + b.sz) bad("block overlaps a block in use", std::to_string(b.sz) + " bytes aligned to " + std::to_string(b.al) + " and " + std::to_string(o.sz));
    }
    void put(size_t i)
    {
        if(log.size() < 2000) log += "put " + std::to_string(live[i].sz) + "\n";
        h->put_mem(live[i].p, live[i].sz);
        live.erase(live.begin() + i);
        x.step();
    }
    void clear()     { log += "clear\n"; h->clear(); live.clear(); x.step(); }
    void move_new()  { log += "move into a new arena\n"; std::unique_ptr<Heap> n(new Heap(std::move(*h))); used_after(); h = std::move(n); x.step(); }
    void move_over() { log += "move into a used arena\n"; std::unique_ptr<Heap> n(new Heap()); memset(n->get_mem<uint8_t>(700), 1, 700); n->put_mem(n->get_mem<uint8_t>(40), 40); *n = std::move(*h); used_after(); h = std::move(n); x.step(); }
    /* an arena which was moved from is empty and usable */
    void used_after()
    {
        Block b { get(*h, 24, 8), 24, 8, 255 };
        check(b); fill(b);
        h->clear();
        memset(h->get_mem<uint8_t>(100), 254, 100);
        verify();
    }
    uint64_t hash() { uint64_t r = live.size(); for(auto& b : live) r = mc::mix(r, b.sz * 100 + b.al + ((size_t)(b.p - live[0].p) << 20)); return r; }
};

struct A { size_t sz, al; };
static const std::vector<A> Quick { { 0, 1 }, { 1, 1 }, { 8, 8 }, { 24, 8 }, { 32, 16 }, { 64, 64 }, { 255, 1 }, { 256, 8 }, { 511, 1 }, { 512, 8 }, { 513, 1 }, { 1008, 16 }, { 1025, 1 }, { 4096, 32 } };
static const std::vector<A> Big   { { 1, 1 }, { 16, 16 }, { 131072, 8 }, { 131073, 1 }, { 262136, 8 }, { 262143, 1 }, { 262144, 16 }, { 262145, 1 }, { 262176, 32 }, { 300000, 8 }, { 524288, 64 }, { 600001, 1 } };
static const std::vector<A> Small { { 1, 1 }, { 3, 1 }, { 2, 2 }, { 4, 4 }, { 8, 8 }, { 16, 16 }, { 32, 32 }, { 200, 1 }, { 200, 8 } };

static void histories(mc::X& x, const std::vector<A>& as, int depth)
{
    World w(x);
    for(int i = 0; i < depth; i++) {
        int n = as.size() + 3 + w.live.size();
        int o = i ? x.choose(n) : x.shard(n);
        if(o < (int)as.size()) w.get_block(as[o].sz, as[o].al);
        else if((o -= as.size()) == 0) w.clear();
        else if(o == 1) w.move_new();
        else if(o == 2) w.move_over();
        else w.put(o - 3);
        w.verify();
        x.state(w.hash());
    }
}
MC_SCENARIO("histories", "every history of 5 (thorough 6) operations: blocks of 14 sizes and alignments from 0 to 4096 bytes, aligned to 1..64, release of any block in use, reset, move into a new and into a used arena") { histories(x, Quick, x.thorough ? 6 : 5); }
MC_SCENARIO("histories of small blocks", "every history of 6 (thorough 7) operations on blocks of 9 sizes and alignments from 1 to 200 bytes") { histories(x, Small, x.thorough ? 7 : 6); }
MC_SCENARIO("histories of large blocks", "every history of 3 (thorough 4) operations on blocks around the largest segment (256 KiB)") { histories(x, Big, x.thorough ? 4 : 3); }

/* one segment is filled to every level before the operations of interest */
MC_SCENARIO("fill level", "first segment filled to every level 0..540 (thorough 2100), then every pair of blocks of 15 sizes (second one: 4, thorough 15) x 7 alignments, with and without the release of the first one, and a reset")
{
    int lvl = x.shard(x.thorough ? 2101 : 541);
    static const std::vector<size_t> szs { 0, 1, 2, 3, 5, 7, 8, 9, 16, 17, 31, 33, 64, 100, 600 };
    static const std::vector<size_t> als { 1, 2, 4, 8, 16, 32, 64 };
    World w(x);
    if(lvl) w.get_block(lvl, 1);
    w.get_block(x.pick(szs), x.pick(als));
    w.verify();
    int how = x.choose(4);
    if(how == 1) w.put(w.live.size() - 1);
    if(how == 2 && lvl) w.put(0);
    if(how == 3) w.clear();
    w.get_block(x.thorough ? x.pick(szs) : szs[(size_t)x.choose(4) * 4 + 1], x.pick(als));
    w.verify();
    x.state(mc::mix(lvl, w.hash()));
    w.get_block(24, 8); w.verify();
}

/* long histories which follow a pattern */
MC_SCENARIO("patterns", "1..600 blocks of a sequence of 3 sizes out of 9 (thorough 14), released in one of 6 patterns, taken again, reset and repeated")
{
    const auto& set = x.thorough ? Quick : Small;
    int k = set.size();
    int s = x.shard(k * k);
    A seq[3] { set[s % k], set[s / k], set[x.choose(k)] };
    size_t n = x.pick(std::vector<size_t> { 1, 2, 7, 30, 200, 600 });
    int rel = x.choose(6);
    World w(x);
    for(int cycle = 0; cycle < 3; cycle++) {
        for(size_t i = 0; i < n; i++) w.get_block(seq[i % 3].sz, seq[i % 3].al);
        w.verify();
        if(rel) for(size_t i = 0, j = 0; i < w.live.size(); j++) {
            bool drop = rel == 1 || (rel == 2 && j % 2) || (rel == 3 && j % 3 == 0) || (rel == 4 && j >= n / 2) || (rel == 5 && j < n / 2);
            if(drop) w.put(rel == 1 ? w.live.size() - 1 : i); else i++;
        }
        w.verify();
        for(size_t i = 0; i < n; i++) w.get_block(seq[(i + cycle) % 3].sz, seq[(i + cycle) % 3].al);
        w.verify();
        x.state(mc::mix(w.hash(), cycle));
        if(cycle < 2) w.clear();
    }
}

/* resets give the memory back to the arena */
MC_SCENARIO("memory use", "50 resets after 1..200 blocks of every pair of 14 sizes: the memory held does not grow with the number of resets; releasing and taking a block 200 times neither")
{
    int s = x.shard(14 * 14), n = x.pick(std::vector<int> { 1, 10, 60, 200 }); bool how = x.flip();
    A a = Quick[s % 14], b = Quick[s / 14];
    size_t base = __sanitizer_get_current_allocated_bytes(), first = 0;
    World w(x); w.sparse = true; w.log.reserve(4000);
    if(!how) {
        for(int c = 0; c < 50; c++) {
            for(int i = 0; i < n; i++) { auto& e = i % 2 ? b : a; auto sz = (e.sz + e.al - 1) / e.al * e.al; get(*w.h, sz, e.al); x.step(); }
            size_t now = __sanitizer_get_current_allocated_bytes() - base;
            if(c == 2) first = now;
            if(c > 2 && now > 2 * first + 20000) w.bad("memory grows with every reset", std::to_string(first) + " bytes after three, " + std::to_string(now) + " after " + std::to_string(c));
            w.h->clear();
        }
    } else {
        if(a.sz < 8) x.skip();
        for(int c = 0; c < 200; c++) {
            auto* p = get(*w.h, a.sz / a.al * a.al, a.al); memset(p, 1, a.sz / a.al * a.al); x.step();
            w.h->put_mem(p, a.sz / a.al * a.al);
        }
        /* every release costs a bookkeeping entry, but not the block */
        size_t now = __sanitizer_get_current_allocated_bytes() - base;
        if(now > 200 * 250 + 40000) w.bad("released blocks are not used again", std::to_string(now));
    }
}

/* objects and containers in an arena */
struct Obj { static long live; std::string s; int n; Obj(const std::string& s_, int n_) : s(s_), n(n_) { live++; } Obj(const Obj& o) : s(o.s), n(o.n) { live++; } ~Obj() { live--; } };
long Obj::live = 0;
MC_SCENARIO("objects and lists", "every history of 7 (thorough 8) operations of two std::list with HeapAllocator on one arena (push at both ends, removal at both ends, clear, splice of unequal) with objects created between")
{
    Obj::live = 0;
    {
        Heap h; std::vector<Obj*> made; std::vector<std::pair<std::string, int>> mm;
        std::list<Obj, HeapAllocator<Obj>> l[2] { std::list<Obj, HeapAllocator<Obj>>(HeapAllocator<Obj>(h)), std::list<Obj, HeapAllocator<Obj>>(HeapAllocator<Obj>(h)) };
        std::list<std::pair<std::string, int>> m[2];
        int d = x.thorough ? 8 : 7;
        for(int i = 0; i < d; i++) {
            int o = i ? x.choose(9) : x.shard(9), k = o & 1;
            std::string s(i % 3 ? 3 : 40, 'a' + i);
            switch(o) {
                case 0: case 1: l[k].push_back(Obj(s, i)); m[k].emplace_back(s, i); break;
                case 2: case 3: l[k].push_front(Obj(s, -i)); m[k].emplace_front(s, -i); break;
                case 4: case 5: if(m[k].size()) { l[k].pop_front(); m[k].pop_front(); } break;
                case 6: if(m[0].size()) { l[0].pop_back(); m[0].pop_back(); } break;
                case 7: l[1].clear(); m[1].clear(); break;
                case 8: made.push_back(h.create<Obj>(s, i)); mm.emplace_back(s, i); break;
            }
            x.step();
            for(int j = 0; j < 2; j++) {
                if(l[j].size() != m[j].size()) x.fail("size of a list in an arena");
                auto it = m[j].begin(); for(auto& e : l[j]) { if(e.s != it->first || e.n != it->second) x.fail("element of a list in an arena"); ++it; }
            }
            for(size_t j = 0; j < made.size(); j++) if(made[j]->s != mm[j].first || made[j]->n != mm[j].second || (size_t)made[j] % alignof(Obj)) x.fail("object in an arena");
            if(Obj::live != (long)(m[0].size() + m[1].size() + made.size())) x.fail("number of existing objects");
        }
        for(auto* o : made) o->~Obj();
    }
    if(Obj::live) x.fail("objects which were not destroyed");
}

/* of more than 4 GiB */
MC_SCENARIO_OPT("more than 4 GiB", "one block of 4 GiB - 1, 4 GiB, 4 GiB + 1, + 600 bytes, after and before small blocks", .thorough().limit(120))
{
    static const std::vector<size_t> szs { (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, (1ull << 32) + 600 };
    if(x.shard(1)) return;      /* one at a time */
    size_t sz = x.pick(szs); bool before = x.flip(), put = x.flip();
    World w(x);
    if(before) w.get_block(100, 1);
    Block b { w.h->get_mem<uint8_t>(sz), sz, 1, 77 };
    w.check(b); b.p[0] = b.p[sz - 1] = b.p[sz / 2] = 77;
    auto old = w.live;
    for(int i = 0; i < 4; i++) { w.get_block(300, 8); auto& n = w.live.back(); if(n.p < b.p + sz && b.p < n.p + n.sz) w.bad("block overlaps a block in use"); w.verify(); }
    if(b.p[0] != 77 || b.p[sz - 1] != 77 || b.p[sz / 2] != 77) w.bad("the content of a block in use has changed");
    if(put) { w.h->put_mem(b.p, sz); for(int i = 0; i < 4; i++) w.get_block(5000, 8); w.verify(); }
    w.clear();
    for(int i = 0; i < 4; i++) w.get_block(5000, 8);
    w.verify();
}

int main(int argc, char** argv) { return mc::main("P21", argc, argv); }
