/* P01, documents beyond 4 GiB: built without sanitizers (the address sanitizer's limits are lower), thorough tier only */
#include "mc.h"
#include "Srl/Srl.h"
#include "Srl/Lib.h"
#include <memory>
using namespace Srl;

static const size_t Over = (size_t(1) << 32) + 1000;

template<class T> static void fill(T& s, size_t n) { s.resize(n); for(size_t i = 0; i < n; i += 4093) s[i] = 'a' + i % 23; s[n - 1] = 'z'; for(size_t i = 0; i < n; i++) if(!s[i]) s[i] = 'x'; }
static bool good(const uint8_t* p, size_t n, size_t want) { if(n != want || p[n - 1] != 'z') return false; for(size_t i = 0; i + 1 < n; i++) if(p[i] != (i % 4093 == 0 ? 'a' + i % 23 : 'x')) return false; return true; }
template<class T> static bool good(const T& t, size_t want) { return good((const uint8_t*)t.data(), t.size(), want); }

/* a stream of a text in JSON which is never in memory */
struct Long : std::streambuf {
    std::string head = "{\"a\":1,\"b\":\"", tail = "\",\"c\":\"end\"}", chunk; size_t pos = 0, n;
    Long(size_t n_) : n(n_) { }
    char at(size_t i) { if(i < head.size()) return head[i]; i -= head.size(); if(i < n) return i == n - 1 ? 'z' : i % 4093 == 0 ? 'a' + i % 23 : 'x'; return tail[i - n]; }
    int_type underflow() override
    {
        size_t total = head.size() + n + tail.size(), m = std::min<size_t>(1 << 16, total - pos);
        if(!m) return traits_type::eof();
        chunk.resize(m); for(size_t i = 0; i < m; i++) chunk[i] = at(pos + i);
        pos += m; setg(&chunk[0], &chunk[0], &chunk[0] + m);
        return (unsigned char)chunk[0];
    }
};

struct Binary {
    std::vector<uint8_t> v;
    void resize(size_t n) { v.resize(n); }
    uint8_t& operator[](size_t i) { return v[i]; }
    uint8_t* data() const { return (uint8_t*)v.data(); } size_t size() const { return v.size(); }
    void srl_resolve(Context& c) { c("blob", VecWrap<uint8_t>(v)); }
};

template<class T> static void round_trip(mc::X& x, Parser&& p, size_t n, bool may_refuse)
{
    std::vector<uint8_t> b;
    {
        T s; fill(s, n);
        try { Tree().pack(b, p, "a", 1, "b", s, "c", std::string("end")); }
        catch(Exception&) { if(!may_refuse) x.fail("text of more than 4 GiB refused"); return; }
    }
    Lib::In::Source src(b.data(), b.size());
    std::string c; int a = 0;
    Tree().unpack(src, p, "c", c, "a", a);
    x.step();
    if(c != "end" || a != 1) x.fail("neighbours of a text of more than 4 GiB changed");
    T r; Tree().unpack(Lib::In::Source(b.data(), b.size()), p, "b", r);
    x.step();
    if(!good(r, n)) x.fail("text of more than 4 GiB changed");
}

MC_SCENARIO_OPT("more than 4 GiB", "text and bytes of 4 GiB + 1000, two texts of 2 GiB, 2^32 + 1000 items; all formats (refused or back), through a tree, from a stream", .thorough().limit(1500))
{
    x.shard(1);      /* one at a time */
    int what = x.choose(9);
    x.state(what);
    switch(what) {
        case 0: round_trip<std::string>(x, PSrl(), Over, false); break;
        case 1: round_trip<Binary>(x, PSrl(), Over, false); break;
        case 2: round_trip<std::string>(x, PMsgPack(), Over, true); break;
        case 3: round_trip<Binary>(x, PMsgPack(), Over, true); break;
        case 4: round_trip<std::string>(x, PJson(), Over, false); break;
        case 5: case 6: {      /* the document is bigger, none of its items */
            std::vector<uint8_t> b; size_t n = Over / 2;
            PSrl s; PMsgPack m; Parser& p = what == 5 ? (Parser&)s : m;
            { std::string t; fill(t, n); Tree().pack(b, p, "a", 1, "b", t, "c", t, "d", std::string("end")); }
            std::string d; int a = 0;
            Tree().unpack(Lib::In::Source(b.data(), b.size()), p, "d", d, "a", a);
            if(d != "end" || a != 1) x.fail("document of more than 4 GiB changed");
            std::string r; Tree().unpack(Lib::In::Source(b.data(), b.size()), p, "c", r);
            if(!good(r, n)) x.fail("document of more than 4 GiB changed");
            x.step();
            break;
        }
        case 7: {
            Long l(Over); std::istream is(&l); std::string b, c; int a = 0;
            Tree().unpack(is, PJson(), "a", a, "b", b, "c", c);
            if(a != 1 || c != "end" || !good(b, Over)) x.fail("text of more than 4 GiB in a stream changed");
            x.step();
            break;
        }
        case 8: {       /* a count of items which does not fit: refused or back */
            std::vector<uint8_t> v, b; fill(v, Over);
            try { Tree().pack(b, PMsgPack(), "b", v, "c", std::string("end")); } catch(Exception&) { break; }
            std::string c; Tree().unpack(Lib::In::Source(b.data(), b.size()), PMsgPack(), "c", c);
            if(c != "end") x.fail("neighbour of more than 2^32 items changed");
            break;
        }
    }
}

MC_SCENARIO_OPT("more than 4 GiB in a tree", "text of 4 GiB + 1000 inserted in a tree, read back from it", .thorough().limit(900))
{
    x.shard(1);
    Tree t;
    { std::string s; fill(s, Over); t.root().insert("b", s, "c", 4); }
    x.step(); x.state(1);
    if(t.root().unwrap_field<int>("c") != 4) x.fail("neighbour of a text of more than 4 GiB changed");
    if(t.root().value("b").size() != Over || !good(t.root().value("b").data(), Over, Over)) x.fail("text of more than 4 GiB changed in a tree");
}

int main(int argc, char** argv) { return mc::main("P01", argc, argv); }
