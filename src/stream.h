/* An input stream which delivers its data in chunks of given sizes (repeating the last). */
#ifndef STREAM_H
#define STREAM_H
#include "doc.h"
#include <streambuf>
#include <istream>

struct ChunkBuf : std::streambuf {
    const uint8_t* p; size_t n, at = 0, k = 0;
    std::vector<size_t> sizes;
    std::vector<char> cur;
    ChunkBuf(const uint8_t* p_, size_t n_, std::vector<size_t> s) : p(p_), n(n_), sizes(s) { }
    int_type underflow() override
    {
        if(at >= n) return traits_type::eof();
        size_t c = sizes.empty() ? n : sizes[std::min(k, sizes.size() - 1)];
        k++;
        c = std::min(c ? c : 1, n - at);
        cur.assign((const char*)p + at, (const char*)p + at + c);
        at += c;
        setg(cur.data(), cur.data(), cur.data() + c);
        return traits_type::to_int_type(*gptr());
    }
};

struct ChunkStream : std::istream {
    ChunkBuf b;
    ChunkStream(const uint8_t* p, size_t n, std::vector<size_t> s = { }) : std::istream(nullptr), b(p, n, s) { rdbuf(&b); }
    ChunkStream(const doc::Buf& v, std::vector<size_t> s = { }) : ChunkStream(v.data(), v.size(), s) { }
};

namespace doc {
    struct Loaded { bool ok = false; Doc d; std::string err; };

    inline Loaded try_load(int f, const Buf& b, bool stream, std::vector<size_t> sizes = { })
    {
        Loaded r;
        Srl::Tree t;
        try {
            if(stream) { ChunkStream s(b, sizes); load(t, f, s); }
            else { Exact e(b); with(f, [&](auto& p) { t.load_source(e.p, e.n, p); return 0; }); }
            r.ok = true;
        } catch(Srl::Exception& e) { r.err = e.what(); }
        if(r.ok) r.d = extract(t.root());
        return r;
    }

    /* the stream route must agree with the memory route */
    inline Loaded same_from_stream(mc::X& x, int f, const Buf& b, std::vector<size_t> sizes = { }, const std::string& what = "")
    {
        auto m = try_load(f, b, false), s = try_load(f, b, true, sizes);
        x.step(2);
        x.state(m.ok ? hash(m.d) : mc::hash(b));
        if(m.ok != s.ok)
            x.fail(std::string(m.ok ? "stream refused what memory accepted: " : "stream accepted what memory refused: ") + fmt_name(f),
                   what + " " + mc::show(b) + "\n" + (m.ok ? s.err : m.err));
        if(m.ok) {
            auto d = diff(m.d, s.d, false);
            if(!d.empty()) x.fail(std::string("stream gives another document: ") + fmt_name(f), what + " " + d + "\n" + mc::show(b));
        }
        return m;
    }
}
#endif
