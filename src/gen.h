/* Generators driven by the choice oracle */
#ifndef GEN_H
#define GEN_H
#include "doc.h"

namespace gen {

    /* all documents with up to max items (values and scopes) and a nesting depth. The first call must be
     * root(), which makes the shard choice. Names are chosen in objects only. */
    struct Gen {
        mc::X& x; int left, depth;
        Gen(mc::X& x_, int max, int depth_) : x(x_), left(max), depth(depth_) { }

        void fill(doc::Doc& d, int lvl, const std::vector<std::string>& names, const std::vector<doc::Val>& vals, bool values_done = false, int first = -1)
        {
            while(left > 0) {
                /* 0: end of scope, 1: value, 2: object, 3: array */
                int n = lvl < depth ? 4 : 2;
                int c = first >= 0 ? first : x.choose(n);
                first = -1;
                if(c == 0) return;
                /* values are kept before scopes: their relative order is not observable */
                if(c == 1 && values_done) x.skip();
                left--;
                std::string name = d.array ? "" : x.pick(names);
                if(c == 1) { d.v(name, x.pick(vals)); continue; }
                values_done = true;
                doc::Doc s(c == 3);
                fill(s, lvl + 1, names, vals);
                d.n(name, s);
            }
        }
        doc::Doc root(const std::vector<std::string>& names, const std::vector<doc::Val>& vals)
        {
            int s = x.shard(8);
            doc::Doc d(s & 1);
            fill(d, 1, names, vals, false, s >> 1);
            return d;
        }
    };

    /* dense lengths and neighbourhoods of the boundaries at which encodings and buffers change */
    inline std::vector<size_t> lengths(size_t dense, size_t max)
    {
        std::set<size_t> s;
        for(size_t i = 0; i <= dense; i++) s.insert(i);
        for(size_t b : { 127, 128, 255, 256, 504, 512, 1008, 1016, 1024, 2040, 2048, 3072, 4096, 8192, 16383, 16384, 32768, 65535, 65536, 131072, 262144, 524288, 1048576 })
            for(int k = -3; k <= 3; k++) if(b + k <= max) s.insert(b + k);
        /* around the output/input buffer of 1024 bytes, with all alignments of what precedes */
        for(size_t b = 960; b <= 1080 && b <= max; b++) s.insert(b);
        for(size_t b = 2000; b <= 2060 && b <= max; b++) s.insert(b);
        return std::vector<size_t>(s.begin(), s.end());
    }
    inline std::vector<size_t> counts(size_t dense, size_t max)
    {
        std::set<size_t> s;
        for(size_t i = 0; i <= dense; i++) s.insert(i);
        for(size_t b : { 255, 256, 511, 512, 1023, 1024, 4095, 4096, 16383, 16384, 32767, 32768, 65535, 65536 })
            for(int k = -1; k <= 1; k++) if(b + k <= max) s.insert(b + k);
        return std::vector<size_t>(s.begin(), s.end());
    }

    /* pairs of different names which are easily taken for each other: the library's hash function (FNV-1a, 64 bit)
     * gives the same hash, or hashes of one lower, upper or folded half; or they differ in one byte, in length, in order */
    inline const std::vector<std::vector<std::string>>& twins()
    {
        static const std::string tail = " and a tail which makes the names longer";
        static const std::vector<std::vector<std::string>> r {
            { "B8YhU0HUpyE", "4k9_eyFxFDH" }, { "MlxW6KRfbCF" + tail, "065_WBbR24K" + tail }, { "lsaq", "0a3a" }, { "bsodfield", "cbjlfield" }, { "beah", "cu1r" }, { "ejbm", "rata" },
            { "abcdefgh1", "abcdefgh2" }, { "1bcdefgh", "2bcdefgh" }, { "1bcdefghi", "2bcdefghi" }, { "ab", "ba" }, { "Name", "name" }, { "part", "parts" }, { "x" + tail, "y" + tail }, { tail + "x", tail + "y" },
            { "\xC3\xA4", "\xC3\xA5" }, { "\xC3\xA4", "\xC4\xA4" }, { std::string("a\0b", 3), std::string("a\0c", 3) }, { "1", "01" }, { "0", "" } };
        return r;
    }

    /* text (kind 0, 2, 3: valid UTF-8 with characters to be escaped) or bytes (kind 1) of a length */
    inline std::string pattern(size_t len, int kind)
    {
        std::string r;
        if(kind == 1) { for(size_t i = 0; i < len; i++) r += (char)(i * 37 + 11 + (i >> 8)); return r; }
        static const char* a = "abcdefghijklmnopqrstuvwxyz0123456789";
        for(size_t i = 0; i < len; i++) r += i % 11 == 10 ? '"' : i % 17 == 16 ? '\\' : i % 29 == 28 ? '\n' : a[(i * 7 + i / 36) % 36];
        return r;
    }
}
#endif
