/* Stateless explicit-state explorer for the real Srl code.
 *
 * A scenario is a function of a choice oracle. The explorer executes it on every choice
 * sequence (depth first, last choice incremented), in W forked workers which take values of
 * the scenario's first choice ("shard") from a shared counter. The choices of the execution in
 * progress are published in shared memory, so crashes, sanitizer reports and hangs are
 * attributed to one execution, which is replayed alone in a new process before it is reported. */
#ifndef MC_H
#define MC_H

#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define MC_ASAN 1
#endif

#ifdef MC_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

namespace mc {

    inline uint64_t mix(uint64_t h, uint64_t v)
    {
        h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
        h *= 0xD6E8FEB86659FD93ull;
        return h ^ (h >> 32);
    }

    inline uint64_t hash(const void* p, size_t n, uint64_t h = 0x1234567)
    {
        auto* b = (const uint8_t*)p;
        while(n >= 8) { uint64_t v; memcpy(&v, b, 8); h = mix(h, v); b += 8; n -= 8; }
        uint64_t v = 0;
        memcpy(&v, b, n);
        return mix(h, v + n * 0x100000000000000ull);
    }

    inline uint64_t hash(const std::string& s)          { return hash(s.data(), s.size()); }
    inline uint64_t hash(const std::vector<uint8_t>& s) { return hash(s.data(), s.size()); }

    struct Violation { std::string sig, msg; };
    struct Skip { };       /* execution is not part of the space */
    struct ShardDone { };

    const int Max_Choices = 4000;

    inline double now()
    {
        timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
        return ts.tv_sec + ts.tv_nsec * 1e-9;
    }

    struct Slot {   /* one per worker, shared */
        int      scenario;
        int      shard;
        int      n;
        int      choice[Max_Choices];
        double   started;       /* of the execution in progress, 0 = none */
        uint64_t executions[64], steps[64], states[64], skipped[64];
        uint64_t known[64];
        int      capped[64];
        int      failed;        /* 1: violation recorded */
        char     sig[256];
        char     msg[4096];
        int      sample_n[64];
        int      sample[64][64];
        uint64_t maxdepth[64];
    };

    struct Shared {
        std::atomic<int>  next[64];         /* next shard of scenario */
        std::atomic<int>  shards_done[64];
        std::atomic<int>  num_shards[64];
        std::atomic<int>  stop;
        Slot              slot[64];
    };

    const size_t Table_Size = 1u << 24;

    class X {
    public:
        std::vector<int> choices;       /* prefix to follow, extended by 0s */
        std::vector<int> limits;
        size_t   pos   = 0;
        int      shard_val = 0;
        bool     shard_called = false;
        bool     tracing = false;
        bool     thorough = false;
        bool     strict_replay = false;
        std::string trace;
        std::string label_;
        Slot*    slot = nullptr;
        int      scenario = 0;
        std::atomic<uint64_t>* table = nullptr;
        uint64_t steps = 0, states = 0;

        /* first choice of every scenario; distributes the space among the workers */
        int shard(int n)
        {
            if(shard_called) { fprintf(stderr, "mc: shard called twice\n"); _exit(77); }
            shard_called = true;
            if(num_shards) num_shards->store(n);
            if(shard_val >= n) throw ShardDone();
            return shard_val;
        }
        std::atomic<int>* num_shards = nullptr;

        int choose(int n)
        {
            if(!shard_called) { fprintf(stderr, "mc: choose before shard\n"); _exit(77); }
            if(n < 1) throw Violation { "nothing to explore", "number of alternatives: " + std::to_string(n) };
            if(pos == choices.size()) {
                choices.push_back(0); limits.push_back(n);
                if(choices.size() >= (size_t)Max_Choices) { fprintf(stderr, "mc: too many choices\n"); _exit(77); }
                if(slot) { slot->choice[pos] = 0; slot->n = pos + 1; }
            } else {
                if(pos >= limits.size()) {
                    limits.push_back(n);
                } else if(limits[pos] != n) {
                    throw Violation { "execution is not deterministic", "alternatives at choice " + std::to_string(pos) + ": " + std::to_string(n) + ", before " + std::to_string(limits[pos]) };
                }
                if(choices[pos] >= n) { fprintf(stderr, "mc: choice out of range in replay\n"); _exit(78); }
            }
            return choices[pos++];
        }

        bool flip() { return choose(2) == 1; }

        template<class T> const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }

        /* choose through a permutation-like pair list */
        void skip() { throw Skip(); }

        void step(uint64_t n = 1) { steps += n; }

        void state(uint64_t h)
        {
            if(!table) return;
            h = mix(h, scenario + 1);
            if(!h) h = 1;
            size_t i = h & (Table_Size - 1);
            for(int k = 0; k < 64; k++, i = (i + 1) & (Table_Size - 1)) {
                uint64_t cur = table[i].load(std::memory_order_relaxed);
                if(cur == h) return;
                if(cur == 0) {
                    if(table[i].compare_exchange_strong(cur, h)) { states++; return; }
                    if(cur == h) return;
                }
            }
        }

        void label(const std::string& l) { label_ = l; }

        __attribute__((format(printf, 2, 3)))
        void note(const char* fmt, ...)
        {
            if(!tracing) return;
            char buf[2048];
            va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
            trace += buf; trace += "\n";
        }

        [[noreturn]] void fail(const std::string& sig, const std::string& msg = "") { throw Violation { sig, msg }; }

        void check(bool ok, const char* sig, const std::string& msg = "") { if(!ok) fail(sig, msg); }
    };

    struct Scenario {
        std::string name, bound;
        std::function<void(X&)> body;
        bool leak = true;           /* check that the execution frees what it allocates */
        bool quick = true;          /* false: thorough tier only */
        double limit = 30;          /* seconds an execution may take */
    };

    inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }

    struct Reg {
        Reg(const std::string& name, const std::string& bound, const std::function<void(X&)>& f)
        { scenarios().push_back({ name, bound, f }); }
        Reg& noleak()       { scenarios().back().leak = false; return *this; }
        Reg& thorough()     { scenarios().back().quick = false; return *this; }
        Reg& limit(double s) { scenarios().back().limit = s; return *this; }
    };

    /* text of bytes for messages */
    inline std::string show(const void* p, size_t n, size_t max = 160)
    {
        std::string r;
        for(size_t i = 0; i < n && i < max; i++) {
            uint8_t c = ((const uint8_t*)p)[i];
            if(c >= 32 && c < 127 && c != '\\') r += (char)c;
            else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        }
        if(n > max) r += "...(" + std::to_string(n) + " bytes)";
        return r;
    }
    inline std::string show(const std::string& s, size_t max = 160) { return show(s.data(), s.size(), max); }
    inline std::string show(const std::vector<uint8_t>& s, size_t max = 160) { return show(s.data(), s.size(), max); }

    int main(const char* property, int argc, char** argv);
}

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SCENARIO(name, bound) \
    static void MC_CAT(mc_body_, __LINE__)(mc::X& x); \
    static mc::Reg MC_CAT(mc_reg_, __LINE__) = mc::Reg(name, bound, MC_CAT(mc_body_, __LINE__)); \
    static void MC_CAT(mc_body_, __LINE__)(mc::X& x)
#define MC_SCENARIO_OPT(name, bound, opt) \
    static void MC_CAT(mc_body_, __LINE__)(mc::X& x); \
    static mc::Reg MC_CAT(mc_reg_, __LINE__) = mc::Reg(name, bound, MC_CAT(mc_body_, __LINE__)) opt; \
    static void MC_CAT(mc_body_, __LINE__)(mc::X& x)

#endif
