/* Separate trees, parsers and tables do not influence each other. Built twice: with AddressSanitizer
 * and calls at entry and exit of every function of the library (points where a controlled scheduler
 * switches threads), and with ThreadSanitizer. */
#include "session.h"
#include <condition_variable>
#include <mutex>
#include <semaphore.h>
#include <thread>

#define NOHOOK __attribute__((no_instrument_function))

#ifndef __SANITIZE_THREAD__

MC_SCENARIO("calls interleaved", "all pairs of 20 kinds of sessions of 4 calls, all 70 orders of their calls in one thread; thorough: all orders of three sessions of 3 calls")
{
    int sh = x.shard(Session::Kinds * Session::Kinds);
    int k[3] { sh % Session::Kinds, sh / Session::Kinds, 0 }, ns[] { N1, N2, 7 };
    int num = x.thorough ? 2 + x.choose(2) : 2;
    if(num == 3) k[2] = x.choose(Session::Kinds);
    int len = num == 3 ? 3 : 4;
    std::vector<std::unique_ptr<Session>> s;
    for(int i = 0; i < num; i++) s.emplace_back(new Session(k[i], ns[i]));
    std::string order;
    while(true) {
        std::vector<int> left;
        for(int i = 0; i < num; i++) if(s[i]->at < len) left.push_back(i);
        if(left.empty()) break;
        int i = left[x.choose(left.size())];
        order += std::to_string(i);
        int at = s[i]->at;
        compare(x, k[i], ns[i], at, guard(*s[i]), "order " + order);
    }
    x.note("%s, %s%s%s: %s", kind_names[k[0]], kind_names[k[1]], num == 3 ? ", " : "", num == 3 ? kind_names[k[2]] : "", order.c_str());
}

/* user code called from within a session runs another */
static int count_user(int kind, int n, int upto)
{
    static std::map<std::tuple<int, int, int>, int> all;
    auto it = all.find({ kind, n, upto });
    if(it != all.end()) return it->second;
    int c = 0; std::function<void()> f = [&] { c++; };
    Session s(kind, n);
    for(int i = 0; i <= upto; i++) { if(i == upto) callback = &f; guard(s); callback = nullptr; }
    return all[{ kind, n, upto }] = c;
}
MC_SCENARIO("calls from callbacks", "all pairs of 20 kinds of sessions: all calls of one are made from each call of user code (resolve methods, streams, scopes, allocation, visits) in each call of the other")
{
    int sh = x.shard(Session::Kinds * Session::Kinds);
    int a = sh % Session::Kinds, b = sh / Session::Kinds;
    int step = x.choose(Session::Steps);
    int n = count_user(a, N1, step);
    if(!n) x.skip();
    int at = x.choose(n);
    auto what = "callback " + std::to_string(at) + " in call " + std::to_string(step) + " of " + kind_names[a] + " runs " + kind_names[b];
    x.note("%s", what.c_str());
    alone(a, N1); alone(b, N2);
    Session s(a, N1);
    for(int i = 0; i < Session::Steps; i++) {
        std::string failed; int c = 0;
        std::function<void()> f = [&] {
            if(c++ != at) return;
            auto* cb = callback; callback = nullptr;
            Session t(b, N2);
            for(int j = 0; j < Session::Steps; j++) { auto g = guard(t); if(g != alone(b, N2)[j] && failed.empty()) failed = "inner call " + std::to_string(j) + ": " + mc::show(g, 1000) + "\ninstead of " + mc::show(alone(b, N2)[j], 1000); }
            callback = cb;
        };
        if(i == step) callback = &f;
        auto g = guard(s);
        callback = nullptr;
        x.step();
        if(!failed.empty()) x.fail("other result than alone", what + ", " + failed);
        compare(x, a, N1, i, g, what);
    }
}

/* Controlled scheduler ************************************************************************/
/* Two threads, one of them runs. The running one counts the functions of the library it enters and leaves; at the
 * chosen point it hands over to the other one. A thread which waits for the other one (a lock) hands back. */
namespace sched {
    static sem_t back;
    static thread_local int me = -1;
    static volatile long left = -1;         /* points until the switch, < 0: none */
    static volatile long points = 0;        /* counted if >= 0 */
    static std::function<void()> work[2];
    static std::thread* threads[2];
    static volatile bool finished[2];
    static volatile bool entries_only = false;

    static void NOHOOK wait(sem_t* s) { while(sem_wait(s)) { } }
    static bool NOHOOK wait_for(sem_t* s, int ms)
    {
        timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
        ts.tv_nsec += ms * 1000000l; ts.tv_sec += ts.tv_nsec / 1000000000; ts.tv_nsec %= 1000000000;
        int r; while((r = sem_timedwait(s, &ts)) && errno == EINTR) { }
        return r == 0;
    }
    /* plan: points after which the running thread changes; the last change is when a thread is done */
    static long plan[8]; static volatile int next;
    static sem_t turn[2], start[2];
    static void NOHOOK point()
    {
        points++;
        if(left < 0 || left-- != 0) return;
        int self = me, other = 1 - self;
        left = plan[++next];
        if(finished[other]) return;
        sem_post(&turn[other]);
        /* the other one gives the turn back at its switch point or when it is done; if it waits for this thread go on */
        wait_for(&turn[self], 30);
    }
    static void body(int i)
    {
        while(true) {
            /* a turn may be left over from a thread which went on without being given the turn back, a start is not */
            wait(&start[i]);
            if(i > 0) wait(&turn[i]);
            me = i;
            work[i]();
            me = -1;
            finished[i] = true;
            if(!finished[1 - i]) { left = plan[++next]; sem_post(&turn[1 - i]); }
            sem_post(&back);
        }
    }
    static void init()
    {
        if(threads[0]) return;
        for(auto& s : turn) sem_init(&s, 0, 0);
        for(auto& s : start) sem_init(&s, 0, 0);
        sem_init(&back, 0, 0);
        for(int i = 0; i < 2; i++) threads[i] = new std::thread(body, i);
    }
    /* thread 0 starts; switches after p[0] points of it, p[1] points of the other one, ... */
    static void run(const std::function<void()>& a, const std::function<void()>& b, const std::vector<long>& p)
    {
        init();
        for(auto& e : plan) e = -1;
        for(size_t i = 0; i < p.size(); i++) plan[i] = p[i];
        next = 0; points = 0; left = plan[0];
        finished[0] = finished[1] = false;
        work[0] = a; work[1] = b;
        for(auto& s : turn) while(sem_trywait(&s) == 0) { }
        for(auto& s : start) sem_post(&s);
        wait(&back); wait(&back);
        left = -1;
    }
}
extern "C" void NOHOOK __cyg_profile_func_enter(void*, void*) { if(sched::me >= 0) sched::point(); }
extern "C" void NOHOOK __cyg_profile_func_exit(void*, void*) { if(sched::me >= 0 && !sched::entries_only) sched::point(); }

/* points in one call of a session which runs in a thread */
static long count_points(int kind, int n, int step)
{
    static std::map<std::tuple<int, int, int>, long> all;
    auto it = all.find({ kind, n, step });
    if(it != all.end()) return it->second;
    long c = 0;
    for(int k = 0; k < 2; k++) {
        Session s(kind, n);
        for(int i = 0; i < step; i++) guard(s);
        sched::run([&] { guard(s); }, [] { }, { });
        c = sched::points;
    }
    return all[{ kind, n, step }] = c;
}

/* calls sa .. sa of the one, sb .. eb of the other */
static void threads(mc::X& x, int a, int sa, int b, int sb, int eb, const std::vector<long>& plan)
{
    alone(a, N1); alone(b, N2);
    auto what = std::string(kind_names[a]) + " call " + std::to_string(sa) + " in one thread, " + kind_names[b] + " call " + std::to_string(sb) + " to " + std::to_string(eb) + " in another, switch after";
    for(auto p : plan) what += " " + std::to_string(p);
    what += " points";
    x.note("%s", what.c_str());
    Session s(a, N1), t(b, N2); std::string g, h[Session::Steps];
    for(int i = 0; i < sa; i++) guard(s);
    for(int i = 0; i < sb; i++) guard(t);
    sched::run([&] { g = guard(s); }, [&] { for(int i = sb; i <= eb; i++) h[i] = guard(t); }, plan);
    compare(x, a, N1, sa, g, what);
    for(int i = sb; i <= eb; i++) compare(x, b, N2, i, h[i], what);
}

MC_SCENARIO("threads, one preemption", "every call of 20 kinds of sessions of 4 calls in a thread is preempted at the entry of every function of the library, and the same call on other data runs to its end in another thread; thorough: at entry and exit, and the other thread runs all calls of every kind of session")
{
    int sh = x.shard(Session::Kinds * Session::Steps);
    int a = sh / Session::Steps, sa = sh % Session::Steps;
    sched::entries_only = !x.thorough;
    int b = a, sb = sa, eb = sa;
    if(x.thorough) { b = x.choose(Session::Kinds); sb = 0; eb = Session::Steps - 1; }
    else if(a < 12 && a % 4 == JsonS) x.skip();
    long n = count_points(a, N1, sa);
    if(!n) x.skip();
    threads(x, a, sa, b, sb, eb, { (long)x.choose(n) });
}

MC_SCENARIO_OPT("threads, two preemptions", "all calls of 20 kinds of sessions with at most 800 points with the same call on other data: the first is preempted at every point, the second one too", .thorough())
{
    int sh = x.shard(Session::Kinds * Session::Steps);
    int a = sh / Session::Steps, sa = sh % Session::Steps;
    sched::entries_only = true;
    long n = count_points(a, N1, sa), m = count_points(a, N2, sa);
    if(!n || !m || n > 800 || m > 2000) x.skip();
    threads(x, a, sa, a, sa, sa, { (long)x.choose(n), (long)x.choose(m) });
}

#else

/* glibc synchronises iconv and the modules it loads with locks the race detector does not know. What it does on its own
 * account is ignored; conversions use memory of the caller and of the descriptor */
#include <dlfcn.h>
#include <iconv.h>
extern "C" {
    void AnnotateIgnoreReadsBegin(const char*, int); void AnnotateIgnoreReadsEnd(const char*, int);
    void AnnotateIgnoreWritesBegin(const char*, int); void AnnotateIgnoreWritesEnd(const char*, int);
}
struct Ignore {
    Ignore() { AnnotateIgnoreReadsBegin(__FILE__, __LINE__); AnnotateIgnoreWritesBegin(__FILE__, __LINE__); }
    ~Ignore() { AnnotateIgnoreWritesEnd(__FILE__, __LINE__); AnnotateIgnoreReadsEnd(__FILE__, __LINE__); }
};
extern "C" iconv_t iconv_open(const char* to, const char* from)
{
    static auto f = (iconv_t(*)(const char*, const char*))dlsym(RTLD_NEXT, "iconv_open");
    Ignore i; return f(to, from);
}
extern "C" int iconv_close(iconv_t c)
{
    static auto f = (int(*)(iconv_t))dlsym(RTLD_NEXT, "iconv_close");
    Ignore i; return f(c);
}
/* modules stay loaded */
static void load_modules()
{
    static bool done = false;
    if(done) return;
    done = true;
    const char* n[] { "UTF-8", "UTF-16LE", "UTF-32LE", "UTF-16", "UTF-32", "UTF8", "UTF16LE", "UTF32LE", "ISO-8859-1" };
    for(auto a : n) for(auto b : n) { auto c = iconv_open(a, b); if(c != (iconv_t)-1) { char in[4] { 'a', 0, 0, 0 }, out[64]; char* i = in, *o = out; size_t l = 4, m = 64; iconv(c, &i, &l, &o, &m); } }
}

/* every pair runs in a new process, so that first uses are concurrent too */
static void concurrently(mc::X& x, const std::vector<std::pair<int, int>>& who, bool first)
{
    std::string what; for(auto& w : who) what += std::string(kind_names[w.first]) + ", ";
    x.note("%s%s", what.c_str(), first ? "first use" : "");
    auto run = [&]() -> int {
        if(!first) for(auto& w : who) alone(w.first, w.second);
        std::vector<std::vector<std::string>> got(who.size());
        std::vector<std::thread> ts; std::atomic<int> ready { 0 };
        for(size_t i = 0; i < who.size(); i++) ts.emplace_back([&, i] {
            ready.fetch_add(1, std::memory_order_relaxed); while(ready.load(std::memory_order_relaxed) < (int)who.size()) { }
            Session s(who[i].first, who[i].second);
            for(int k = 0; k < Session::Steps; k++) got[i].push_back(guard(s));
        });
        for(auto& t : ts) t.join();
        for(size_t i = 0; i < who.size(); i++) for(int k = 0; k < Session::Steps; k++) if(got[i][k] != alone(who[i].first, who[i].second)[k]) {
            fprintf(stderr, "%s call %d gives %s instead of %s\n", kind_names[who[i].first], k, mc::show(got[i][k], 1500).c_str(), mc::show(alone(who[i].first, who[i].second)[k], 1500).c_str());
            return 11;
        }
        return 0;
    };
    x.step(who.size() * Session::Steps);
    fflush(stdout); fflush(stderr);
    load_modules();
    auto pid = fork();
    if(pid == 0) _exit(run());
    int st = 0; waitpid(pid, &st, 0);
    x.state(mc::mix(mc::hash(what), first));
    if(WIFEXITED(st) && WEXITSTATUS(st) == 11) x.fail("other result than alone", what);
    if(!WIFEXITED(st) || WEXITSTATUS(st) != 0) x.fail("data race", what + (WIFEXITED(st) ? "exit status " + std::to_string(WEXITSTATUS(st)) : "signal " + std::to_string(WTERMSIG(st))));
}
MC_SCENARIO_OPT("concurrent sessions", "all pairs of 20 kinds of sessions, first use in the process or not, run concurrently under a happens-before race detector", .noleak())
{
    int sh = x.shard(Session::Kinds * Session::Kinds);
    int a = sh % Session::Kinds, b = sh / Session::Kinds;
    if(b > a) x.skip();
    concurrently(x, { { a, N1 }, { b, N2 } }, x.choose(2));
}
MC_SCENARIO_OPT("many concurrent sessions", "all kinds of sessions at once", .noleak())
{
    x.shard(2);
    std::vector<std::pair<int, int>> all; for(int i = 0; i < Session::Kinds; i++) all.push_back({ i, 3 + i });
    concurrently(x, all, x.shard_val);
}
#endif

int main(int argc, char** argv) { return mc::main("P24", argc, argv); }
