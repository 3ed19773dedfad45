#include "mc.h"
#include <sys/prctl.h>

#ifdef MC_ASAN
extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:exitcode=66:hard_rss_limit_mb=3000:max_allocation_size_mb=1500:"
           "allocator_may_return_null=0:detect_stack_use_after_return=0:quarantine_size_mb=8:"
           "malloc_context_size=4:symbolize=0:handle_abort=1:alloc_dealloc_mismatch=1";
}
#endif

namespace mc {
namespace {

    Shared* sh;
    std::atomic<uint64_t>* table;
    std::string prop, verif, outdir, tier;
    bool thorough;
    double deadline;
    int nworkers = 8;

    struct Known { std::string sig, what; };
    std::vector<Known> known;

    enum Res { Ok, Skipped, Done, Failed };

    size_t live()
    {
#ifdef MC_ASAN
        return __sanitizer_get_current_allocated_bytes();
#else
        return 0;
#endif
    }

    Res run_body(Scenario& s, X& x, Violation& v)
    {
        x.pos = 0; x.shard_called = false; x.steps = 0; x.states = 0; x.trace.clear();
        Res r = Ok;
        try {
            s.body(x);
        }
        catch(Skip&) { r = Skipped; }
        catch(ShardDone&) { return Done; }
        catch(Violation& e) { v = e; r = Failed; }
        catch(std::exception& e) { v = { "unexpected exception", e.what() }; r = Failed; }
        catch(...) { v = { "unexpected exception", "not a std::exception" }; r = Failed; }
        if(!x.shard_called) { fprintf(stderr, "mc: scenario %s did not call shard\n", s.name.c_str()); _exit(77); }
        if(x.pos < x.choices.size() && r != Failed) { v = { "execution is not deterministic", "shorter than before" }; r = Failed; }
        return r;
    }

    Res run_one(Scenario& s, X& x, Violation& v)
    {
        if(x.slot) x.slot->started = now();
        auto before = live();
        Res r = run_body(s, x, v);
        auto after = live();

        if(s.leak && after > before && (r == Ok || r == Skipped)) {
            /* memory of lazily initialised statics is allocated once, a leak on every run */
            auto steps = x.steps, states = x.states;
            auto trace = x.trace;
            bool leaks = true;
            size_t leaked = 0;
            for(int i = 0; i < 3 && leaks; i++) {
                auto b = live();
                Violation w;
                run_body(s, x, w);
                auto a = live();
                leaks = a > b;
                leaked = a - b;
            }
            x.steps = steps; x.states = states; x.trace = trace;
            if(leaks) {
                v = { "memory leak", std::to_string(leaked) + " bytes are still allocated after the execution" };
                r = Failed;
            }
        }
        if(x.slot) x.slot->started = 0;
        return r;
    }

    bool advance(X& x)
    {
        while(!x.choices.empty()) {
            if(x.choices.back() + 1 < x.limits.back()) {
                x.choices.back()++;
                if(x.slot) { x.slot->n = x.choices.size(); x.slot->choice[x.slot->n - 1] = x.choices.back(); }
                return true;
            }
            x.choices.pop_back();
            x.limits.pop_back();
        }
        if(x.slot) x.slot->n = 0;
        return false;
    }

    void fill_failure(Slot& slot, const Violation& v)
    {
        snprintf(slot.sig, sizeof slot.sig, "%s", v.sig.c_str());
        snprintf(slot.msg, sizeof slot.msg, "%s", v.msg.c_str());
        slot.failed = 1;
    }

    int known_index(const Violation& v)
    {
        for(size_t i = 0; i < known.size(); i++) if(known[i].sig == v.sig) return i;
        return -1;
    }

    void init_x(X& x, int sc, int shard)
    {
        x.choices.reserve(Max_Choices); x.limits.reserve(Max_Choices);
        x.shard_val = shard; x.scenario = sc; x.thorough = thorough; x.table = table;
    }

    /* -> false: scenario has no such shard */
    bool run_shard(int sc, int shard, Slot& slot, const std::vector<int>* upto = nullptr)
    {
        auto& s = scenarios()[sc];
        X x;
        init_x(x, sc, shard);
        x.slot = &slot; x.num_shards = &sh->num_shards[sc];
        slot.scenario = sc; slot.shard = shard; slot.n = 0;
        int tick = 0;
        while(true) {
            Violation v;
            Res r = run_one(s, x, v);
            if(r == Done) return false;
            if(r == Failed) {
                int k = known_index(v);
                if(k < 0) {
                    fill_failure(slot, v);
                    sh->stop = 1;
                    _exit(10);
                }
                slot.known[k]++;
            }
            if(r == Skipped) slot.skipped[sc]++;
            else {
                auto e = slot.executions[sc]++;
                if((e == 0 || e == 37 || e == 4999) && x.choices.size() < 60) {
                    slot.sample_n[sc] = x.choices.size() + 1;
                    slot.sample[sc][0] = shard;
                    for(size_t i = 0; i < x.choices.size(); i++) slot.sample[sc][i + 1] = x.choices[i];
                }
            }
            slot.steps[sc] += x.steps; slot.states[sc] += x.states;
            if(x.choices.size() + 1 > slot.maxdepth[sc]) slot.maxdepth[sc] = x.choices.size() + 1;
            if(upto && x.choices == *upto) return true;
            if(!advance(x)) return true;
            if((++tick & 31) == 0) {
                if(sh->stop) _exit(0);
                if(now() > deadline) { slot.capped[sc] = 1; return true; }
            }
        }
    }

    void child_setup(const std::string& err)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int fd = open(err.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
        if(fd >= 0) { dup2(fd, 2); close(fd); }
        rlimit rl { 8u << 20, 8u << 20 };
        setrlimit(RLIMIT_STACK, &rl);
        rlimit rc { 0, 0 };
        setrlimit(RLIMIT_CORE, &rc);
    }

    void worker(int w, int first_sc, int first_shard)
    {
        auto& slot = sh->slot[w];
        if(first_sc >= 0) run_shard(first_sc, first_shard, slot);
        auto& ss = scenarios();
        for(size_t sc = 0; sc < ss.size(); sc++) {
            if(!thorough && !ss[sc].quick) continue;
            while(true) {
                int ns = sh->num_shards[sc];
                int shard = sh->next[sc].fetch_add(1);
                if(ns >= 0 && shard >= ns) break;
                if(now() > deadline) { slot.capped[sc] = 1; break; }
                if(!run_shard(sc, shard, slot)) break;
                sh->shards_done[sc]++;
            }
        }
        _exit(0);
    }

    struct Outcome {
        bool failed = false;
        std::string sig, msg, trace, err;
    };

    std::string slurp(const std::string& f, size_t max = 6000)
    {
        std::ifstream is(f); std::stringstream ss; ss << is.rdbuf();
        auto r = ss.str();
        return r.size() > max ? r.substr(0, max) : r;
    }

    /* run one execution (or its shard up to it) in a new process */
    Outcome replay(int sc, int shard, const std::vector<int>& choices, bool whole_shard, const std::string& tag)
    {
        auto err = outdir + "/replay-" + tag + ".err", tr = outdir + "/replay-" + tag + ".trace";
        unlink(tr.c_str());
        auto& slot = sh->slot[63];
        memset(&slot, 0, sizeof slot);
        fflush(stdout);
        auto pid = fork();
        if(pid == 0) {
            child_setup(err);
            sh->stop = 0;
            deadline = now() + 1e6;
            auto& s = scenarios()[sc];
            if(whole_shard) {
                run_shard(sc, shard, slot, &choices);
                _exit(0);
            }
            X x;
            init_x(x, sc, shard);
            x.tracing = true; x.table = nullptr;
            x.choices = choices;
            x.choices.reserve(Max_Choices);
            Violation v;
            auto r = run_one(s, x, v);
            { std::ofstream os(tr); os << x.trace; }
            if(r == Failed) { fill_failure(slot, v); _exit(10); }
            _exit(0);
        }
        double limit = (whole_shard ? 600 : 4 * scenarios()[sc].limit);
        double t0 = now();
        int st = 0; bool timeout = false;
        while(waitpid(pid, &st, WNOHANG) == 0) {
            if(now() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); timeout = true; break; }
            usleep(2000);
        }
        Outcome o;
        o.trace = slurp(tr, 20000);
        if(timeout) {
            if(!whole_shard) { o.failed = true; o.sig = "hang"; o.msg = "no end within " + std::to_string((int)limit) + " s"; }
        } else if(WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        } else if(WIFEXITED(st) && WEXITSTATUS(st) == 10) {
            o.failed = true; o.sig = slot.sig; o.msg = slot.msg;
        } else {
            o.failed = true;
            o.sig = "crash";
            o.err = slurp(err);
            o.msg = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st));
            if(o.err.find("ERROR: AddressSanitizer: ") != std::string::npos) {
                auto p = o.err.find("ERROR: AddressSanitizer: ") + 25;
                o.sig = "crash: " + o.err.substr(p, o.err.find_first_of(" \n", p) - p);
            }
        }
        unlink(tr.c_str()); unlink(err.c_str());
        return o;
    }

    std::string jstr(const std::string& s)
    {
        std::string r = "\"";
        for(unsigned char c : s) {
            if(c == '"' || c == '\\') { r += '\\'; r += c; }
            else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += c;
        }
        return r + "\"";
    }

    void write_replay(const std::string& f, int sc, int shard, const std::vector<int>& ch, const char* mode, const Outcome& o)
    {
        std::ofstream os(f);
        os << "property " << prop << "\nscenario " << scenarios()[sc].name << "\ntier " << tier << "\nmode " << mode << "\nshard " << shard << "\nchoices";
        for(int c : ch) os << " " << c;
        os << "\n# failure: " << o.sig << "\n# " << o.msg << "\n";
        std::istringstream ts(o.trace);
        for(std::string l; std::getline(ts, l);) os << "# trace: " << l << "\n";
        std::istringstream es(o.err);
        for(std::string l; std::getline(es, l);) os << "# stderr: " << l << "\n";
    }

    int run_replay_file(const std::string& f)
    {
        std::ifstream is(f);
        std::string line, name, mode = "exec"; int shard = 0; std::vector<int> ch;
        while(std::getline(is, line)) {
            std::istringstream ls(line);
            std::string k; ls >> k;
            if(k == "scenario") { ls.get(); std::getline(ls, name); }
            if(k == "mode") ls >> mode;
            if(k == "shard") ls >> shard;
            if(k == "tier") { ls >> tier; thorough = tier == "thorough"; }
            if(k == "choices") for(int c; ls >> c;) ch.push_back(c);
        }
        for(size_t sc = 0; sc < scenarios().size(); sc++) {
            if(scenarios()[sc].name != name) continue;
            auto o = replay(sc, shard, ch, mode == "shard", "file" + std::to_string(getpid()));
            printf("%s\n", o.trace.c_str());
            if(o.failed) {
                printf("%s\n%s\n%s\nVIOLATION property=%s replay=%s\n", o.sig.c_str(), o.msg.c_str(), o.err.c_str(), prop.c_str(), f.c_str());
                return 1;
            }
            printf("replayed without a violation\n");
            return 0;
        }
        fprintf(stderr, "no scenario '%s' in this build\n", name.c_str());
        return 3;
    }
}

int main(const char* property, int argc, char** argv)
{
    setvbuf(stdout, nullptr, _IOLBF, 0);
    prop = property;
    verif = "/verif"; tier = "quick";
    const char* e = getenv("VERIF_DIR"); if(e) verif = e;
    std::string replay_file, only;
    long budget = 0;
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if(a == "--tier") tier = argv[++i];
        else if(a == "--replay") replay_file = argv[++i];
        else if(a == "--only") only = argv[++i];
        else if(a == "--budget") budget = atol(argv[++i]);
        else if(a == "--workers") nworkers = atoi(argv[++i]);
    }
    thorough = tier == "thorough";
    if(!budget) budget = thorough ? 3000 : 600;
    if(nworkers > 60) nworkers = 60;
    int seed = getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1;
    outdir = verif + "/out/run";
    mkdir((verif + "/out").c_str(), 0755); mkdir(outdir.c_str(), 0755);

    if(!only.empty()) {
        auto& v = scenarios();
        if(std::none_of(v.begin(), v.end(), [&](Scenario& s) { return s.name.find(only) != std::string::npos; })) { fprintf(stderr, "no scenario '%s' in this build\n", only.c_str()); return 3; }
        v.erase(std::remove_if(v.begin(), v.end(), [&](Scenario& s) { return s.name.find(only) == std::string::npos; }), v.end());
    }
    /* scenarios of one source file are registered in order; keep a stable order anyway */
    {
        std::ifstream is(verif + "/known_findings.txt");
        for(std::string l; std::getline(is, l);) {
            std::string pre = "known: property=" + prop + " sig=";
            if(l.compare(0, pre.size(), pre) == 0) {
                auto p = l.find(" what=");
                if(p != std::string::npos) known.push_back({ l.substr(pre.size(), p - pre.size()), l.substr(p + 6) });
            }
        }
        if(known.size() > 64) known.resize(64);
    }

    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    table = (std::atomic<uint64_t>*)mmap(nullptr, Table_Size * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(sh == MAP_FAILED || table == MAP_FAILED) { perror("mmap"); return 2; }
    for(auto& n : sh->num_shards) n = -1;

    if(!replay_file.empty()) return run_replay_file(replay_file);

    double t0 = now();
    deadline = t0 + budget;

    std::vector<pid_t> pids(nworkers);
    std::vector<int> deaths(nworkers, 0);
    auto errfile = [&](int w) { return outdir + "/" + prop + "-w" + std::to_string(w) + ".err"; };
    auto spawn = [&](int w, int sc, int shard) {
        fflush(stdout);
        sh->slot[w].started = 0;
        pids[w] = fork();
        if(pids[w] == 0) { child_setup(errfile(w)); worker(w, sc, shard); }
    };
    for(int w = 0; w < nworkers; w++) spawn(w, -1, -1);

    bool violated = false; std::string vline, vtext;
    std::vector<std::string> flaky;
    int alive = nworkers;
    bool harness_error = false;

    auto kill_all = [&] {
        for(auto& p : pids) if(p > 0) { kill(p, SIGKILL); waitpid(p, nullptr, 0); p = -1; }
        alive = 0;
    };

    while(alive > 0 && !violated && !harness_error) {
        bool progress = false;
        for(int w = 0; w < nworkers; w++) {
            if(pids[w] <= 0) continue;
            auto& slot = sh->slot[w];
            int st;
            auto r = waitpid(pids[w], &st, WNOHANG);
            bool suspect = false; std::string why;
            if(r == pids[w]) {
                progress = true;
                pids[w] = -1; alive--;
                if(WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                if(WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 78)) {
                    /* 78: replaying a prefix diverged. The harness takes its choices from what it is told
                     * only, so this is reported like a failure if it can be reproduced. */
                    fprintf(stderr, "%s", slurp(errfile(w)).c_str());
                    harness_error = true;
                    break;
                }
                suspect = true;
                why = WIFEXITED(st) ? "exit " + std::to_string(WEXITSTATUS(st)) : "signal " + std::to_string(WTERMSIG(st));
            } else {
                double started = slot.started;
                if(started > 0 && now() - started > scenarios()[slot.scenario].limit) {
                    kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0);
                    pids[w] = -1; alive--;
                    suspect = true; why = "no progress";
                }
            }
            if(!suspect) continue;

            std::vector<int> ch(slot.choice, slot.choice + slot.n);
            int sc = slot.scenario, shard = slot.shard;
            bool slot_failed = slot.failed; std::string slot_sig = slot.sig, slot_msg = slot.msg;
            /* while confirming, the other workers go on */
            auto o = replay(sc, shard, ch, false, std::to_string(getpid()));
            const char* mode = "exec";
            if(!o.failed) {
                o = replay(sc, shard, ch, true, std::to_string(getpid()));
                mode = "shard";
            }
            if(!o.failed && why == "exit 10" && slot_failed) {
                /* what was observed was wrong, it depends on something else than the choices (memory which is not initialised, say) */
                o.failed = true; mode = "shard"; o.sig = slot_sig; o.msg = slot_msg + "\n(not reproduced when the execution was repeated)";
            }
            if(!o.failed && ++deaths[w] >= 3 && why != "signal 9" && why != "no progress") {
                o.failed = true; mode = "shard"; o.sig = "repeated crash of the worker"; o.msg = why; o.err = slurp(errfile(w));
            }
            if(o.failed && known_index({ o.sig, "" }) >= 0) o.failed = false;
            if(o.failed) {
                mkdir((verif + "/out/replays").c_str(), 0755);
                auto f = verif + "/out/replays/" + prop + "-" + tier + ".replay";
                write_replay(f, sc, shard, ch, mode, o);
                violated = true;
                vtext = "scenario " + scenarios()[sc].name + ": " + o.sig + "\n" + o.msg + "\n" + o.trace + o.err;
                vline = "VIOLATION property=" + prop + " replay=" + f;
            } else {
                flaky.push_back("scenario " + scenarios()[sc].name + ": worker ended (" + why + ") but the execution could not be reproduced");
                sh->stop = 0;
                slot.failed = 0;
                if(deaths[w] < 3) { spawn(w, sc, shard); alive++; }
                else slot.capped[sc] = 1;
            }
            break;
        }
        if(!progress) usleep(3000);
    }
    kill_all();
    double wall = now() - t0;
    for(int w = 0; w < nworkers; w++) unlink(errfile(w).c_str());

    if(harness_error && !violated) {
        fprintf(stderr, "mc: harness error\n");
        return 2;
    }

    /* evidence */
    auto& ss = scenarios();
    uint64_t execs = 0, steps = 0, states = 0;
    bool exhaustive = !violated && flaky.empty();
    std::string sc_json, samples;
    int nsamples = 0;
    bool diverged = false;
    for(size_t i = 0; i < ss.size(); i++) {
        if(!thorough && !ss[i].quick) continue;
        uint64_t e = 0, t = 0, d = 0, k = 0, depth = 0; bool capped = false;
        for(int w = 0; w < nworkers; w++) {
            auto& sl = sh->slot[w];
            e += sl.executions[i]; t += sl.steps[i]; d += sl.states[i]; k += sl.skipped[i]; capped |= sl.capped[i];
            depth = std::max(depth, sl.maxdepth[i]);
        }
        int ns = sh->num_shards[i];
        bool complete = !capped && ns >= 0 && sh->shards_done[i] >= ns;
        if(!violated && flaky.empty() && !capped && ns >= 0 && sh->shards_done[i] < ns) complete = false;
        exhaustive = exhaustive && complete;
        execs += e; steps += t; states += d;
        sc_json += std::string(sc_json.empty() ? "" : ",\n      ") + "{\"name\":" + jstr(ss[i].name) + ",\"bound\":" + jstr(ss[i].bound) +
            ",\"executions\":" + std::to_string(e) + ",\"transitions\":" + std::to_string(t) + ",\"distinct_states\":" + std::to_string(d) +
            ",\"outside_space\":" + std::to_string(k) + ",\"max_choices\":" + std::to_string(depth) + ",\"complete\":" + (complete ? "true" : "false") + "}";
        printf("  %-34s executions=%llu transitions=%llu states=%llu depth=%llu%s\n", ss[i].name.c_str(), (unsigned long long)e, (unsigned long long)t, (unsigned long long)d, (unsigned long long)depth,
               complete ? "" : " INCOMPLETE");
        if(!violated && complete && e == 0) { fprintf(stderr, "mc: scenario %s explored nothing\n", ss[i].name.c_str()); return 2; }

        /* two runs of a recorded execution must agree */
        for(int w = 0; w < nworkers && !violated; w++) {
            auto& sl = sh->slot[w];
            if(sl.sample_n[i] > 0) {
                std::vector<int> ch(sl.sample[i] + 1, sl.sample[i] + sl.sample_n[i]);
                auto a = replay(i, sl.sample[i][0], ch, false, "s" + std::to_string(getpid()));
                auto b = replay(i, sl.sample[i][0], ch, false, "s" + std::to_string(getpid()));
                if(a.trace != b.trace) diverged = true;
                if(nsamples++ < 12) {
                    std::string c = ss[i].name + " shard=" + std::to_string(sl.sample[i][0]) + " choices=";
                    for(int v : ch) c += std::to_string(v) + ",";
                    auto t = a.trace.size() > 700 ? a.trace.substr(0, 700) + "..." : a.trace;
                    samples += std::string(samples.empty() ? "" : ",\n      ") + jstr(c + "\n" + t);
                }
                break;
            }
        }
    }
    if(diverged) { fprintf(stderr, "mc: the same choices gave different observations\n"); exhaustive = false; }
    int nviol = violated ? 1 : 0;
    std::string kn;
    for(size_t i = 0; i < known.size(); i++) {
        uint64_t n = 0;
        for(int w = 0; w < nworkers; w++) n += sh->slot[w].known[i];
        if(n > 0) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), known[i].what.c_str());
        kn += std::string(kn.empty() ? "" : ", ") + "{\"finding\":" + jstr(known[i].what) + ",\"executions\":" + std::to_string(n) + "}";
    }
    std::string fl;
    for(auto& f : flaky) fl += std::string(fl.empty() ? "" : ",") + jstr(f);
    mkdir((verif + "/evidence").c_str(), 0755);
    std::ofstream os(verif + "/evidence/" + prop + ".json");
    os << "{\n  \"property\": " << jstr(prop) << ",\n  \"tier\": " << jstr(tier) << ",\n  \"seed\": " << seed << ",\n  \"level\": \"model_checking\",\n"
       << "  \"coverage\": {\n    \"states\": " << states << ",\n    \"transitions\": " << steps << ",\n    \"traces_validated_against_impl\": " << execs
       << ",\n    \"executions\": " << execs << ",\n    \"exhaustive\": " << (exhaustive ? "true" : "false")
       << ",\n    \"explanation\": " << jstr("Stateless exploration of the real implementation: every choice sequence of every scenario within its bound is executed against the code built from /repo, "
          "and each execution is compared with the reference model, so every explored trace is validated against the implementation. states = distinct hashes of observed library results, "
          "transitions = library operations performed and checked, executions = complete choice sequences.")
       << ",\n    \"scenarios\": [\n      " << sc_json << "\n    ],\n    \"known_findings\": [" << kn << "],\n    \"not_reproducible\": [" << fl << "],\n    \"samples\": [\n      " << samples << "\n    ]\n  },\n"
       << "  \"assumptions\": [\"built with g++ -O1 -DNDEBUG -fsanitize=address on Linux x86-64\", \"nothing outside the scenarios' alphabets and bounds is covered\"],\n"
       << "  \"wall_s\": " << wall << ",\n  \"violations\": " << nviol << "\n}\n";
    os.close();

    printf("%s %s: executions=%llu transitions=%llu states=%llu exhaustive=%d wall=%.1fs\n", prop.c_str(), tier.c_str(),
           (unsigned long long)execs, (unsigned long long)steps, (unsigned long long)states, (int)exhaustive, wall);
    for(auto& f : flaky) printf("note: %s\n", f.c_str());
    if(violated) {
        printf("%s\n%s\n", vtext.c_str(), vline.c_str());
        return 1;
    }
    return 0;
}
}
