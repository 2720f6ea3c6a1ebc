// Bounded exhaustive explorer: a body is re-executed once for every leaf of its choice tree
// (depth-first, in lexicographic order of the choices).  Nothing is sampled: a suite ends only
// when every branch has been taken (or, for a sharded suite, every branch of its shard).
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP
#include <algorithm>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

// a limbo parameter that can be changed at run time, also inside templates
#define VDYN(T, name)                                  \
    static T& name##_slot()                            \
    {                                                  \
        static T v;                                    \
        return v;                                      \
    }                                                  \
    static T name() { return name##_slot(); }          \
    static void set_##name(T v) { name##_slot() = v; }

#ifndef MC_GUARD
#define MC_GUARD // harnesses with instrumented threads: stop observing while in the explorer
#endif

namespace mc {
    struct Skip {};
    struct Fail {
        std::string key, msg;
    };
    struct Progress {
        volatile uint32_t magic, n, in_case;
        char suite[64];
        volatile int32_t choice[4000];
    };

    struct Explorer {
        std::vector<int> choice, bound;
        size_t pos = 0;
        uint64_t executions = 0, transitions = 0, shard_points = 0, skipped = 0, asserts = 0;
        std::unordered_set<uint64_t> states;
        size_t checked = 0, changed = 0;
    int shard = 0, nshards = 1;
        bool thorough = false, replay = false;
        unsigned seed = 1;
        std::string trace;
        bool tracing = true;
        Progress* prog = nullptr;
        std::map<std::string, uint64_t> counters;
    };
    inline Explorer& ex()
    {
        static Explorer e;
        return e;
    }
    inline bool thorough() { return ex().thorough; }
    inline int tier(int quick, int thorough_) { return ex().thorough ? thorough_ : quick; }
    inline bool replaying() { return ex().replay; }

    // one of 0..n-1; all are explored
    inline int choose(int n)
    {
        MC_GUARD;
        Explorer& e = ex();
        if (n <= 0) {
            fprintf(stderr, "mc: choose(%d)\n", n);
            _exit(3);
        }
        if (e.pos < e.choice.size()) {
            if (!e.replay && e.bound[e.pos] != n) {
                fprintf(stderr, "mc: NONDETERMINISM bound %d != %d at %zu\n", e.bound[e.pos], n, e.pos);
                _exit(4);
            }
            if (e.replay && e.choice[e.pos] >= n)
                _exit(4);
            return e.choice[e.pos++];
        }
        e.choice.push_back(0);
        e.bound.push_back(n);
        if (e.prog && e.pos < 4000) {
            e.prog->choice[e.pos] = 0;
            e.prog->n = e.pos + 1;
        }
        e.pos++;
        return 0;
    }
    template <typename T>
    inline const T& pick(const std::vector<T>& v) { return v[choose(v.size())]; }
    inline bool flip() { return choose(2) == 1; }
    // call (at most once per execution) after the choices that define the work unit
    inline void shard()
    {
        MC_GUARD;
        Explorer& e = ex();
        // a new work unit only if one of the choices made so far has just changed
        if (e.executions + e.skipped == 0 || e.changed < e.pos)
            e.shard_points++;
        uint64_t k = e.shard_points - 1;
        if (!e.replay && (int)(k % e.nshards) != e.shard)
            throw Skip();
    }
    // false while the current execution only repeats choices whose checks already ran
    inline bool fresh()
    {
        Explorer& e = ex();
        return e.replay || e.checked == 0 || e.pos > e.checked;
    }
    inline void op(uint64_t n = 1) { MC_GUARD; ex().transitions += n; }
    inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL)
    {
        MC_GUARD;
        const unsigned char* c = (const unsigned char*)p;
        for (size_t i = 0; i < n; ++i) {
            h ^= c[i];
            h *= 1099511628211ULL;
        }
        h ^= h >> 29;
        h *= 0xbf58476d1ce4e5b9ULL;
        return h ^ (h >> 32);
    }
    inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ULL) { return hash_bytes(s.data(), s.size(), h); }
    // records an (abstract) state reached by the current execution
    inline void state(uint64_t h) { MC_GUARD; ex().states.insert(h); }
    inline void state(const std::string& s) { state(hash_str(s)); }
    inline void count(const std::string& name, uint64_t n = 1) { MC_GUARD; ex().counters[name] += n; }
    inline std::string fmt(const char* f, ...)
    {
        MC_GUARD;
        char buf[2048];
        va_list ap;
        va_start(ap, f);
        vsnprintf(buf, sizeof buf, f, ap);
        va_end(ap);
        return buf;
    }
    inline void note(const std::string& s)
    {
        MC_GUARD;
        Explorer& e = ex();
        if (e.trace.size() < 4000) {
            e.trace += s;
            e.trace += "; ";
        }
    }
    [[noreturn]] inline void fail(const std::string& key, const std::string& msg) { throw Fail{key, msg}; }
    inline void check(bool ok, const std::string& key, const std::string& msg = "")
    {
        MC_GUARD;
        ex().asserts++;
        if (!ok)
            fail(key, msg);
    }

    struct Suite {
        std::string name;
        std::function<void()> body;
        int max_shards;
    };
    inline std::vector<Suite>& suites()
    {
        static std::vector<Suite> s;
        return s;
    }
    struct Register {
        Register(const std::string& n, std::function<void()> f, int max_shards = 1) { suites().push_back({n, f, max_shards}); }
    };
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SUITE(...) static ::mc::Register MC_CAT(mc_reg_, __COUNTER__)(__VA_ARGS__)

    inline std::string json(const std::string& s)
    {
        std::string o = "\"";
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') {
                o += '\\';
                o += c;
            }
            else if (c < 32 || c > 126) {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                o += b;
            }
            else
                o += c;
        }
        return o + "\"";
    }
    inline void on_hang(int)
    {
        static const char m[] = "mc: HANG: case exceeded its CPU budget\n";
        if (write(2, m, sizeof m - 1)) {}
        signal(SIGABRT, SIG_DFL);
        abort();
    }
    inline int& case_cpu_seconds()
    {
        static int s = 60;
        return s;
    }
    inline void arm(int secs)
    {
        struct itimerval t;
        memset(&t, 0, sizeof t);
        t.it_value.tv_sec = secs;
        setitimer(ITIMER_PROF, &t, nullptr);
    }
    // runs f in a child process; returns 0 if it returned normally, else a description
    template <typename F>
    inline std::string forked(F f)
    {
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 2);
            arm(case_cpu_seconds());
            int rc = 0;
            try {
                f();
            }
            catch (Fail& x) {
                rc = 41;
            }
            catch (...) {
                rc = 42;
            }
            _exit(rc);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
            return "";
        if (WIFEXITED(st))
            return WEXITSTATUS(st) == 41 ? "wrong result" : "exception";
        return fmt("killed by signal %d", WTERMSIG(st));
    }
    struct Rec {
        std::string key, msg, trace;
        std::vector<int> choices;
        uint64_t index; // number of executions of this process before this one
    };
    inline int main(int argc, char** argv)
    {
        Explorer& e = ex();
        std::string suite, out, progress, replay, statesf;
        bool list = false;
        long long until = -1;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--list") list = true;
            else if (a == "--suite") suite = next();
            else if (a == "--shard") { e.shard = atoi(next().c_str()); }
            else if (a == "--nshards") { e.nshards = atoi(next().c_str()); }
            else if (a == "--tier") e.thorough = next() == "thorough";
            else if (a == "--seed") e.seed = atoi(next().c_str());
            else if (a == "--out") out = next();
            else if (a == "--states") statesf = next();
            else if (a == "--progress") progress = next();
            else if (a == "--until") until = strtoll(next().c_str(), nullptr, 10); // the whole history of the process up to that execution
            else if (a == "--replay") { e.replay = true; replay = next(); }
        }
        if (list) {
            for (auto& s : suites())
                printf("%s %d\n", s.name.c_str(), s.max_shards);
            return 0;
        }
        Suite* su = nullptr;
        for (auto& s : suites())
            if (s.name == suite)
                su = &s;
        if (!su) {
            fprintf(stderr, "no suite %s\n", suite.c_str());
            return 3;
        }
        signal(SIGPROF, on_hang);
        if (!progress.empty()) {
            int fd = open(progress.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
            if (ftruncate(fd, sizeof(Progress)) != 0)
                return 3;
            e.prog = (Progress*)mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            e.prog->magic = 0x4d43;
            snprintf(e.prog->suite, sizeof e.prog->suite, "%s", suite.c_str());
        }
        if (e.replay) {
            std::stringstream ss(replay);
            std::string tok;
            while (std::getline(ss, tok, ','))
                if (!tok.empty())
                    e.choice.push_back(atoi(tok.c_str()));
            e.bound.assign(e.choice.size(), 0);
        }
        std::vector<Rec> recs;
        std::map<std::string, int> per_key;
        std::vector<std::string> samples;
        uint64_t violations = 0;
        bool exhausted = false;
        for (uint64_t index = 0;; ++index) {
            e.pos = 0;
            e.trace.clear();
            bool skipped = false;
            if (e.prog) {
                e.prog->n = e.choice.size();
                for (size_t k = 0; k < e.choice.size() && k < 4000; ++k)
                    e.prog->choice[k] = e.choice[k];
                e.prog->in_case = 1;
            }
            arm(case_cpu_seconds());
            std::string key, msg;
            bool bad = false;
            try {
                su->body();
            }
            catch (Skip&) {
                skipped = true;
            }
            catch (Fail& f) {
                bad = true;
                key = f.key;
                msg = f.msg;
            }
            catch (std::exception& x) {
                bad = true;
                key = "exception";
                msg = std::string("exception: ") + x.what();
            }
            catch (...) {
                bad = true;
                key = "exception";
                msg = "unknown exception";
            }
            if (!skipped) {
                e.executions++;
                if (samples.size() < 2 && !e.trace.empty())
                    samples.push_back(e.trace);
            }
            else
                e.skipped++;
            if (bad) {
                violations++;
                if (++per_key[key] <= 2 && recs.size() < 40)
                    recs.push_back({key, msg, e.trace, std::vector<int>(e.choice.begin(), e.choice.begin() + e.pos), index});
            }
            if (e.replay || (long long)index == until) {
                printf("suite %s\ntrace: %s\n", suite.c_str(), e.trace.c_str());
                if (bad) {
                    printf("REPLAY-VIOLATION key=%s %s\n", key.c_str(), msg.c_str());
                    return 10;
                }
                printf("REPLAY-OK\n");
                return 0;
            }
            if (recs.size() >= 40 && until < 0)
                break;
            // backtrack
            if (!skipped)
                e.checked = e.pos;
            e.choice.resize(e.pos);
            e.bound.resize(e.pos);
            while (!e.choice.empty() && e.choice.back() + 1 >= e.bound.back()) {
                e.choice.pop_back();
                e.bound.pop_back();
            }
            if (e.choice.empty()) {
                exhausted = true;
                break;
            }
            e.choice.back()++;
            e.changed = e.choice.size() - 1;
            e.checked = std::min(e.checked, e.choice.size() - 1);
        }
        arm(0);
        if (!e.trace.empty())
            samples.push_back(e.trace);
        if (!statesf.empty()) {
            FILE* f = fopen(statesf.c_str(), "wb");
            uint64_t salt = hash_str(suite);
            for (uint64_t h : e.states) {
                uint64_t x = h ^ salt;
                fwrite(&x, 8, 1, f);
            }
            fclose(f);
        }
        std::string o = "{";
        o += fmt("\"suite\":%s,\"shard\":%d,\"nshards\":%d,\"executions\":%llu,\"transitions\":%llu,\"states\":%llu,\"asserts\":%llu,\"exhausted\":%s,\"violations\":%llu,", json(suite).c_str(), e.shard, e.nshards, (unsigned long long)e.executions, (unsigned long long)e.transitions, (unsigned long long)e.states.size(), (unsigned long long)e.asserts, exhausted ? "true" : "false", (unsigned long long)violations);
        o += "\"counters\":{";
        bool first = true;
        for (auto& c : e.counters) {
            o += (first ? "" : ",") + json(c.first) + ":" + std::to_string(c.second);
            first = false;
        }
        o += "},\"samples\":[";
        for (size_t i = 0; i < samples.size(); ++i)
            o += (i ? "," : "") + json(samples[i]);
        o += "],\"records\":[";
        for (size_t i = 0; i < recs.size(); ++i) {
            o += (i ? "," : "");
            o += "{\"key\":" + json(recs[i].key) + ",\"msg\":" + json(recs[i].msg) + ",\"trace\":" + json(recs[i].trace) + ",\"choices\":[";
            for (size_t k = 0; k < recs[i].choices.size(); ++k)
                o += (k ? "," : "") + std::to_string(recs[i].choices[k]);
            o += fmt("],\"index\":%llu}", (unsigned long long)recs[i].index);
        }
        o += "]}\n";
        if (out.empty())
            fputs(o.c_str(), stdout);
        else {
            FILE* f = fopen(out.c_str(), "w");
            fputs(o.c_str(), f);
            fclose(f);
        }
        if (e.prog)
            e.prog->in_case = 2; // finished
        return 0;
    }
} // namespace mc
#define MC_MAIN \
    int main(int argc, char** argv) { return ::mc::main(argc, argv); }
#endif
