// Monitor runtime shared by all workloads: seeded random numbers, verdicts, operation log, coverage accounting.
#pragma once

// what a node needs besides its elements and children (run.py measures it; more when something is added to the nodes)
#ifndef NODE_HDR
#define NODE_HDR 8
#endif

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <csignal>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_set>
#include <unordered_map>
#include <map>
#include <exception>
#include <utility>
#include <unistd.h>

namespace mon {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    // uniform in [0,n)
    uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
    long range(long lo, long hi) { return lo + static_cast<long>(below(static_cast<uint64_t>(hi - lo + 1))); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
    Rng r(a * 0x100000001B3ULL ^ (b + 0x7F4A7C15ULL));
    r.next();
    return r.next();
}
inline uint64_t hash_str(char const* s) {
    uint64_t h = 1469598103934665603ULL;
    for (; *s; ++s) h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ULL;
    return h;
}

// property tags: C01 -> 1 ...
enum Tag { NONE = 0, C01 = 1, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16, C17, C18, C19, C20, C21, NTAGS };

struct OpRec { char const* op; long a, b, c; };

struct State {
    uint64_t seed = 1;
    long episodes = 20;
    long scale = 100;          // percent of the normal amount of work
    long only_episode = -1;
    bool enabled[NTAGS]{};
    char const* cfg = "?";
    long episode = -1;
    long step = 0;
    Tag cur = NONE;
    char const* cur_op = "start";
    OpRec ring[64]{};
    unsigned ring_n = 0;
    uint64_t evaluations = 0;      // oracle evaluations (comparisons of an observation with the expected one)
    uint64_t steps = 0;
    uint64_t aborted_episodes = 0;
    uint64_t completed_episodes = 0;
    std::map<std::string, uint64_t> foreign;   // mismatches that belong to another property
    std::unordered_set<uint64_t> contexts;
    std::map<std::string, uint64_t> counters;
    std::unordered_map<char const*, uint64_t> op_counts;
    std::vector<std::string> samples;
    std::vector<std::string> known;
};
inline State& S() { static State s; return s; }

struct EpisodeAbort {};

inline void log_op(char const* op, long a = 0, long b = 0, long c = 0) {
    State& s = S();
    s.ring[s.ring_n++ % 64] = OpRec{op, a, b, c};
    s.cur_op = op;
}

inline std::string esc(std::string const& in) {
    std::string o;
    for (char ch : in) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (static_cast<unsigned char>(ch) < 32) o += ' ';
        else if (static_cast<unsigned char>(ch) > 126) o += '?';
        else o += ch;
    }
    return o;
}

inline std::string ring_text(unsigned max = 40) {
    State& s = S();
    std::string o;
    unsigned n = s.ring_n < 64 ? s.ring_n : 64;
    if (n > max) n = max;
    for (unsigned i = s.ring_n - n; i != s.ring_n; ++i) {
        OpRec const& r = s.ring[i % 64];
        char buf[160];
        snprintf(buf, sizeof buf, "%s(%ld,%ld,%ld); ", r.op ? r.op : "?", r.a, r.b, r.c);
        o += buf;
    }
    return o;
}

inline char const* tag_name(int t) {
    static char names[NTAGS][4];
    snprintf(names[t], 4, "C%02d", t);
    return names[t];
}

inline bool on(Tag t) { return S().enabled[t]; }

[[noreturn]] inline void die_violation(Tag t, std::string const& msg) {
    State& s = S();
    printf("RESULT {\"verdict\":\"violation\",\"tag\":\"%s\",\"cfg\":\"%s\",\"seed\":%llu,\"episode\":%ld,\"step\":%ld,\"op\":\"%s\",\"msg\":\"%s\",\"trace\":\"%s\"}\n",
           tag_name(t), s.cfg, static_cast<unsigned long long>(s.seed), s.episode, s.step, s.cur_op, esc(msg).c_str(), esc(ring_text()).c_str());
    fflush(stdout);
    _exit(10);
}

// A mismatch that refutes property t. If this run does not decide t the episode is given up without a verdict.
[[noreturn]] inline void fail(Tag t, std::string const& msg) {
    if (on(t)) die_violation(t, msg);
    State& s = S();
    s.foreign[std::string(tag_name(t)) + ": " + msg.substr(0, 60)]++;
    throw EpisodeAbort{};
}

[[gnu::format(printf, 2, 3)]] [[noreturn]] inline void failf(Tag t, char const* fmt, ...) {
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    fail(t, buf);
}

inline void ev(uint64_t n = 1) { S().evaluations += n; }

#define MON_CHECK(tag, cond, ...) do { ::mon::ev(); if (!(cond)) ::mon::failf(tag, __VA_ARGS__); } while (0)

inline void context(uint64_t h) { S().contexts.insert(mix(h, hash_str(S().cfg))); }

inline void print_where(char const* kind) {
    State& s = S();
    char buf[4096];
    // no allocation here
    int n = snprintf(buf, sizeof buf, "\nRESULT {\"verdict\":\"%s\",\"tag\":\"C%02d\",\"cfg\":\"%s\",\"seed\":%llu,\"episode\":%ld,\"step\":%ld,\"op\":\"%s\",\"trace\":\"", kind,
                     static_cast<int>(s.cur), s.cfg, static_cast<unsigned long long>(s.seed), s.episode, s.step, s.cur_op);
    unsigned cnt = s.ring_n < 64 ? s.ring_n : 64;
    if (cnt > 24) cnt = 24;
    for (unsigned i = s.ring_n - cnt; i != s.ring_n && n < 3800; ++i) {
        OpRec const& r = s.ring[i % 64];
        n += snprintf(buf + n, sizeof buf - static_cast<size_t>(n), "%s(%ld,%ld,%ld); ", r.op ? r.op : "?", r.a, r.b, r.c);
    }
    n += snprintf(buf + n, sizeof buf - static_cast<size_t>(n), "\"}\n");
    fflush(stdout);
    ssize_t w = write(1, buf, static_cast<size_t>(n));
    (void) w;
}

inline volatile sig_atomic_t reported = 0;
inline void on_death() { if (!reported) { reported = 1; print_where("crash"); } }
inline void on_signal(int sig) {
    if (!reported) { reported = 1; print_where(sig == SIGXCPU ? "hang" : "crash"); }
    _exit(sig == SIGXCPU ? 11 : 12);
}
}

#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer) || __has_feature(thread_sanitizer)
#define MON_SANITIZED 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define MON_SANITIZED 1
#endif
#ifdef MON_SANITIZED
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

namespace mon {
[[noreturn]] inline void on_terminate() {
    if (!reported) { reported = 1; print_where("crash"); }
    fprintf(stderr, "std::terminate called\n");
    _exit(12);
}

inline void init(int argc, char** argv) {
    State& s = S();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> char const* { return i + 1 < argc ? argv[++i] : "0"; };
        if (a == "--seed") s.seed = strtoull(val(), nullptr, 10);
        else if (a == "--episodes") s.episodes = strtol(val(), nullptr, 10);
        else if (a == "--scale") s.scale = strtol(val(), nullptr, 10);
        else if (a == "--only") s.only_episode = strtol(val(), nullptr, 10);
        else if (a == "--tags") {
            std::string t = val();
            for (size_t p = 0; p + 2 < t.size() + 0; p += 4) {
                int n = atoi(t.c_str() + p + 1);
                if (n > 0 && n < NTAGS) s.enabled[n] = true;
            }
        } else { fprintf(stderr, "unknown argument %s\n", a.c_str()); exit(3); }
    }
#ifdef MON_SANITIZED
    __sanitizer_set_death_callback(on_death);
#else
    signal(SIGSEGV, on_signal); signal(SIGBUS, on_signal); signal(SIGFPE, on_signal); signal(SIGILL, on_signal);
#endif
    signal(SIGABRT, on_signal);
    signal(SIGXCPU, on_signal);
    std::set_terminate(on_terminate);
    setvbuf(stdout, nullptr, _IOLBF, 0);
}

inline void sample(std::string const& s) { if (S().samples.size() < 4) S().samples.push_back(s); }

inline int finish() {
    State& s = S();
    printf("RESULT {\"verdict\":\"held\",\"seed\":%llu,\"evaluations\":%llu,\"steps\":%llu,\"episodes\":%llu,\"aborted\":%llu,\"contexts\":[",
           static_cast<unsigned long long>(s.seed), static_cast<unsigned long long>(s.evaluations), static_cast<unsigned long long>(s.steps),
           static_cast<unsigned long long>(s.completed_episodes), static_cast<unsigned long long>(s.aborted_episodes));
    bool first = true;
    for (uint64_t c : s.contexts) { printf("%s%llu", first ? "" : ",", static_cast<unsigned long long>(c)); first = false; }
    printf("],\"ops\":{");
    first = true;
    std::map<std::string, uint64_t> ops;
    for (auto const& o : s.op_counts) ops[o.first] += o.second;
    for (auto const& o : ops) { printf("%s\"%s\":%llu", first ? "" : ",", o.first.c_str(), static_cast<unsigned long long>(o.second)); first = false; }
    printf("},\"counters\":{");
    first = true;
    for (auto const& o : s.counters) { printf("%s\"%s\":%llu", first ? "" : ",", o.first.c_str(), static_cast<unsigned long long>(o.second)); first = false; }
    printf("},\"foreign\":{");
    first = true;
    for (auto const& o : s.foreign) { printf("%s\"%s\":%llu", first ? "" : ",", esc(o.first).c_str(), static_cast<unsigned long long>(o.second)); first = false; }
    printf("},\"samples\":[");
    first = true;
    for (auto const& o : s.samples) { printf("%s\"%s\"", first ? "" : ",", esc(o).c_str()); first = false; }
    printf("],\"known\":[");
    first = true;
    for (auto const& o : s.known) { printf("%s\"%s\"", first ? "" : ",", esc(o).c_str()); first = false; }
    printf("]}\n");
    fflush(stdout);
    return 0;
}

// Runs body(rng) once per episode; an episode is a pure function of (seed, cfg, episode number).
template <class F>
void episodes(char const* cfg, long n, F&& body) {
    State& s = S();
    s.cfg = cfg;
    for (long e = 0; e < n; ++e) {
        if (s.only_episode >= 0 && e != s.only_episode) continue;
        s.episode = e;
        s.step = 0;
        s.ring_n = 0;
        Rng rng(mix(mix(s.seed, hash_str(cfg)), static_cast<uint64_t>(e)));
        try {
            body(rng);
            s.completed_episodes++;
        } catch (EpisodeAbort const&) {
            s.aborted_episodes++;
        } catch (std::exception const& ex) {
            // a legal operation threw
            Tag t = s.cur == NONE ? C01 : s.cur;
            std::string m = std::string("unexpected exception from a legal operation: ") + ex.what();
            if (on(C13) && !on(t)) t = C13;
            if (on(t)) die_violation(t, m);
            s.foreign[m]++;
            s.aborted_episodes++;
        }
    }
}
}
