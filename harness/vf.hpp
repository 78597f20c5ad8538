// Common harness runtime: seeded cases, event counting, schedule perturbation, stall detection.
#pragma once
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <utility>
#include <vector>

namespace vf {

inline std::uint64_t mix(std::uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline std::uint64_t mix(std::uint64_t a, std::uint64_t b) { return mix(a ^ mix(b)); }

struct rng {
    std::uint64_t s;
    explicit rng(std::uint64_t seed = 1) : s(seed) {}
    std::uint64_t next() { return s = mix(s); }
    // [0, n)
    std::uint64_t below(std::uint64_t n) { return n ? (next() >> 11) % n : 0; }
    // [a, b]
    int range(int a, int b) { return a + static_cast<int>(below(static_cast<std::uint64_t>(b - a + 1))); }
    bool chance(int percent) { return static_cast<int>(below(100)) < percent; }
    template <class V>
    auto& pick(V& v) { return v[below(v.size())]; }
    template <class V>
    void shuffle(V& v) {
        for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
    }
};

struct ctx {
    rng r;
    std::string scenario;
    std::uint64_t id;      // case seed, replays the case
    int tier = 0;          // 0 quick, 1 thorough
    bool nontrivial = false;
    std::uint64_t sig = 0; // signature of what was observed
    void see(std::uint64_t x) { sig = mix(sig, x); }
    std::string note; // a written out sample
};

using scenario_fn = void (*)(ctx&);
// weight: number of cases per unit of budget
struct reg {
    reg(const char* name, int quick_cases, int thorough_cases, scenario_fn f);
};
#define VF_SCENARIO(name, quick, thorough)                                  \
    static void name(vf::ctx& c);                                           \
    static vf::reg reg_##name{#name, quick, thorough, &name};               \
    static void name([[maybe_unused]] vf::ctx& c)

// reports a violation and ends the process
[[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define VF_CHECK(cond, key, ...)                \
    do {                                        \
        if (!(cond)) vf::fail(key, __VA_ARGS__); \
    } while (0)
// the harness itself cannot decide
[[noreturn]] void inconclusive(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

extern std::atomic<std::uint64_t> g_events; // monitored events
inline void event(std::uint64_t n = 1) { g_events.fetch_add(n, std::memory_order_relaxed); }

// perturbation -----------------------------------------------------------------------------------
// level 0: off, 1: light (yield), 2: yields and short sleeps, 3: as 2, plus a few long delays
void perturb_level(int level);
void perturb();                // a possible delay
void perturb_quiet(bool off); // this thread
void pause_at(int op, long us); // this thread is preempted at its op-th synchronisation operation from here (0: no more)
void pause_at_edge(int edge, long us); // the same in the edge-th block of library code from here
struct quiet {
    quiet() { perturb_quiet(true); }
    ~quiet() { perturb_quiet(false); }
};
std::uint64_t sync_ops(); // synchronisation operations seen so far

// ordering stamps that add no happens-before edge
extern std::atomic<std::uint64_t> g_stamp;
inline std::uint64_t stamp() { return g_stamp.fetch_add(1, std::memory_order_relaxed) + 1; }

// blocking wait, never polls (so that a stall is visible as such)
class gate {
    std::mutex _m;
    std::condition_variable _c;
    long _n = 0;

public:
    void add(long n = 1) {
        std::lock_guard<std::mutex> l(_m);
        _n += n;
        _c.notify_all();
    }
    void wait(long n) {
        std::unique_lock<std::mutex> l(_m);
        _c.wait(l, [&] { return _n >= n; });
    }
    long count() {
        std::lock_guard<std::mutex> l(_m);
        return _n;
    }
};

// makes a number of threads start together
class start_line {
    std::atomic<int> _n;

public:
    explicit start_line(int n) : _n(n) {}
    void arrive() {
        _n.fetch_sub(1);
        while (_n.load() > 0) std::this_thread::yield();
    }
};

inline std::uint64_t now_ns() {
    return static_cast<std::uint64_t>(std::chrono::duration_cast<std::chrono::nanoseconds>(
                                          std::chrono::steady_clock::now().time_since_epoch())
                                          .count());
}
void spin_us(int us);

// bytes currently allocated as seen by the sanitizer, 0 if unknown
std::size_t live_bytes();

// runs one case of a scenario in a process of its own (for what can be done once per process) and
// hands on what it reports; the scenario is registered with 0 cases
void run_child(ctx& c, const char* scenario, std::uint64_t id);

// run when all cases of all scenarios are done (before exit)
void at_end(void (*)());

constexpr bool tsan =
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
    true
#else
    false
#endif
#else
    false
#endif
    ;

} // namespace vf
