#include "vf.hpp"

#include <cxxabi.h>
#include <dirent.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>
#include <sys/wait.h>
#include <spawn.h>
#include <typeinfo>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
#endif
#if __has_feature(thread_sanitizer)
#define VF_TSAN 1
extern "C" void __tsan_acquire(void*);
extern "C" void __tsan_release(void*);
#endif
#endif

namespace vf {

std::atomic<std::uint64_t> g_events{0};
std::atomic<std::uint64_t> g_stamp{0};

namespace {

struct scen {
    std::string name;
    int quick, thorough;
    scenario_fn f;
};
std::vector<scen>& scens() {
    static std::vector<scen> v;
    return v;
}
std::vector<void (*)()>& enders() {
    static std::vector<void (*)()> v;
    return v;
}

std::atomic<const char*> g_scenario{""};
std::atomic<std::uint64_t> g_case{0};
std::atomic<std::uint64_t> g_progress{0};
std::atomic<bool> g_reported{false};
std::atomic<bool> g_finished{false};

std::string esc(const std::string& s) {
    std::string o;
    for (char ch : s) {
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += ch;
        } else if (static_cast<unsigned char>(ch) < 32)
            o += ' ';
        else
            o += ch;
    }
    return o;
}

[[noreturn]] void report(const char* kind, const char* key, const char* msg, int code) {
    if (g_reported.exchange(true)) {
        for (;;) pause(); // another thread is reporting
    }
    char buf[4096];
    int n = snprintf(buf, sizeof buf,
                     "@@%s {\"key\":\"%s\",\"scenario\":\"%s\",\"case\":\"%llu\",\"msg\":\"%s\"}\n", kind,
                     esc(key).c_str(), g_scenario.load(),
                     static_cast<unsigned long long>(g_case.load()), esc(msg).substr(0, 3000).c_str());
    fflush(stdout);
    if (write(1, buf, static_cast<std::size_t>(std::min<int>(n, sizeof buf - 1))) < 0) {}
    _exit(code);
}

// perturbation
std::atomic<int> g_level{0};
std::atomic<std::uint64_t> g_ops{0};
std::atomic<std::uint64_t> g_case_ops{0};
std::atomic<std::uint64_t> g_delay_at[4] = {};
std::atomic<std::uint64_t> g_epoch{0};
std::atomic<std::uint64_t> g_seed{1};
std::atomic<std::uint64_t> g_tid{0};

thread_local std::uint64_t t_epoch = ~0ull;
thread_local std::uint64_t t_rng = 0;
thread_local std::uint64_t t_id = 0;
thread_local int t_quiet = 0;
thread_local bool t_busy = false;
thread_local int t_pause = 0;
thread_local long t_pause_us = 0;
thread_local int t_pause_edge = 0;
thread_local long t_edges = 1;

void nap(long us) {
    timespec ts{0, us * 1000};
    nanosleep(&ts, nullptr);
}

} // namespace

reg::reg(const char* name, int q, int t, scenario_fn f) { scens().push_back({name, q, t, f}); }
void at_end(void (*f)()) { enders().push_back(f); }

void fail(const char* key, const char* fmt, ...) {
    char b[3000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    report("VIOLATION", key, b, 10);
}
void inconclusive(const char* fmt, ...) {
    char b[3000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    report("INCONCLUSIVE", "inconclusive", b, 11);
}

void perturb_level(int l) { g_level = l; }
void perturb_quiet(bool off) { t_quiet += off ? 1 : -1; }
std::uint64_t sync_ops() { return g_ops.load(std::memory_order_relaxed); }

void pause_at(int op, long us) {
    t_pause = op;
    t_pause_us = us;
}
void pause_at_edge(int edge, long us) {
    t_pause_edge = edge;
    t_pause_us = us;
    t_edges = edge ? edge : 1;
}

namespace {
void new_epoch() {
    const auto e = g_epoch.load(std::memory_order_relaxed);
    if (t_epoch != e) {
        t_epoch = e;
        if (!t_id) t_id = g_tid.fetch_add(1, std::memory_order_relaxed) + 1;
        t_rng = mix(g_seed.load(std::memory_order_relaxed), t_id);
    }
}
} // namespace

void perturb() {
    if (t_pause && !t_quiet && !t_busy && --t_pause == 0) {
        nap(t_pause_us);
        return;
    }
    const int level = g_level.load(std::memory_order_relaxed);
    if (level == 0 || t_quiet || t_busy) return;
    t_busy = true;
    g_ops.fetch_add(1, std::memory_order_relaxed);
    const auto n = g_case_ops.fetch_add(1, std::memory_order_relaxed);
    new_epoch();
    t_rng = mix(t_rng);
    const auto x = (t_rng >> 20) % 1000;
    if (level >= 3) {
        for (auto& d : g_delay_at)
            if (d.load(std::memory_order_relaxed) == n + 1) {
                nap(500 + static_cast<long>(t_rng % 1500));
                t_busy = false;
                return;
            }
    }
    if (level >= 2 && x < 25)
        nap(1 + static_cast<long>(t_rng % 60));
    else if (x < 150)
        sched_yield();
    t_busy = false;
}

// Called now and then in the code of the library itself, between any two of its blocks: preemptions are not confined to
// the synchronisation operations.
namespace {
std::atomic<std::uint32_t> g_edge_count{0};
std::atomic<std::uint64_t> g_edge_delays{0};
constexpr std::uint32_t max_edges = 1u << 20;
unsigned char g_edge_hit[max_edges] = {};

void edge_due() {
    if (t_pause_edge) {
        t_pause_edge = 0;
        t_edges = 500;
        if (!t_quiet && !t_busy) nap(t_pause_us);
        return;
    }
    const int level = g_level.load(std::memory_order_relaxed);
    if (level == 0 || t_quiet || t_busy) {
        t_edges = 300;
        return;
    }
    t_busy = true;
    new_epoch();
    t_rng = mix(t_rng);
    const auto x = (t_rng >> 20) % 1000;
    t_edges = 20 + static_cast<long>((t_rng >> 40) % (level >= 2 ? 600 : 1500));
    if (level >= 2 && x < 60) {
        g_edge_delays.fetch_add(1, std::memory_order_relaxed);
        nap(level >= 3 && x < 4 ? 300 + static_cast<long>(t_rng % 700) : 1 + static_cast<long>(t_rng % 40));
    } else if (x < 250) {
        g_edge_delays.fetch_add(1, std::memory_order_relaxed);
        sched_yield();
    }
    t_busy = false;
}
} // namespace

void spin_us(int us) {
    const auto end = now_ns() + static_cast<std::uint64_t>(us) * 1000;
    while (now_ns() < end) {}
}

namespace {
std::mutex& dog() {
    static std::mutex m;
    return m;
}
} // namespace
std::size_t live_bytes() {
#if VF_ASAN
    quiet q;
    std::lock_guard<std::mutex> l(dog()); // the watchdog allocates too
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}

void run_child(ctx& c, const char* scenario, std::uint64_t id) {
    quiet q;
    char exe[512];
    const auto n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    if (n <= 0) inconclusive("no /proc/self/exe");
    exe[n] = 0;
    const std::string sid = std::to_string(id);
    const char* argv[] = {exe, "--only", scenario, "--case", sid.c_str(), "--tier", c.tier ? "thorough" : "quick",
                          "--limit", "60", nullptr};
    int fd[2];
    if (pipe2(fd, O_CLOEXEC)) inconclusive("pipe");
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, fd[1], 1);
    posix_spawn_file_actions_adddup2(&fa, fd[1], 2);
    pid_t pid = 0;
    if (posix_spawn(&pid, exe, &fa, nullptr, const_cast<char**>(argv), environ)) inconclusive("posix_spawn");
    posix_spawn_file_actions_destroy(&fa);
    close(fd[1]);
    std::string out;
    char buf[4096];
    for (;;) {
        const auto k = read(fd[0], buf, sizeof buf);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) break;
        out.append(buf, static_cast<std::size_t>(k));
    }
    close(fd[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    const auto done = out.find("@@DONE");
    if (st != 0 || done == std::string::npos) {
        if (!g_reported.exchange(true)) {
            fflush(stdout);
            if (write(1, out.data(), out.size()) < 0) {}
            _exit(WIFEXITED(st) && WEXITSTATUS(st) ? WEXITSTATUS(st) : 66);
        }
        for (;;) pause();
    }
    auto field = [&](const char* k) -> std::uint64_t {
        const auto p = out.find(k, done);
        return p == std::string::npos ? 0 : strtoull(out.c_str() + p + strlen(k), nullptr, 10);
    };
    event(field("\"events\":"));
    g_ops += field("\"sync_ops\":");
    c.see(field("\"sig\":"));
    if (field("\"nontrivial\":")) c.nontrivial = true;
    const auto sm = out.find("\"samples\":[\"", done);
    if (sm != std::string::npos) c.note = out.substr(sm + 12, out.find("\"]", sm) - sm - 12);
}

// stall detection --------------------------------------------------------------------------------
// A stall is: no thread (except the watchdog and the threads of the sanitizer runtime) is runnable
// or has been scheduled at all over the observation period. It does not depend on how loaded the
// machine is: a thread that has work but gets no cpu is runnable.
namespace {

std::set<long> tasks() {
    std::set<long> r;
    if (DIR* d = opendir("/proc/self/task")) {
        while (dirent* e = readdir(d))
            if (e->d_name[0] != '.') r.insert(atol(e->d_name));
        closedir(d);
    }
    return r;
}

// false if a thread is runnable
bool activity(const std::set<long>& ignore, std::uint64_t& digest) {
    digest = 0;
    for (long t : tasks()) {
        if (ignore.count(t)) continue;
        char path[64], buf[2048];
        snprintf(path, sizeof path, "/proc/self/task/%ld/status", t);
        FILE* f = fopen(path, "r");
        if (!f) return false;
        unsigned long long v = 0;
        char state = 'R';
        bool seen = false;
        while (fgets(buf, sizeof buf, f)) {
            if (!strncmp(buf, "State:", 6)) {
                char* p = buf + 6;
                while (*p == ' ' || *p == '\t') ++p;
                state = *p;
            }
            unsigned long long x;
            if (sscanf(buf, "voluntary_ctxt_switches: %llu", &x) == 1 ||
                sscanf(buf, "nonvoluntary_ctxt_switches: %llu", &x) == 1) {
                v += x;
                seen = true;
            }
        }
        fclose(f);
        if (state != 'S' || !seen) return false;
        digest = mix(digest, mix(static_cast<std::uint64_t>(t), v));
    }
    return true;
}

void watchdog(std::set<long> ignore, long limit_s) {
    t_quiet = 1;
    ignore.insert(static_cast<long>(syscall(SYS_gettid)));
    std::uint64_t last_progress = 0, last_digest = 0;
    int still = 0;
    auto last_change = now_ns();
    for (;;) {
        nap(200000);
        if (g_finished) return;
        const auto p = g_progress.load();
        if (p != last_progress) {
            last_progress = p;
            last_change = now_ns();
            still = 0;
        }
        std::uint64_t d = 0;
        bool idle = false;
        {
            std::lock_guard<std::mutex> l(dog());
            idle = activity(ignore, d);
        }
        if (idle && d == last_digest)
            ++still;
        else
            still = 0;
        last_digest = d;
        if (still >= 25 && !g_finished)
            report("VIOLATION", "stall",
                   "all threads are blocked and nothing can make progress (lost wakeup, lost task or deadlock)",
                   10);
        if (now_ns() - last_change > static_cast<std::uint64_t>(limit_s) * 1000000000ull)
            report("HANG", "hang", "a case did not finish within the time limit although threads are active", 12);
    }
}

[[noreturn]] void on_terminate() {
    std::string m = "std::terminate";
    if (auto* t = abi::__cxa_current_exception_type()) {
        m += " with exception of type ";
        m += t->name();
        try {
            throw;
        } catch (const std::exception& e) {
            m += std::string(": ") + e.what();
        } catch (...) {
        }
    }
    report("VIOLATION", "terminate", m.c_str(), 10);
}

} // namespace
} // namespace vf

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(std::uint32_t* a, std::uint32_t* b) {
    if (a == b || *a) return;
    for (; a < b; ++a) *a = vf::g_edge_count.fetch_add(1, std::memory_order_relaxed) % (vf::max_edges - 1) + 1;
}
__attribute__((no_sanitize("address", "undefined", "thread"))) void __sanitizer_cov_trace_pc_guard(std::uint32_t* g) {
    if (!__atomic_load_n(&vf::g_edge_hit[*g], __ATOMIC_RELAXED)) __atomic_store_n(&vf::g_edge_hit[*g], 1, __ATOMIC_RELAXED);
    if (--vf::t_edges <= 0) vf::edge_due();
}
#define VF_WRAP_INT(name, type)                    \
    int __real_##name(type*);                      \
    int __wrap_##name(type* m) {                   \
        vf::perturb();                             \
        const int r = __real_##name(m);            \
        return r;                                  \
    }
VF_WRAP_INT(pthread_mutex_lock, pthread_mutex_t)
VF_WRAP_INT(pthread_mutex_trylock, pthread_mutex_t)
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    const int r = __real_pthread_mutex_unlock(m);
    vf::perturb();
    return r;
}
void __real__ZNSt18condition_variable10notify_oneEv(void*);
void __wrap__ZNSt18condition_variable10notify_oneEv(void* c) {
    vf::perturb();
    __real__ZNSt18condition_variable10notify_oneEv(c);
}
void __real__ZNSt18condition_variable10notify_allEv(void*);
void __wrap__ZNSt18condition_variable10notify_allEv(void* c) {
    vf::perturb();
    __real__ZNSt18condition_variable10notify_allEv(c);
}
#if VF_TSAN
// The reference count of exception objects lives in the uninstrumented C++ runtime.
void __real__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void*);
void __wrap__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void* self) {
    void* obj = *static_cast<void**>(self);
    if (obj) {
        __tsan_release(obj);
        __tsan_acquire(obj);
    }
    __real__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(self);
}
void __real___cxa_end_catch();
void __wrap___cxa_end_catch() {
    auto* g = reinterpret_cast<void**>(abi::__cxa_get_globals());
    // caughtExceptions is the first member; the adjusted object identifies the primary exception
    (void)g;
    std::exception_ptr p = std::current_exception(); // extra reference, released through the wrapper
    __real___cxa_end_catch();
}
#endif
}

int main(int argc, char** argv) {
    using namespace vf;
    std::uint64_t seed = 1;
    int tier = 0;
    double scale = 1;
    std::string only;
    std::string replay;
    long limit = 90;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed")
            seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--tier")
            tier = val() == "thorough";
        else if (a == "--scale")
            scale = atof(val().c_str());
        else if (a == "--only")
            only = val();
        else if (a == "--case")
            replay = val();
        else if (a == "--limit")
            limit = atol(val().c_str());
        else
            return 2;
    }
    std::set_terminate(on_terminate);
    std::set<long> ignore = tasks();
    ignore.erase(static_cast<long>(getpid()));
    std::thread(watchdog, ignore, limit).detach();
    // only library and harness threads are perturbed, not the sanitizer runtime
    std::uint64_t evaluations = 0, nontrivial = 0;
    std::set<std::uint64_t> distinct;
    std::uint64_t last_sig = 0;
    std::string per;
    std::vector<std::string> samples;
    std::uint64_t prev_ops = 200;
    for (auto& s : scens()) {
        if (!only.empty() && only != s.name) continue;
        int n = static_cast<int>((tier ? s.thorough : s.quick) * scale + 0.999);
        g_scenario = s.name.c_str();
        std::uint64_t base = mix(seed, std::hash<std::string>{}(s.name));
        if (!replay.empty() && n < 1) n = 1;
        std::set<std::uint64_t> dist;
        std::uint64_t nt = 0;
        bool sampled = false;
        const auto t0 = now_ns();
        for (int i = 0; i < n; ++i) {
            ctx c{rng(0), {}, 0};
            c.scenario = s.name;
            c.tier = tier;
            c.id = replay.empty() ? mix(base, static_cast<std::uint64_t>(i)) :
                                    strtoull(replay.c_str(), nullptr, 10);
            c.r = rng(c.id);
            g_case = c.id;
            g_seed = mix(c.id, 77);
            ++g_epoch;
            g_case_ops = 0;
            for (auto& d : g_delay_at) d = 1 + mix(c.id, mix(99, static_cast<std::uint64_t>(&d - g_delay_at))) % (prev_ops * 5 / 4 + 8);
            s.f(c);
            last_sig = c.sig;
            perturb_level(0);
            prev_ops = std::max<std::uint64_t>(20, g_case_ops.load());
            ++g_progress;
            ++evaluations;
            if (c.nontrivial) {
                ++nt;
                dist.insert(mix(c.sig, base));
                if (!sampled && !c.note.empty() && i >= n / 3) {
                    samples.push_back(s.name + " case " + std::to_string(c.id) + ": " + c.note);
                    sampled = true;
                }
            }
        }
        char b[300];
        snprintf(b, sizeof b, "%s{\"scenario\":\"%s\",\"cases\":%d,\"nontrivial\":%llu,\"distinct\":%llu,\"ms\":%llu}",
                 per.empty() ? "" : ",", s.name.c_str(), n, static_cast<unsigned long long>(nt),
                 static_cast<unsigned long long>(dist.size()),
                 static_cast<unsigned long long>((now_ns() - t0) / 1000000));
        per += b;
        nontrivial += nt;
        distinct.insert(dist.begin(), dist.end());
    }
    g_scenario = "at_end";
    g_case = 0;
    for (auto f : enders()) f();
    g_finished = true;
    std::string sm;
    for (auto& s : samples) sm += (sm.empty() ? "\"" : ",\"") + esc(s).substr(0, 600) + "\"";
    std::uint64_t edges_hit = 0;
    for (auto& h : g_edge_hit) edges_hit += __atomic_load_n(&h, __ATOMIC_RELAXED);
    printf("@@DONE {\"edges\":%u,\"edges_hit\":%llu,\"edge_delays\":%llu,\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"events\":%llu,\"sync_ops\":%llu,"
           "\"sig\":%llu,\"scenarios\":[%s],\"samples\":[%s]}\n",
           g_edge_count.load(), static_cast<unsigned long long>(edges_hit),
           static_cast<unsigned long long>(g_edge_delays.load()), static_cast<unsigned long long>(evaluations),
           static_cast<unsigned long long>(nontrivial), static_cast<unsigned long long>(distinct.size()),
           static_cast<unsigned long long>(g_events.load()), static_cast<unsigned long long>(g_ops.load()),
           static_cast<unsigned long long>(last_sig), per.c_str(), sm.c_str());
    fflush(stdout);
    _exit(0);
}
