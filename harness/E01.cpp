// E01: the default executor runs every task exactly once and drains before it is destroyed.
#include "vf_pool.hpp"
using namespace vf;
using namespace stlab;

namespace {
std::deque<pool_case> g_all;
void verify(pool_case& p, const char* when) {
    std::size_t i = 0;
    for (auto& n : p.nodes) {
        VF_CHECK(n.runs.load() == 1, "runs", "%s: task %zu ran %d times", when, i, n.runs.load());
        VF_CHECK(n.live.load() == 0 && n.made.load() == 1, "live", "%s: the callable of task %zu is alive %d times", when, i,
                 n.live.load());
        ++i;
    }
}
void at_last() {
    for (auto& p : g_all) verify(p, "at the end");
}
struct at_end_reg {
    at_end_reg() { at_end(&at_last); }
} aer;

// trees of tasks from several threads at once
void generate(ctx& c, pool_case& p, int max_nodes) {
    int budget = c.r.range(5, max_nodes);
    int awaits = c.r.chance(60) ? c.r.range(1, 4) : 0;
    while (budget > 0) p.roots.push_back(p.make(c.r, c.r.range(0, 6), budget, awaits));
}
} // namespace

VF_SCENARIO(storm, 300, 3000) {
    perturb_level(static_cast<int>(c.r.below(4)));
    auto& p = g_all.emplace_back();
    generate(c, p, 400);
    const int nt = c.r.range(1, 6);
    start_line go(nt);
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t)
        ts.emplace_back([&, t] {
            go.arrive();
            for (std::size_t i = static_cast<std::size_t>(t); i < p.roots.size(); i += static_cast<std::size_t>(nt))
                submit(*p.roots[i]);
        });
    for (auto& t : ts) t.join();
    p.ran.wait(static_cast<long>(p.nodes.size()));
    p.gone.wait(static_cast<long>(p.nodes.size()));
    verify(p, "after a storm");
    c.nontrivial = p.nodes.size() > 1;
    c.see(p.nodes.size());
    c.see(static_cast<std::uint64_t>(nt));
    c.note = std::to_string(p.nodes.size()) + " tasks in " + std::to_string(p.roots.size()) + " trees submitted by " +
             std::to_string(nt) + " threads";
}

// a burst onto an idle pool: waking the workers must not lose a task
// more tasks than small counters hold, from several threads, while all workers are busy or not
VF_SCENARIO(many, 2, 40) {
    perturb_level(0);
    const int threads = c.r.range(1, 4), per = c.r.range(70000, 90000) / threads;
    const bool blocked = c.r.chance(50);
    std::vector<std::atomic<unsigned char>> ran(static_cast<std::size_t>(threads * per));
    gate open, done;
    const int workers = blocked ? static_cast<int>(std::thread::hardware_concurrency()) : 0;
    std::atomic<long> left{static_cast<long>(ran.size()) + workers};
    for (int i = 0; i < workers; ++i)
        default_executor([&]() noexcept {
            open.wait(1);
            if (--left == 0) done.add();
        });
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; ++t)
        ts.emplace_back([&, t] {
            for (int i = 0; i < per; ++i) {
                const auto me = static_cast<std::size_t>(t * per + i);
                auto f = [&, me]() noexcept {
                    if (ran[me].fetch_add(1, std::memory_order_relaxed)) fail("runs", "task %zu ran twice", me);
                    if ((me & 1023) == 0) event();
                    if (--left == 0) done.add();
                };
                switch (i % 5) {
                case 0: low_executor(f); break;
                case 1: high_executor(f); break;
                default: default_executor(f);
                }
            }
        });
    for (auto& t : ts) t.join();
    open.add();
    done.wait(1);
    for (auto& r : ran) VF_CHECK(r == 1, "runs", "a task ran %d times", r.load());
    c.nontrivial = true;
    c.see(static_cast<std::uint64_t>(threads * 100000 + per));
}
VF_SCENARIO(idle_burst, 1500, 12000) {
    perturb_level(static_cast<int>(c.r.below(4)));
    auto& p = g_all.emplace_back();
    const int n = c.r.range(1, 12);
    for (int i = 0; i < n; ++i) {
        int b = 1, a = 0;
        p.roots.push_back(p.make(c.r, 0, b, a));
    }
    const bool two = n > 1 && c.r.chance(50);
    auto half = [&](int from, int step) {
        for (int i = from; i < n; i += step) submit(*p.roots[static_cast<std::size_t>(i)]);
    };
    if (two) {
        start_line go(2);
        std::thread t([&] {
            go.arrive();
            half(1, 2);
        });
        go.arrive();
        half(0, 2);
        t.join();
    } else
        half(0, 1);
    p.ran.wait(n);
    p.gone.wait(n);
    verify(p, "after a burst");
    c.nontrivial = true;
    c.see(static_cast<std::uint64_t>(n * 2 + two));
}

// pre_exit returns only after everything has run (once per process)
VF_SCENARIO(drain_child, 0, 0) {
    perturb_level(static_cast<int>(c.r.below(4)));
    static pool_case p, hp;
    generate(c, p, 300);
    const bool with_handler = c.r.chance(40);
    if (with_handler) {
        int b = c.r.range(1, 20), a = 1;
        while (b > 0) hp.roots.push_back(hp.make(c.r, 3, b, a));
    }
    const int nt = c.r.range(0, 3);
    const int nap = c.r.chance(40) ? c.r.range(0, 400) : 0;
    if (c.r.chance(30)) default_executor([]() noexcept {});
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t)
        ts.emplace_back([&, t] {
            for (std::size_t i = static_cast<std::size_t>(t); i < p.roots.size(); i += static_cast<std::size_t>(nt + 1))
                submit(*p.roots[i]);
        });
    for (std::size_t i = static_cast<std::size_t>(nt); i < p.roots.size(); i += static_cast<std::size_t>(nt + 1))
        submit(*p.roots[i]);
    for (auto& t : ts) t.join();
    if (with_handler)
        at_pre_exit([]() noexcept {
            for (auto* n : hp.roots) submit(*n);
        });
    if (nap) std::this_thread::sleep_for(std::chrono::microseconds(nap));
    const auto before = p.ran.count();
    pre_exit();
    verify(p, "when pre_exit returned");
    if (with_handler) verify(hp, "submitted by a handler, when pre_exit returned");
    c.nontrivial = before < static_cast<long>(p.nodes.size());
    c.see(p.nodes.size());
    c.see(static_cast<std::uint64_t>(before));
    c.note = std::to_string(p.nodes.size()) + " tasks, " + std::to_string(before) + " had run when pre_exit was called";
}
// a task waits many times while the pool drains
VF_SCENARIO(await_drain_child, 0, 0) {
    perturb_level(static_cast<int>(c.r.below(4)));
    static std::atomic<int> a{0}, b{0};
    static int lanes, rounds, nap;
    lanes = c.r.range(1, 3);
    rounds = c.r.range(1, 120);
    nap = c.r.chance(50) ? c.r.range(1, 300) : 0;
    for (int i = 0; i < lanes; ++i)
        default_executor([]() noexcept {
            for (int k = 0; k < rounds; ++k) {
                auto f = async(low_executor, [k] {
                    if (nap && k % 4 == 0) std::this_thread::sleep_for(std::chrono::microseconds(nap));
                    b += 1;
                    return k;
                });
                const int v = await(std::move(f));
                VF_CHECK(v == k, "await", "await returned %d instead of %d", v, k);
                a += 1;
                event();
            }
        });
    pre_exit();
    VF_CHECK(a == lanes * rounds && b == lanes * rounds, "runs", "when pre_exit returned %d of %d tasks had run and %d were awaited",
             b.load(), lanes * rounds, a.load());
    c.nontrivial = true;
    c.see(static_cast<std::uint64_t>(lanes * 1000 + rounds));
    c.note = std::to_string(lanes) + " tasks wait " + std::to_string(rounds) + " times while the pool drains";
}
VF_SCENARIO(await_drain, 16, 300) { run_child(c, "await_drain_child", c.r.next()); }
VF_SCENARIO(drain, 48, 600) { run_child(c, "drain_child", c.r.next()); }
