// E06: blocking in await does not stop the pool.
#include "vf_pool.hpp"

#include <stlab/concurrency/executor_base.hpp>
#include <stlab/concurrency/system_timer.hpp>
using namespace vf;
using namespace stlab;

namespace {
unsigned cores() {
#if STLAB_TASK_POOL_MAXIMUM() > 0
    return std::min<unsigned>(STLAB_TASK_POOL_MAXIMUM(), std::max(1u, std::thread::hardware_concurrency()));
#else
    return std::max(1u, std::thread::hardware_concurrency());
#endif
}
// the most threads the pool may have
int limit() { return static_cast<int>(std::max(9u, cores() * 4 + 1)); }
int workers() { return static_cast<int>(std::max(1u, cores() - 1)); }

std::mutex g_m;
std::set<std::thread::id> g_ids;
thread_local bool t_seen = false;
// every thread that runs a task of the pool
void worker() {
    if (std::exchange(t_seen, true)) return;
    std::lock_guard<std::mutex> l(g_m);
    g_ids.insert(std::this_thread::get_id());
    VF_CHECK(static_cast<int>(g_ids.size()) <= limit(), "limit", "%zu threads run tasks of the pool, the limit is %d", g_ids.size(),
             limit());
}

struct book {
    std::atomic<int> runs{0}, blocked{0}, peak{0};
    void enter() {
        worker();
        const int b = ++blocked;
        int p = peak.load();
        while (p < b && !peak.compare_exchange_weak(p, b)) {}
        event();
    }
    void leave() { --blocked; }
};

// 0..2 await, 3 await_for in rounds
template <class T>
T wait_some_way(future<T> f, int how, book& b) {
    b.enter();
    struct out {
        book& b;
        ~out() { b.leave(); }
    } o{b};
    if (how == 3) {
        for (;;) {
            f = await_for(std::move(f), std::chrono::milliseconds(2));
            if (f.is_ready()) return std::move(f).get_ready();
        }
    }
    return await(std::move(f));
}
future<int> start(int prio, task<int()> t) {
    switch (prio) {
    case 0: return async(high_executor, std::move(t));
    case 1: return async(default_executor, std::move(t));
    default: return async(low_executor, std::move(t));
    }
}
} // namespace

// a chain of tasks, each waits for the next
VF_SCENARIO(chain, 400, 1500) {
    perturb_level(static_cast<int>(c.r.below(4)));
    book b;
    const int depth = c.r.chance(30) ? limit() - 1 : c.r.range(1, limit() - 1);
    const std::uint64_t s = c.r.next();
    std::function<int(int)> go = [&](int k) -> int {
        ++b.runs;
        worker();
        event();
        if (k == 0) return 0;
        rng r(mix(s, static_cast<std::uint64_t>(k)));
        auto f = start(static_cast<int>(r.below(3)), [&go, k] { return go(k - 1); });
        if (r.chance(10)) spin_us(r.range(1, 50));
        return 1 + wait_some_way(std::move(f), static_cast<int>(r.below(4)), b);
    };
    auto f = start(static_cast<int>(c.r.below(3)), [&] { return go(depth); });
    gate done;
    int v = -1;
    if (c.r.chance(50)) {
        v = await(std::move(f));
    } else {
        f.then(immediate_executor, [&](int x) {
             v = x;
             done.add();
         }).detach();
        done.wait(1);
    }
    VF_CHECK(v == depth && b.runs == depth + 1, "chain", "a chain of depth %d returned %d after %d runs", depth, v,
             b.runs.load());
    c.nontrivial = b.peak > 0;
    c.see(static_cast<std::uint64_t>(depth * 64 + b.peak));
    c.note = "depth " + std::to_string(depth) + ", up to " + std::to_string(b.peak.load()) + " threads blocked";
}

// a tree of tasks, each waits for its children in random order; few enough block at a time
VF_SCENARIO(tree, 400, 1500) {
    perturb_level(static_cast<int>(c.r.below(4)));
    book b;
    int left = c.r.range(1, limit() - 2);
    struct n_t {
        std::vector<n_t> kids;
        int prio, how;
        bool all;
        int total = 1;
    };
    int leaves = c.r.range(1, 200);
    // inner nodes block, leaves do not
    std::function<n_t(int)> gen = [&](int d) {
        n_t n{{}, static_cast<int>(c.r.below(3)), static_cast<int>(c.r.below(4)), c.r.chance(30), 1};
        if (d > 0 && left > 0) {
            --left;
            const int k = c.r.range(1, 5);
            for (int i = 0; i < k && leaves > 0; ++i) {
                --leaves;
                n.kids.push_back(gen(d - 1));
                n.total += n.kids.back().total;
            }
        }
        return n;
    };
    const n_t root = gen(c.r.range(1, 7));
    std::function<int(const n_t&)> go = [&](const n_t& n) -> int {
        ++b.runs;
        worker();
        event();
        int t = 1;
        std::vector<future<int>> fs;
        for (auto& k : n.kids) fs.push_back(start(k.prio, [&go, &k] { return go(k); }));
        if (n.all && !fs.empty()) {
            auto f = when_all(immediate_executor, [](std::vector<int> v) {
                int s = 0;
                for (int x : v) s += x;
                return s;
            }, std::make_pair(fs.begin(), fs.end()));
            fs.clear();
            return t + wait_some_way(std::move(f), n.how, b);
        }
        while (!fs.empty()) {
            const auto i = (static_cast<std::size_t>(n.how) + fs.size() * 7) % fs.size();
            t += wait_some_way(std::move(fs[i]), n.how, b);
            fs.erase(fs.begin() + static_cast<std::ptrdiff_t>(i));
        }
        return t;
    };
    const int v = await(start(root.prio, [&] { return go(root); }));
    VF_CHECK(v == root.total && b.runs == root.total, "tree", "a tree of %d tasks returned %d after %d runs", root.total,
             v, b.runs.load());
    c.nontrivial = b.peak > 0;
    c.see(static_cast<std::uint64_t>(root.total * 64 + b.peak));
    c.note = std::to_string(root.total) + " tasks, up to " + std::to_string(b.peak.load()) + " threads blocked";
}

// tasks wait for what is executed later, from outside of the pool
VF_SCENARIO(outside, 800, 5000) {
    perturb_level(static_cast<int>(c.r.below(4)));
    book b;
    const int n = c.r.chance(40) ? c.r.range(1, std::min(workers(), limit() - 2)) : c.r.range(1, limit() - 2);
    std::vector<packaged_task<int>> ps;
    std::vector<future<int>> fs, rs;
    for (int i = 0; i < n; ++i) {
        auto [p, f] = package<int(int)>(immediate_executor, [](int x) { return x; });
        ps.push_back(std::move(p));
        fs.push_back(std::move(f));
    }
    gate in;
    for (int i = 0; i < n; ++i) {
        auto how = static_cast<int>(c.r.below(4));
        rs.push_back(start(static_cast<int>(c.r.below(3)), [&, how, f = std::move(fs[static_cast<std::size_t>(i)])]() mutable {
            in.add();
            ++b.runs;
            return wait_some_way(std::move(f), how, b);
        }));
    }
    in.wait(n);
    if (c.r.chance(60)) std::this_thread::sleep_for(std::chrono::microseconds(c.r.range(0, 500))); // let them block
    std::atomic<int> extra{0}; // completions
    const int ways = c.r.range(0, 2);
    auto complete = [&](int i, rng& r) {
        auto& p = ps[static_cast<std::size_t>(i)];
        auto step = [&, i] {
            ++extra;
            p(i + 1);
        };
        switch (ways == 2 ? static_cast<int>(r.below(3)) : ways) {
        case 0: default_executor([step]() mutable noexcept { step(); }); break;
        case 1: high_executor([step]() mutable noexcept { low_executor([step]() mutable noexcept { step(); }); }); break;
        default:
            execute_delayed(std::chrono::microseconds(r.range(1, 300)), default_executor)([step]() mutable noexcept { step(); });
        }
    };
    std::vector<int> order;
    for (int i = 0; i < n; ++i) order.push_back(i);
    c.r.shuffle(order);
    const int nt = c.r.range(1, 3);
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t)
        ts.emplace_back([&, t, r = rng(c.r.next())]() mutable {
            for (std::size_t i = static_cast<std::size_t>(t); i < order.size(); i += static_cast<std::size_t>(nt))
                complete(order[i], r);
        });
    for (auto& t : ts) t.join();
    for (int i = 0; i < n; ++i) {
        gate g;
        int v = 0;
        std::move(rs[static_cast<std::size_t>(i)]).recover(immediate_executor, [&](future<int> f) {
            v = *f.get_try();
            g.add();
        }).detach();
        g.wait(1);
        VF_CHECK(v == i + 1, "outside", "task %d was completed with %d", i, v);
    }
    VF_CHECK(b.runs == n && extra == n, "runs", "%d of %d tasks ran, %d completions", b.runs.load(), n, extra.load());
    c.nontrivial = b.peak > 0;
    c.see(static_cast<std::uint64_t>(n * 64 + b.peak) * 4 + static_cast<std::uint64_t>(ways));
    c.note = std::to_string(n) + " tasks blocked (peak " + std::to_string(b.peak.load()) + ") until tasks executed later from " +
             std::to_string(nt) + " other threads";
}

// while some workers are blocked until the end, the rest of the pool goes on
VF_SCENARIO(others, 300, 1500) {
    perturb_level(static_cast<int>(c.r.below(4)));
    book b;
    const int n = c.r.range(1, limit() - 2);
    auto [p, f] = package<int(int)>(immediate_executor, [](int x) { return x; });
    std::vector<future<int>> rs;
    gate in;
    for (int i = 0; i < n; ++i)
        rs.push_back(start(static_cast<int>(c.r.below(3)), [&, f = f]() mutable {
            in.add();
            return wait_some_way(std::move(f), 0, b);
        }));
    f.reset();
    in.wait(n);
    gate g;
    const int m = c.r.range(1, 60);
    std::atomic<int> k{0};
    for (int i = 0; i < m; ++i) {
        if (c.r.chance(10)) std::this_thread::sleep_for(std::chrono::microseconds(c.r.range(0, 200)));
        auto t = [&]() noexcept {
            ++k;
            worker();
            event();
            g.add();
        };
        switch (c.r.below(3)) {
        case 0: high_executor(t); break;
        case 1: default_executor(t); break;
        default: low_executor(t);
        }
    }
    g.wait(m);
    p(9);
    for (auto& r : rs) {
        const int v = await(std::move(r));
        VF_CHECK(v == 9, "others", "await returned %d", v);
    }
    VF_CHECK(k == m, "runs", "%d of %d tasks ran", k.load(), m);
    c.nontrivial = true;
    c.see(static_cast<std::uint64_t>(n * 64 + m));
    c.note = std::to_string(m) + " tasks ran while " + std::to_string(n) + " were blocked";
}
