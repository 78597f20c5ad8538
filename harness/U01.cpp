// U01: progress_tracker against a counting model, and under concurrency.
#include "vf.hpp"

#include <algorithm>

#include <stlab/concurrency/default_executor.hpp>
#include <stlab/concurrency/future.hpp>
#include <stlab/concurrency/progress.hpp>
#include <stlab/concurrency/utility.hpp>
using namespace vf;
using namespace stlab;

namespace {
using fn = std::function<int(int)>;
using client = decltype(std::declval<progress_tracker&>()(std::declval<fn>())); // a wrapped function

// what the user of one tracker can see
struct model {
    std::size_t live = 0, done = 0;
    std::vector<std::pair<std::size_t, std::size_t>> calls; // of the callback
    std::size_t expect_calls = 0;
    bool callback = false;
};
int g_runs = 0;
} // namespace

VF_SCENARIO(history, 3000, 60000) {
    const int T = c.r.range(1, 3);
    std::vector<std::optional<progress_tracker>> t(T);
    std::vector<std::optional<progress_tracker>> copies;
    std::vector<model> m(T);
    auto make = [&](int k) {
        m[k].callback = c.r.chance(70);
        if (m[k].callback)
            t[k].emplace([&m, k](std::size_t a, std::size_t b) { m[k].calls.emplace_back(a, b); });
        else
            t[k].emplace();
    };
    for (int k = 0; k < T; ++k) make(k);
    struct slot {
        std::optional<client> x;
        int of = -1;   // tracker, -1: none (moved from)
        int add = 0;   // what the function does
        bool callable = false;
    };
    std::vector<slot> s(c.r.range(1, 6));
    auto drop = [&](slot& a) {
        if (a.x && a.of >= 0) --m[a.of].live;
        a.of = -1;
        a.callable = false;
    };
    auto check = [&](const char* op) {
        for (int k = 0; k < T; ++k) {
            VF_CHECK(t[k]->steps() == m[k].live, "steps", "after %s: steps() == %zu, %zu functions of the tracker exist", op,
                     t[k]->steps(), m[k].live);
            VF_CHECK(t[k]->completed() == m[k].done, "completed", "after %s: completed() == %zu, %zu invocations returned", op,
                     t[k]->completed(), m[k].done);
            VF_CHECK(m[k].calls.size() == m[k].expect_calls, "callback", "after %s: %zu callbacks for %zu", op,
                     m[k].calls.size(), m[k].expect_calls);
            event(3);
        }
    };
    int n = c.r.range(5, 60);
    for (int i = 0; i < n; ++i) {
        auto& a = c.r.pick(s);
        auto& b = c.r.pick(s);
        const char* op = "";
        int kind = c.r.range(0, 8);
        switch (kind) {
        case 0:
        case 1: {
            op = "wrapping";
            drop(a);
            int k = c.r.range(0, T - 1), add = c.r.range(1, 1000);
            a.x.reset();
            a.x.emplace((*t[k])(fn([add](int x) -> int {
                ++g_runs;
                if (x < 0) throw x;
                return x + add;
            })));
            a.of = k;
            a.add = add;
            a.callable = true;
            ++m[k].live;
        } break;
        case 2:
            op = "destroying";
            drop(a);
            a.x.reset();
            break;
        case 3: // copy construction
            op = "copying";
            if (&a == &b || !b.x) break;
            drop(a);
            a.x.reset();
            a.x.emplace(*b.x);
            a.of = b.of, a.add = b.add, a.callable = b.callable;
            if (a.of >= 0) ++m[a.of].live;
            break;
        case 4: // move construction
            op = "moving";
            if (&a == &b || !b.x) break;
            drop(a);
            a.x.reset();
            a.x.emplace(std::move(*b.x));
            a.of = b.of, a.add = b.add, a.callable = b.callable;
            b.of = -1, b.callable = false;
            break;
        case 5: // copy assignment
            op = "assigning";
            if (!a.x || !b.x) break;
            if (&a != &b) {
                drop(a);
                *a.x = *b.x;
                a.of = b.of, a.add = b.add, a.callable = b.callable;
                if (a.of >= 0) ++m[a.of].live;
            } else {
                client& self = *b.x;
                *a.x = self;
            }
            break;
        case 6: // move assignment
            op = "move assigning";
            if (&a == &b || !a.x || !b.x) break;
            drop(a);
            *a.x = std::move(*b.x);
            a.of = b.of, a.add = b.add, a.callable = b.callable;
            b.of = -1, b.callable = false;
            break;
        case 7: { // invocation
            op = "invoking";
            if (!a.x || !a.callable) break;
            int arg = c.r.chance(20) ? -c.r.range(1, 9) : c.r.range(0, 1000);
            int before = g_runs;
            bool thrown = false;
            int res = 0;
            auto calls = m[a.of].calls.size();
            try {
                res = (*a.x)(arg);
            } catch (int e) {
                thrown = true;
                VF_CHECK(e == arg, "exception", "another exception");
            }
            VF_CHECK(g_runs == before + 1, "runs", "the function ran %d times", g_runs - before);
            VF_CHECK(thrown == (arg < 0), "exception", "thrown: %d", int(thrown));
            if (!thrown) {
                VF_CHECK(res == arg + a.add, "result", "%d instead of %d", res, arg + a.add);
                ++m[a.of].done;
                if (m[a.of].callback) {
                    ++m[a.of].expect_calls;
                    VF_CHECK(m[a.of].calls.size() == calls + 1, "callback", "%zu callbacks for one invocation",
                             m[a.of].calls.size() - calls);
                    auto p = m[a.of].calls.back();
                    VF_CHECK(p.first == m[a.of].live && p.second == m[a.of].done, "callback_values",
                             "callback (%zu, %zu), expected (%zu, %zu)", p.first, p.second, m[a.of].live, m[a.of].done);
                }
            }
            c.nontrivial = true;
        } break;
        case 8: { // copies of the tracker observe the same
            op = "copying the tracker";
            int k = c.r.range(0, T - 1);
            if (c.r.chance(50)) {
                auto copy = *t[k];
                copies.emplace_back(std::move(copy));
                VF_CHECK(copies.back()->steps() == m[k].live && copies.back()->completed() == m[k].done, "copy", "a copy of a tracker counts something else");
                if (c.r.chance(50)) copies.pop_back();
            } else if (c.r.chance(30)) {
                op = "destroying the tracker";
                // nothing but the tracker (and copies of it) keeps the counters alive
                copies.clear();
                for (auto& x : s)
                    if (x.of == k) { // still callable, but counted nowhere
                        auto calls = m[k].calls.size();
                        t[k].reset();
                        if (x.callable) {
                            VF_CHECK((*x.x)(7) == 7 + x.add, "result", "a function without its tracker");
                            VF_CHECK(m[k].calls.size() == calls, "callback", "a callback of a destroyed tracker");
                        }
                        break;
                    }
                for (auto& x : s)
                    if (x.of == k) x.of = -1, x.callable = false;
                t[k].reset();
                m[k] = model();
                make(k);
            }
        } break;
        }
        check(op);
        c.see(kind);
    }
    s.clear();
    for (auto& x : m) x.live = 0;
    check("destroying all");
}

// more steps than small counters hold
VF_SCENARIO(many, 3, 60) {
    const std::size_t n = static_cast<std::size_t>(c.r.range(66000, 80000));
    std::size_t calls = 0, last = 0;
    progress_tracker t([&](std::size_t a, std::size_t b) {
        (void)b;
        ++calls;
        last = a;
    });
    auto f = t([](int x) { return x + 1; });
    VF_CHECK(t.steps() == 1, "steps", "steps() is %zu for one function", t.steps());
    std::vector<decltype(f)> copies;
    copies.reserve(n);
    for (std::size_t i = 1; i < n; ++i) copies.push_back(f);
    VF_CHECK(t.steps() == n, "steps", "steps() is %zu for %zu functions", t.steps(), n);
    const std::size_t runs = n - static_cast<std::size_t>(c.r.below(5));
    for (std::size_t i = 0; i < runs; ++i)
        if (f(static_cast<int>(i)) != static_cast<int>(i) + 1) fail("result", "a wrapped function returns something else");
    VF_CHECK(t.completed() == runs && calls == runs, "completed", "completed() is %zu, %zu callbacks, for %zu invocations", t.completed(), calls, runs);
    copies.clear();
    VF_CHECK(t.steps() == 1 && t.completed() == runs, "steps", "steps() is %zu for one function left", t.steps());
    event(n);
    c.nontrivial = true;
    c.see(n);
}
VF_SCENARIO(concurrent, 120, 2000) {
    perturb_level(c.r.range(0, 2));
    const int threads = c.r.range(1, 6), each = c.r.range(1, c.tier ? 200 : 60);
    const bool callback = c.r.chance(75), sampler = c.r.chance(60), throwing = c.r.chance(40);
    const std::size_t total = std::size_t(threads) * each;
    struct log {
        std::mutex m;
        std::vector<std::pair<std::size_t, std::size_t>> all;
        std::map<std::thread::id, std::size_t> last;
    } lg;
    progress_tracker t;
    if (callback)
        t = progress_tracker([&lg](std::size_t a, std::size_t b) {
            std::lock_guard<std::mutex> l(lg.m);
            auto& x = lg.last[std::this_thread::get_id()];
            VF_CHECK(b > x, "decrease", "a thread was told %zu after %zu", b, x);
            x = b;
            lg.all.emplace_back(a, b);
        });
    std::atomic<std::size_t> runs{0}, thrown{0};
    std::atomic<bool> stop{false};
    std::thread sam;
    if (sampler)
        sam = std::thread([&] {
            std::size_t last = 0;
            while (!stop.load()) {
                auto x = t.completed();
                VF_CHECK(x >= last, "decrease", "completed() fell from %zu to %zu", last, x);
                VF_CHECK(x <= total, "above", "completed() is %zu of %zu", x, total);
                VF_CHECK(t.steps() <= 2 * total + 64 + threads * 4, "steps", "steps() is %zu", t.steps());
                last = x;
                event();
                std::this_thread::yield();
            }
        });
    int how = c.r.range(0, 2);
    std::vector<std::uint64_t> seeds(threads);
    for (auto& x : seeds) x = c.r.next();
    std::vector<std::thread> th;
    start_line sl(threads);
    // one wrapped function shared by copies, or one per invocation
    auto f = t([&](std::size_t k) -> std::size_t {
        perturb();
        ++runs;
        if (throwing && k % 5 == 0) {
            ++thrown;
            throw int(k);
        }
        return k * 3;
    });
    for (int i = 0; i < threads; ++i)
        th.emplace_back([&, i] {
            rng r(seeds[i]);
            sl.arrive();
            std::vector<std::pair<std::size_t, future<std::size_t>>> fs;
            for (int j = 0; j < each; ++j) {
                std::size_t k = std::size_t(i) * each + j;
                auto verify = [&](auto&& g) {
                    bool ex = false;
                    try {
                        auto v = g();
                        VF_CHECK(v == k * 3, "result", "another result");
                    } catch (int e) {
                        ex = true;
                        VF_CHECK(e == int(k), "exception", "another exception");
                    }
                    VF_CHECK(ex == (throwing && k % 5 == 0), "exception", "thrown %d", int(ex));
                };
                if (how == 0)
                    verify([&] { return f(k); });
                else if (how == 1) {
                    auto copy = f;
                    verify([&] { return copy(k); });
                } else
                    fs.emplace_back(k, async(default_executor, f, k));
                event();
            }
            for (auto& x : fs) {
                bool ex = false;
                try {
                    VF_CHECK(await(std::move(x.second)) == x.first * 3, "result", "another result");
                } catch (int e) {
                    ex = true;
                }
                VF_CHECK(ex == (throwing && x.first % 5 == 0), "exception", "thrown %d", int(ex));
            }
        });
    for (auto& x : th) x.join();
    stop = true;
    if (sam.joinable()) sam.join();
    VF_CHECK(runs == total, "runs", "%zu runs of %zu", runs.load(), total);
    VF_CHECK(t.completed() == total - thrown, "completed", "completed() is %zu, %zu returned", t.completed(), total - thrown.load());
    if (callback) {
        VF_CHECK(lg.all.size() == total - thrown, "callback", "%zu callbacks, %zu returned", lg.all.size(), total - thrown.load());
        // by the time of the k-th smallest report at least k have completed
        std::vector<std::size_t> v;
        for (auto& x : lg.all) {
            VF_CHECK(x.first >= 1 && x.first <= 2 * total + 64 + threads * 4, "steps", "callback with %zu steps", x.first);
            v.push_back(x.second);
        }
        std::sort(v.begin(), v.end());
        for (std::size_t i = 0; i < v.size(); ++i)
            VF_CHECK(v[i] >= i + 1 && v[i] <= v.size(), "callback_values", "report %zu of %zu says %zu", i + 1, v.size(), v[i]);
        c.see(v.empty() ? 0 : v.front());
    }
    // futures may still be letting go of their functions
    for (int i = 0; how == 2 && t.steps() != 1 && i < 4000; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    VF_CHECK(t.steps() == 1, "steps", "steps() is %zu, one function is left", t.steps());
    c.nontrivial = total > 1;
    c.see(threads), c.see(how), c.see(total);
}
