// E04: timers are never early, run once, on the right executor, and in the order of their due times.
#include "vf_fut.hpp"
using namespace vf;
using namespace stlab;
using namespace std::chrono_literals;
using clk = std::chrono::steady_clock;

namespace {
struct timed {
    clk::time_point before, after; // the scheduling call
    std::chrono::nanoseconds dur{};
    std::uint64_t returned = 0; // stamp
    std::atomic<int> runs{0};
    clk::time_point ran;
    int pos = -1, tag = -1;
    bool direct = false; // on the timer thread itself
    clk::time_point due_low() const { return before + dur; }
    clk::time_point due_high() const { return after + dur; }
};
struct obj {
    gate* g;
    explicit obj(gate* x) : g(x) {}
    obj(obj&& x) noexcept : g(std::exchange(x.g, nullptr)) {}
    ~obj() {
        if (g) g->add();
    }
};
template <class D>
std::chrono::nanoseconds ns(D d) { return std::chrono::duration_cast<std::chrono::nanoseconds>(d); }
} // namespace

// many timers from several threads
VF_SCENARIO(many, 240, 2000) {
    perturb_level(static_cast<int>(c.r.below(4)));
    const int nt = c.r.range(1, 4), per = c.r.chance(3) ? c.r.range(100, 400) : c.r.range(1, 25);
    std::deque<timed> all;
    gate ran, kids_ran, gone;
    std::atomic<int> pos{0};
    std::vector<std::vector<timed*>> mine(static_cast<std::size_t>(nt));
    const int span = c.r.chance(50) ? 3000 : 20000;
    for (int t = 0; t < nt; ++t)
        for (int i = 0; i < per; ++i) {
            auto& x = all.emplace_back();
            x.dur = std::chrono::microseconds(c.r.chance(10) ? -c.r.range(0, 1000) : c.r.range(0, span));
            mine[static_cast<std::size_t>(t)].push_back(&x);
        }
    start_line go(nt);
    std::vector<std::thread> ts;
    std::atomic<int> extra{0};
    std::deque<timed> kids(all.size());
    for (int t = 0; t < nt; ++t)
        ts.emplace_back([&, t, r = rng(c.r.next())]() mutable {
            go.arrive();
            int k = 0;
            for (auto* x : mine[static_cast<std::size_t>(t)]) {
                timed* kid = r.chance(20) ? &kids[static_cast<std::size_t>(t * per + k)] : nullptr;
                ++k;
                const int tag = r.range(0, 6), chained = r.range(100, 3000);
                auto work = [&, x, kid, chained, o = obj(&gone), expect = x->tag]() mutable noexcept {
                    event();
                    x->ran = clk::now();
                    x->pos = pos++;
                    ++x->runs;
                    if (kid) {
                        kid->dur = std::chrono::microseconds(chained);
                        kid->before = clk::now();
                        ++extra;
                        system_timer(std::chrono::microseconds(chained), [&, kid, o = obj(&gone)]() mutable noexcept {
                            event();
                            kid->ran = clk::now();
                            ++kid->runs;
                            kids_ran.add();
                        });
                    }
                    ran.add();
                };
                const auto us = std::chrono::duration_cast<std::chrono::microseconds>(x->dur);
                x->direct = r.chance(60);
                if (!x->direct) x->tag = tag;
                auto tagged_work = [w = std::move(work), x, tag, direct = x->direct]() mutable noexcept {
                    VF_CHECK(direct || t_exec == tag, "executor", "a delayed task runs in executor %d instead of %d", t_exec, tag);
                    w();
                };
                x->before = clk::now();
                if (x->direct)
                    system_timer(us, std::move(tagged_work));
                else if (r.chance(50))
                    execute_delayed(us, make_exec(tag, tag))(std::move(tagged_work));
                else
                    execute_at(us, make_exec(tag, tag))(std::move(tagged_work));
                x->after = clk::now();
                x->returned = 1;
                if (r.chance(10)) std::this_thread::sleep_for(std::chrono::microseconds(r.range(1, 500)));
            }
        });
    for (auto& t : ts) t.join();
    ran.wait(nt * per);
    kids_ran.wait(extra.load());
    gone.wait(nt * per + extra.load());
    for (auto& x : all) {
        VF_CHECK(x.runs == 1, "runs", "a timer ran %d times", x.runs.load());
        VF_CHECK(x.ran >= x.due_low(), "early", "a timer ran %lld ns early",
                 static_cast<long long>(ns(x.due_low() - x.ran).count()));
    }
    for (auto& x : kids)
        if (x.runs) {
            VF_CHECK(x.runs == 1, "runs", "a timer started by a timer ran %d times", x.runs.load());
            VF_CHECK(x.ran >= x.due_low(), "early", "a timer started by a timer ran early");
        }
    // on the timer thread: in due order if both were scheduled before the later one was due
    int pairs = 0;
    for (auto& a : all)
        for (auto& b : all) {
            if (!a.direct || !b.direct || &a == &b) continue;
            if (a.due_high() + 1ms < b.due_low() && a.after < b.due_low()) {
                ++pairs;
                VF_CHECK(a.pos < b.pos, "order", "a timer due %lld us before another one fired after it",
                         static_cast<long long>(ns(b.due_low() - a.due_high()).count() / 1000));
            }
        }
    c.nontrivial = pairs > 0;
    c.see(static_cast<std::uint64_t>(pairs));
    c.see(static_cast<std::uint64_t>(nt * per));
    c.note = std::to_string(nt) + " threads, " + std::to_string(nt * per) + " timers, " + std::to_string(pairs) + " ordered pairs";
}

// a timer earlier than all pending ones, scheduled while the timer thread sleeps, is not delayed by them
VF_SCENARIO(earlier, 8, 60) {
    perturb_level(static_cast<int>(c.r.below(3)));
    const auto far = std::chrono::milliseconds(c.r.range(250, 350));
    int late = 0;
    for (int attempt = 0; attempt < 6; ++attempt) {
        struct st {
            std::atomic<int> n{0};
            std::atomic<long long> far_at{0}, near_at{0};
        };
        st s;
        gate g;
        const auto t0 = clk::now();
        const int nfar = c.r.range(1, 3);
        for (int i = 0; i < nfar; ++i)
            system_timer(far + std::chrono::milliseconds(i), [&]() noexcept {
                event();
                g.add();
            });
        std::this_thread::sleep_for(std::chrono::milliseconds(c.r.range(2, 30))); // the timer thread sleeps now
        const int kind = static_cast<int>(c.r.below(3));
        const auto near = std::chrono::microseconds(c.r.range(100, 20000));
        auto f = [&]() noexcept {
            event();
            s.near_at = ns(clk::now() - t0).count();
            g.add();
        };
        if (kind == 0)
            system_timer(near, f);
        else if (kind == 1)
            execute_delayed(near, immediate_executor)(f);
        else
            execute_at(near, default_executor)(f);
        // a reference: how late this thread wakes
        const auto r0 = clk::now();
        std::this_thread::sleep_for(far / 2);
        const auto slip = clk::now() - r0 - far / 2;
        g.wait(nfar + 1);
        c.nontrivial = true;
        c.see(static_cast<std::uint64_t>(kind));
        if (s.near_at.load() < ns(far).count() - 5000000) {
            late = 0;
            break;
        }
        if (slip < 20ms) // else the machine is too busy to tell
            ++late;
    }
    VF_CHECK(late < 4, "late", "a timer waited for a much later one (%d times in a row)", late);
}

// one delayed executor for many tasks
VF_SCENARIO(reuse, 300, 2000) {
    perturb_level(static_cast<int>(c.r.below(4)));
    const int n = c.r.range(1, 30), kind = static_cast<int>(c.r.below(exec_kinds));
    const bool zero = c.r.chance(15);
    const auto d = zero ? 0us : std::chrono::microseconds(c.r.range(1, 3000));
    auto base = make_exec(kind, 3);
    executor_t e = c.r.chance(50) ? execute_at(d, base) : executor_t(execute_delayed(d, base));
    gate ran, gone;
    std::deque<timed> all(static_cast<std::size_t>(n));
    std::vector<future<int>> fs;
    std::mutex m;
    const int ways = c.r.range(0, 2);
    for (int i = 0; i < n; ++i) {
        auto& x = all[static_cast<std::size_t>(i)];
        auto f = [&, o = obj(&gone)]() mutable noexcept {
            event();
            VF_CHECK(t_exec == 3, "executor", "a delayed task does not run in its executor");
            x.ran = clk::now();
            ++x.runs;
            ran.add();
        };
        auto use = c.r.chance(50) ? e : executor_t(e); // copies too
        x.dur = d;
        x.before = clk::now();
        if (ways == 0 || (ways == 2 && c.r.chance(50)))
            use(std::move(f));
        else
            fs.push_back(async(use, [f = std::move(f), i]() mutable {
                f();
                return i;
            }));
        if (c.r.chance(10)) std::this_thread::sleep_for(std::chrono::microseconds(c.r.range(1, 300)));
    }
    e = nullptr;
    base = nullptr;
    ran.wait(n);
    int k = -1;
    for (auto& f : fs) {
        const int v = await(std::move(f));
        VF_CHECK(v > k, "result", "a delayed task returned %d after %d", v, k);
        k = v;
    }
    fs.clear();
    gone.wait(n);
    for (auto& x : all) {
        VF_CHECK(x.runs == 1, "runs", "a delayed task ran %d times", x.runs.load());
        VF_CHECK(x.ran >= x.due_low(), "early", "a delayed task ran %lld ns early",
                 static_cast<long long>(ns(x.due_low() - x.ran).count()));
    }
    c.nontrivial = true;
    c.see(static_cast<std::uint64_t>(n * 64 + kind * 4 + ways));
    c.note = std::to_string(n) + " tasks on one delayed executor";
}

// a delayed task whose future is released before it is due never runs, and disturbs no other timer
VF_SCENARIO(cancelled, 100, 1500) {
    perturb_level(static_cast<int>(c.r.below(4)));
    const int n = c.r.range(2, 20);
    std::vector<future<void>> fs;
    std::vector<char> keep;
    struct st {
        std::atomic<int> runs{0};
        clk::time_point at;
    };
    std::deque<st> s(static_cast<std::size_t>(n));
    std::vector<clk::time_point> due;
    gate gone;
    for (int i = 0; i < n; ++i) {
        const auto d = std::chrono::microseconds(c.r.range(20000, 40000));
        due.push_back(clk::now() + d);
        fs.push_back(async(execute_delayed(d, default_executor), [&s, i, o = obj(&gone)] {
            event();
            s[static_cast<std::size_t>(i)].at = clk::now();
            ++s[static_cast<std::size_t>(i)].runs;
        }));
        keep.push_back(c.r.chance(50));
    }
    for (int i = 0; i < n; ++i)
        if (!keep[static_cast<std::size_t>(i)]) fs[static_cast<std::size_t>(i)].reset();
    const bool in_time = clk::now() < due[0] - 15ms && clk::now() < *std::min_element(due.begin(), due.end());
    for (int i = 0; i < n; ++i)
        if (keep[static_cast<std::size_t>(i)]) await(std::move(fs[static_cast<std::size_t>(i)]));
    gone.wait(n);
    for (int i = 0; i < n; ++i) {
        auto& x = s[static_cast<std::size_t>(i)];
        if (keep[static_cast<std::size_t>(i)]) {
            VF_CHECK(x.runs == 1 && x.at >= due[static_cast<std::size_t>(i)], "runs", "a delayed task ran %d times or early", x.runs.load());
        } else if (in_time)
            VF_CHECK(x.runs == 0, "cancelled", "a delayed task ran although its future had been released");
    }
    c.nontrivial = in_time;
    for (char k : keep) c.see(static_cast<std::uint64_t>(k));
}
