// F08: tasks run on the executor they were given, continuations inherit it.
#include "vf_fut.hpp"
using namespace vf;
using namespace stlab;

namespace {
template <class T>
void random_dag(ctx& c) {
    perturb_level(static_cast<int>(c.r.below(4)));
    dag_opts o;
    o.nodes = 4 + static_cast<int>(c.r.below(16));
    o.completers = static_cast<int>(c.r.below(3));
    o.fail = c.r.chance(50) ? 25 : 0;
    o.abandon = c.r.chance(50) ? 30 : 0;
    o.when = c.r.chance(60);
    o.reduce = c.r.chance(50);
    o.check_exec = true;
    rng er(c.r.next());
    o.exec = [&](int i) { return make_exec(static_cast<int>(er.below(exec_kinds)), i); };
    dag<T> d(c, o);
    d.run();
    d.verify();
}
template <class T>
void manual_dag(ctx& c) {
    manual_queue q[3];
    dag_opts o;
    o.nodes = 4 + static_cast<int>(c.r.below(24));
    o.completers = 0;
    o.fail = c.r.chance(50) ? 25 : 0;
    o.abandon = c.r.chance(50) ? 30 : 0;
    o.when = c.r.chance(60);
    o.reduce = c.r.chance(50);
    o.check_exec = true;
    // 3: a queue reached through a type of its own
    o.exec = [&](int i) {
        return i < 3 ? tagged(i, q[i].executor()) : tagged(i, immediate_executor);
    };
    o.execs = 4;
    rng pr(c.r.next());
    bool all = false;
    o.pump = [&] {
        for (int n = all ? 1000000 : static_cast<int>(pr.below(3)); n; --n) {
            const auto i = pr.below(3);
            if (!q[i].step(pr) && !q[(i + 1) % 3].step(pr) && !q[(i + 2) % 3].step(pr)) break;
        }
    };
    dag<T> d(c, o);
    auto inner = d.o.pump;
    d.o.pump = [&, inner] {
        if (d.live.empty()) all = true;
        inner();
    };
    d.run();
    d.verify();
}

struct fn_exec {
    executor_t under;
    template <class F>
    void operator()(F&& f) const {
        under(std::forward<F>(f));
    }
};

// Ready and exceptional futures, functors as executors, ranges.
[[maybe_unused]] void ready_made(ctx& c) {
    manual_queue q[3];
    auto e = [&](int i) { return tagged(i, q[i].executor()); };
    const int home = static_cast<int>(c.r.below(3));
    const int other = static_cast<int>(c.r.below(3));
    int ran = 0, want = 0;
    auto on = [&](int x) {
        return [&, x](auto&&...) {
            event();
            ++ran;
            if (t_exec != x) fail("wrong_executor", "a function ran on executor %d, expected %d", t_exec, x);
        };
    };
    std::vector<future<void>> keep;
    auto err_ptr = std::make_exception_ptr(err{1});
    for (int i = 0; i < 6; ++i) {
        const auto k = c.r.below(10);
        const bool bad = c.r.chance(40);
        c.see(k * 2 + bad);
        ++want;
        switch (k) {
        case 0: { // inherits
            auto f = bad ? make_exceptional_future<cval>(err_ptr, e(home)) : make_ready_future<cval>(cval{1}, e(home));
            keep.push_back(std::move(f).recover(on(home)));
            break;
        }
        case 1: {
            auto f = bad ? make_exceptional_future<mval>(err_ptr, e(home)) : make_ready_future<mval>(mval{1}, e(home));
            keep.push_back(std::move(f).recover(e(other), on(other)).recover(on(other)));
            ++want;
            break;
        }
        case 2: {
            auto f = bad ? make_exceptional_future<void>(err_ptr, e(home)) : make_ready_future(e(home));
            keep.push_back(f ^ on(home));
            ++want;
            keep.push_back(f ^ (executor{e(other)} & on(other)));
            break;
        }
        case 3: {
            fn_exec x{e(home)};
            keep.push_back(async(x, on(home)).then(on(home)));
            ++want;
            break;
        }
        case 4: {
            fn_exec x{e(home)};
            auto [p, f] = package<void(int)>(x, on(home));
            keep.push_back(std::move(f).then(fn_exec{e(other)}, [&, g = on(other)] {
                g();
                return;
            }).then(on(other)));
            ++ran; // p runs here, in the thread which completes it
            ++want;
            const int old = t_exec;
            t_exec = home;
            --ran;
            p(3);
            t_exec = old;
            ++want;
            break;
        }
        case 5: {
            std::vector<future<int>> v;
            for (auto n = 1 + c.r.below(3); n; --n) v.push_back(bad ? make_exceptional_future<int>(err_ptr, e(other)) : make_ready_future<int>(1, e(other)));
            keep.push_back(when_all(e(home), on(home), std::make_pair(v.begin(), v.end())).recover(on(home)));
            want += bad ? 0 : 1;
            break;
        }
        case 6: {
            std::vector<future<int>> v;
            for (auto n = 1 + c.r.below(3); n; --n) v.push_back(bad ? make_exceptional_future<int>(err_ptr, e(other)) : make_ready_future<int>(1, e(other)));
            keep.push_back(when_any(e(home), on(home), std::make_pair(v.begin(), v.end())).recover(on(home)));
            want += bad ? 0 : 1;
            break;
        }
        case 7: { // empty ranges
            std::vector<future<int>> v;
            keep.push_back(when_all(e(home), on(home), std::make_pair(v.begin(), v.end())));
            --want;
            ++want;
            keep.push_back(when_any(e(other), on(7), std::make_pair(v.begin(), v.end())).recover(on(other)));
            ++want;
            break;
        }
        case 8: {
            if (bad) {
                keep.push_back(when_all(e(home), on(home), make_exceptional_future<int>(err_ptr, e(other)), make_ready_future<int>(1, e(other))).recover(on(home)));
            } else {
                keep.push_back(when_any(e(home), on(home), make_exceptional_future<int>(err_ptr, e(other)), make_ready_future<int>(1, e(other))).then(on(home)));
                ++want;
            }
            break;
        }
        default: {
            auto f = async(e(home), [&, g = on(home)] {
                g();
                return async(e(other), on(other));
            });
            want += 2;
            keep.push_back(std::move(f).then(on(home)));
            break;
        }
        }
        if (c.r.chance(50)) q[c.r.below(3)].step(c.r);
    }
    while (q[0].step(c.r) || q[1].step(c.r) || q[2].step(c.r)) {}
    VF_CHECK(ran == want, "not_run", "%d functions ran, expected %d", ran, want);
    c.nontrivial = true;
    c.see(static_cast<std::uint64_t>(home * 3 + other));
    c.note = std::to_string(want) + " functions on executors " + std::to_string(home) + " and " + std::to_string(other);
}
} // namespace

#if VF_PART == 0
VF_SCENARIO(dag_copyable, 600, 8000) { random_dag<cval>(c); }
VF_SCENARIO(manual_copyable, 4000, 60000) { manual_dag<cval>(c); }
#elif VF_PART == 1
VF_SCENARIO(dag_move_only, 500, 6000) { random_dag<mval>(c); }
VF_SCENARIO(manual_move_only, 3000, 40000) { manual_dag<mval>(c); }
#elif VF_PART == 2
VF_SCENARIO(dag_void, 400, 5000) { random_dag<void>(c); }
VF_SCENARIO(manual_void, 3000, 40000) { manual_dag<void>(c); }
#else
VF_SCENARIO(ready_made_futures, 6000, 60000) { ready_made(c); }
#endif
