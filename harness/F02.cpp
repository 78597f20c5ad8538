// F02: errors and broken promises reach every dependent exactly once.
#include "vf_fut.hpp"
#include "vf_ready.hpp"
using namespace vf;
using namespace stlab;

namespace {
template <class T>
void random_dag(ctx& c) {
    perturb_level(static_cast<int>(c.r.below(4)));
    dag_opts o;
    o.nodes = 4 + static_cast<int>(c.r.below(14));
    o.completers = static_cast<int>(c.r.below(3));
    o.fail = 15 + static_cast<int>(c.r.below(40));
    o.abandon = static_cast<int>(c.r.below(60));
    o.await_some = c.r.chance(30);
    rng er(c.r.next());
    o.exec = [&](int i) { return make_exec(static_cast<int>(er.below(exec_kinds)), i); };
    dag<T> d(c, o);
    d.run();
    d.verify();
}
template <class T>
void manual_dag(ctx& c) {
    manual_queue q[2];
    dag_opts o;
    o.nodes = 4 + static_cast<int>(c.r.below(20));
    o.completers = 0;
    o.fail = 15 + static_cast<int>(c.r.below(40));
    o.abandon = static_cast<int>(c.r.below(60));
    o.exec = [&](int i) {
        return i < 2 ? tagged(i, q[i].executor()) : tagged(i, immediate_executor);
    };
    o.execs = 3;
    rng pr(c.r.next());
    bool all = false;
    o.pump = [&] {
        for (int n = all ? 1000000 : static_cast<int>(pr.below(3)); n; --n) {
            const auto i = pr.below(2);
            if (!q[i].step(pr) && !q[1 - i].step(pr)) break;
        }
    };
    dag<T> d(c, o);
    auto inner = d.o.pump;
    d.o.pump = [&, inner] {
        if (d.live.empty()) all = true;
        inner();
    };
    d.run();
    d.verify();
}

// Continuations are attached while the promise is broken, fulfilled or failed by another thread.
template <class T>
void break_race(ctx& c) {
    perturb_level(1 + static_cast<int>(c.r.below(3)));
    const int mode = static_cast<int>(c.r.below(5));
    const int chain = 1 + static_cast<int>(c.r.below(4));
    auto ex = make_exec(static_cast<int>(c.r.below(exec_kinds)), 0);
    auto ex2 = make_exec(static_cast<int>(c.r.below(exec_kinds)), 1);
    std::atomic<int> ran{0}, rec{0};
    std::atomic<std::uint64_t> got{0};
    gate g;
    auto [p, f] = [&] {
        if constexpr (std::is_void_v<T>)
            return package<void()>(ex, [&] { ++ran; });
        else
            return package<T()>(ex, [&] {
                ++ran;
                return T{7};
            });
    }();
    start_line line(2);
    std::thread t([&, p = std::move(p), s = c.r.next()]() mutable {
        rng r(s);
        line.arrive();
        for (auto i = r.below(16); i; --i) perturb();
        switch (mode) {
        case 0: p = packaged_task<>(); break;
        case 1: {
            packaged_task<> x(std::move(p));
            break;
        }
        case 2: p.set_exception(std::make_exception_ptr(err{55})); break;
        case 3: p(); break;
        case 4: {
            std::vector<packaged_task<>> v(2);
            v[0] = std::move(p);
            v.erase(v.begin());
            break;
        }
        }
    });
    line.arrive();
    int early = f.is_ready();
    auto h = std::move(f);
    for (int i = 0; i < chain; ++i) {
        if constexpr (std::is_void_v<T>)
            h = std::move(h).then(ex2, [&] { ++ran; });
        else
            h = std::move(h).then(ex2, [&](T x) {
                ++ran;
                return T{x.get() + 1};
            });
        early += h.is_ready();
    }
    // resumes
    auto k = std::move(h).recover(ex, [&](auto x) -> T {
        ++rec;
        event();
        if (auto e = x.exception()) {
            got = error_id(e);
            if constexpr (std::is_void_v<T>)
                return;
            else
                return T{1000};
        }
        if constexpr (!std::is_void_v<T>) return std::move(x).get_ready();
    });
    std::uint64_t result = 1;
    if constexpr (std::is_void_v<T>)
        await(std::move(k));
    else
        result = await(std::move(k)).get();
    t.join();
    const std::uint64_t want = mode == 2 ? 55 : mode == 3 ? 0 : broken_id;
    VF_CHECK(rec == 1, "recover_count", "recover ran %d times", rec.load());
    VF_CHECK(got == want, "wrong_error", "mode %d: recover got error %llx, expected %llx", mode,
             (unsigned long long)got.load(), (unsigned long long)want);
    VF_CHECK(ran == (mode == 3 ? 1 + chain : 0), "skipped_ran", "mode %d: %d functions ran", mode, ran.load());
    if constexpr (!std::is_void_v<T>)
        VF_CHECK(result == (mode == 3 ? 7u + static_cast<unsigned>(chain) : 1000u), "wrong_value", "result %llx",
                 (unsigned long long)result);
    c.nontrivial = true;
    c.see(mix(static_cast<std::uint64_t>(mode * 100 + chain * 10 + early), 3));
    c.note = "mode " + std::to_string(mode) + " chain " + std::to_string(chain) + " ready while attaching " + std::to_string(early);
}

// Copies of a failed future report the same exception object content from many threads at once.
[[maybe_unused]] void shared_error(ctx& c) {
    perturb_level(1 + static_cast<int>(c.r.below(3)));
    const int threads = 2 + static_cast<int>(c.r.below(3));
    const auto id = (c.r.next() | 1) >> 3;
    const bool late = c.r.chance(50);
    auto ex = make_exec(static_cast<int>(c.r.below(exec_kinds)), 0);
    auto [p, f] = package<cval()>(ex, [id]() -> cval { throw err{id}; });
    std::vector<std::thread> th;
    std::atomic<int> n{0}, wrong{0};
    gate g;
    start_line line(threads + 1);
    for (int t = 0; t < threads; ++t)
        th.emplace_back([&, t, f = f]() mutable {
            line.arrive();
            auto check = [&](std::exception_ptr e) {
                event();
                if (!e || error_id(e) != id) ++wrong;
                ++n;
                g.add();
            };
            switch ((t + static_cast<int>(id)) % 4) {
            case 0: f.recover([check](future<cval> x) { check(x.exception()); }).detach(); break;
            case 1:
                try {
                    (void)await(f);
                    check(nullptr);
                } catch (...) {
                    check(std::current_exception());
                }
                break;
            case 2:
                f.then([&](const cval&) { ++wrong; }).recover([check](future<void> x) {
                     check(x.exception());
                 }).detach();
                break;
            default:
                for (bool done = false; !done;) {
                    try {
                        done = static_cast<bool>(f.get_try());
                        if (done) check(nullptr);
                    } catch (...) {
                        check(std::current_exception());
                        done = true;
                    }
                    if (!done) std::this_thread::yield();
                }
            }
            f.reset();
        });
    if (late) f.reset();
    line.arrive();
    rng r(c.r.next());
    for (auto i = r.below(20); i; --i) perturb();
    p();
    g.wait(threads);
    for (auto& t : th) t.join();
    VF_CHECK(wrong == 0, "wrong_error", "%d of %d holders saw no or another exception", wrong.load(), threads);
    VF_CHECK(n == threads, "count", "%d of %d holders saw the exception", n.load(), threads);
    c.nontrivial = true;
    c.see(id % 4 * 100 + static_cast<unsigned>(threads) * 2 + late);
    c.note = std::to_string(threads) + " holders of a failed future";
}
} // namespace

#if VF_PART == 0
VF_SCENARIO(dag_copyable, 700, 8000) { random_dag<cval>(c); }
VF_SCENARIO(manual_copyable, 4000, 60000) { manual_dag<cval>(c); }
VF_SCENARIO(made_exceptional_copyable, 400, 6000) { ready_made<cval>(c, 80); }
VF_SCENARIO(break_copyable, 400, 6000) { break_race<cval>(c); }
VF_SCENARIO(shared_error_copyable, 500, 8000) { shared_error(c); }
#elif VF_PART == 1
VF_SCENARIO(dag_move_only, 500, 6000) { random_dag<mval>(c); }
VF_SCENARIO(manual_move_only, 3000, 40000) { manual_dag<mval>(c); }
VF_SCENARIO(made_exceptional_move_only, 400, 6000) { ready_made<mval>(c, 80); }
VF_SCENARIO(break_move_only, 400, 6000) { break_race<mval>(c); }
#else
VF_SCENARIO(dag_void, 400, 5000) { random_dag<void>(c); }
VF_SCENARIO(manual_void, 3000, 40000) { manual_dag<void>(c); }
VF_SCENARIO(made_exceptional_void, 400, 6000) { ready_made<void>(c, 80); }
VF_SCENARIO(break_void, 300, 4000) { break_race<void>(c); }
#endif
