// F01: every continuation runs exactly once with the value it depends on.
#include "vf_fut.hpp"
#include "vf_ready.hpp"
using namespace vf;
using namespace stlab;

namespace {
template <class T>
void random_dag(ctx& c) {
    perturb_level(static_cast<int>(c.r.below(4)));
    dag_opts o;
    o.nodes = 4 + static_cast<int>(c.r.below(14));
    o.completers = static_cast<int>(c.r.below(3));
    rng er(c.r.next());
    o.exec = [&](int i) { return make_exec(static_cast<int>(er.below(exec_kinds)), i); };
    dag<T> d(c, o);
    d.run();
    d.verify();
}
template <class T>
void manual_dag(ctx& c) {
    manual_queue q[2];
    dag_opts o;
    o.nodes = 4 + static_cast<int>(c.r.below(20));
    o.completers = 0;
    o.exec = [&](int i) {
        return i < 2 ? tagged(i, q[i].executor()) : tagged(i, immediate_executor);
    };
    o.execs = 3;
    rng pr(c.r.next());
    bool all = false;
    o.pump = [&] {
        for (int n = all ? 1000000 : static_cast<int>(pr.below(3)); n; --n) {
            const auto i = pr.below(2);
            if (!q[i].step(pr) && !q[1 - i].step(pr)) break;
        }
    };
    dag<T> d(c, o);
    // the last two calls of pump drain
    auto inner = d.o.pump;
    d.o.pump = [&, inner] {
        if (d.live.empty()) all = true;
        inner();
    };
    d.run();
    d.verify();
}

// Many threads attach to copies of one future while it is completed.
template <class T>
void attach_race(ctx& c) {
    perturb_level(1 + static_cast<int>(c.r.below(3)));
    const int threads = 2 + static_cast<int>(c.r.below(3));
    const int each = 1 + static_cast<int>(c.r.below(4));
    const auto id = c.r.next() | 1;
    auto ex = make_exec(static_cast<int>(c.r.below(exec_kinds)), 0);
    std::vector<std::atomic<int>> calls(static_cast<std::size_t>(threads * each));
    std::atomic<std::uint64_t> wrong{0};
    gate g;
    auto pf = [&] {
        if constexpr (std::is_void_v<T>)
            return package<void()>(ex, [] {});
        else
            return package<T()>(ex, [id] { return T{id}; });
    }();
    start_line line(threads + 1);
    std::vector<std::thread> th;
    std::atomic<int> late{0};
    for (int t = 0; t < threads; ++t) {
        th.emplace_back([&, t, f = pf.second, s = c.r.next()]() mutable {
            rng r(s);
            line.arrive();
            for (int i = 0; i < each; ++i) {
                auto& n = calls[static_cast<std::size_t>(t * each + i)];
                if (f.is_ready()) late.fetch_add(1, std::memory_order_relaxed);
                if constexpr (std::is_void_v<T>) {
                    auto fn = [&] {
                        ++n;
                        event();
                        g.add();
                    };
                    if (i + 1 == each && r.chance(50))
                        std::move(f).then(fn).detach();
                    else
                        f.then(fn).detach();
                } else {
                    auto fn = [&, id](const T& v) {
                        if (v.get() != id) ++wrong;
                        ++n;
                        event();
                        g.add();
                    };
                    if (i + 1 == each && r.chance(50))
                        std::move(f).then(fn).detach();
                    else
                        f.then(fn).detach();
                }
                if (r.chance(30)) perturb();
            }
        });
    }
    pf.second = {};
    std::thread comp([&, p = std::move(pf.first), s = c.r.next()]() mutable {
        rng r(s);
        line.arrive();
        for (auto i = r.below(40); i; --i) perturb();
        p();
    });
    for (auto& t : th) t.join();
    comp.join();
    g.wait(threads * each);
    for (std::size_t i = 0; i < calls.size(); ++i)
        VF_CHECK(calls[i] == 1, "ran_twice", "continuation %zu ran %d times", i, calls[i].load());
    VF_CHECK(wrong == 0, "wrong_value", "%llu continuations got a wrong value", (unsigned long long)wrong.load());
    c.nontrivial = late > 0 && late < threads * each;
    c.see(static_cast<std::uint64_t>(late * 100 + threads * 10 + each));
    c.note = std::to_string(threads) + " threads attached " + std::to_string(each) + " each, " +
             std::to_string(late.load()) + " after completion";
}

// A move-only chain attached while it is completed.
[[maybe_unused]] void chain_race(ctx& c) {
    perturb_level(1 + static_cast<int>(c.r.below(3)));
    const int n = 1 + static_cast<int>(c.r.below(6));
    const auto id = c.r.next() >> 8;
    auto ex = make_exec(static_cast<int>(c.r.below(exec_kinds)), 0);
    auto ex2 = make_exec(static_cast<int>(c.r.below(exec_kinds)), 1);
    auto [p, f] = package<mval(mval)>(ex, [](mval v) { return v; });
    start_line line(2);
    std::atomic<int> calls{0};
    std::atomic<int> pre{0};
    std::thread t([&, s = c.r.next()]() mutable {
        rng r(s);
        line.arrive();
        for (auto i = r.below(20); i; --i) perturb();
        p(mval{id});
    });
    line.arrive();
    auto g = std::move(f);
    for (int i = 0; i < n; ++i) {
        pre += g.is_ready();
        g = std::move(g).then(i % 2 ? ex : ex2, [&](mval v) {
            ++calls;
            event();
            return mval{v.get() + 1};
        });
    }
    auto r = await(std::move(g));
    t.join();
    VF_CHECK(r.get() == id + static_cast<std::uint64_t>(n), "wrong_value", "the end of a chain of %d is %llx", n,
             (unsigned long long)r.get());
    VF_CHECK(calls == n, "ran_twice", "%d of %d functions ran", calls.load(), n);
    c.nontrivial = true;
    c.see(static_cast<std::uint64_t>(pre * 100 + n));
    c.note = "chain of " + std::to_string(n) + ", " + std::to_string(pre.load()) + " attached to a ready future";
}

// Very many continuations of one future, attached by several threads while it is completed, and a very long chain.
template <class T>
[[maybe_unused]] void many(ctx& c) {
    perturb_level(0);
    const bool is_void = std::is_void_v<T>;
    const int threads = c.r.range(1, 3), per = c.r.range(100, 1500), length = c.r.range(100, 1500);
    auto ex = make_exec(static_cast<int>(c.r.below(2)), 0);
    const auto id = c.r.next() >> 8;
    auto mine = [&] {
        if constexpr (is_void)
            return package<void()>(ex, [] {});
        else
            return package<T()>(ex, [id] { return T{id}; });
    };
    auto [p, f] = mine();
    std::vector<std::atomic<int>> ran(static_cast<std::size_t>(threads * per));
    std::vector<std::vector<future<long>>> kept(static_cast<std::size_t>(threads));
    start_line line(threads + 1);
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; ++t)
        ts.emplace_back([&, t, f = f]() mutable {
            line.arrive();
            for (int i = 0; i < per; ++i) {
                const long me = t * per + i;
                const auto got = [&ran, me, id](auto&&... v) {
                    (void)id;
                    if constexpr (sizeof...(v) == 1) {
                        if ((v.get() + ... + 0u) != id) fail("wrong_value", "continuation %ld got %llx", me, (unsigned long long)(v.get() + ... + 0u));
                    }
                    ++ran[static_cast<std::size_t>(me)];
                    event();
                    return me;
                };
                if (i % 3 == 2)
                    kept[static_cast<std::size_t>(t)].push_back(f.recover(ex, [got](future<T> x) {
                        if constexpr (is_void)
                            return got();
                        else
                            return got(*x.get_try());
                    }));
                else if constexpr (is_void)
                    kept[static_cast<std::size_t>(t)].push_back(f.then(ex, [got] { return got(); }));
                else
                    kept[static_cast<std::size_t>(t)].push_back(f.then(ex, [got](const T& x) { return got(x); }));
            }
        });
    line.arrive();
    spin_us(c.r.range(0, 3000));
    p();
    for (auto& t : ts) t.join();
    for (int t = 0; t < threads; ++t)
        for (int i = 0; i < per; ++i)
            if (await(std::move(kept[static_cast<std::size_t>(t)][static_cast<std::size_t>(i)])) != t * per + i)
                fail("wrong_result", "the future of continuation %d has another result", i);
    for (auto& r : ran) VF_CHECK(r == 1, "ran_twice", "one of %zu continuations ran %d times", ran.size(), r.load());
    // a chain
    auto [q, g] = package<long()>(ex, [] { return 0L; });
    future<long> e = g;
    g.reset();
    const int start = c.r.range(0, length);
    for (int i = 0; i < length; ++i) {
        if (i == start) q();
        e = std::move(e) | (executor{ex} & [i](long x) {
                if (x != i) fail("wrong_value", "link %d of a chain got %ld", i, x);
                event();
                return x + 1;
            });
    }
    if (start == length) q();
    VF_CHECK(await(std::move(e)) == length, "wrong_result", "a chain of %d ends with something else", length);
    c.nontrivial = true;
    c.see(static_cast<std::uint64_t>(threads * 1000000L + per * 1000L + length));
}

// is_ready / get_try / get_ready never show a value that is not there
[[maybe_unused]] void observe(ctx& c) {
    perturb_level(static_cast<int>(c.r.below(3)));
    const auto id = c.r.next() | 1;
    auto [p, f] = package<cval(cval)>(make_exec(static_cast<int>(c.r.below(exec_kinds)), 0), [](cval v) { return v; });
    const int readers = 1 + static_cast<int>(c.r.below(3));
    std::vector<std::thread> th;
    std::atomic<std::uint64_t> polls{0};
    for (int i = 0; i < readers; ++i)
        th.emplace_back([&, i, f = f]() mutable {
            bool was = false;
            for (;;) {
                ++polls;
                if (i % 2) {
                    auto v = f.get_try();
                    VF_CHECK(v || !was, "unready", "a complete future lost its value");
                    if (v) {
                        VF_CHECK(v->get() == id, "wrong_value", "get_try saw %llx", (unsigned long long)v->get());
                        break;
                    }
                } else if (f.is_ready()) {
                    VF_CHECK(f.get_ready().get() == id, "wrong_value", "get_ready saw another value");
                    was = true;
                    auto v = std::move(f).get_try();
                    VF_CHECK(v && v->get() == id, "wrong_value", "get_try saw no or another value");
                    break;
                }
                std::this_thread::yield();
            }
            event();
        });
    rng r(c.r.next());
    for (auto i = r.below(30); i; --i) perturb();
    spin_us(static_cast<int>(r.below(60)));
    f = {};
    VF_CHECK(!p.canceled(), "canceled", "a task with live futures is reported as cancelled");
    p(cval{id});
    for (auto& t : th) t.join();
    c.nontrivial = true;
    c.see(polls.load());
    c.note = std::to_string(readers) + " readers polled " + std::to_string(polls.load()) + " times";
}
} // namespace

#if VF_PART == 0
VF_SCENARIO(dag_copyable, 700, 8000) { random_dag<cval>(c); }
VF_SCENARIO(manual_copyable, 4000, 60000) { manual_dag<cval>(c); }
VF_SCENARIO(ready_made_copyable, 400, 6000) { ready_made<cval>(c, 0); }
VF_SCENARIO(many_copyable, 6, 150) { many<cval>(c); }
VF_SCENARIO(attach_race_copyable, 500, 8000) { attach_race<cval>(c); }
#elif VF_PART == 1
VF_SCENARIO(dag_move_only, 500, 6000) { random_dag<mval>(c); }
VF_SCENARIO(manual_move_only, 3000, 40000) { manual_dag<mval>(c); }
VF_SCENARIO(chain_race_move_only, 600, 8000) { chain_race(c); }
VF_SCENARIO(ready_made_move_only, 400, 6000) { ready_made<mval>(c, 0); }
VF_SCENARIO(observe_ready, 400, 6000) { observe(c); }
#else
VF_SCENARIO(dag_void, 400, 5000) { random_dag<void>(c); }
VF_SCENARIO(manual_void, 3000, 40000) { manual_dag<void>(c); }
VF_SCENARIO(ready_made_void, 400, 6000) { ready_made<void>(c, 0); }
VF_SCENARIO(many_void, 6, 150) { many<void>(c); }
VF_SCENARIO(attach_race_void, 400, 6000) { attach_race<void>(c); }
#endif
