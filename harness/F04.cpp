// F04: a future of a future is reduced to the inner result.
#include "vf_fut.hpp"
using namespace vf;
using namespace stlab;

namespace {
template <class T>
struct nest {
    static constexpr bool is_void = std::is_void_v<T>;
    using fut = future<T>;
    struct level {
        int kind = 0;
        bool throws = false;
        std::atomic<int> calls{0};
        std::shared_ptr<std::atomic<long>> tok = std::make_shared<std::atomic<long>>(0);
        executor_t ex, ex2;
    };
    std::vector<level> lv;
    std::mutex m; // guards pkg
    std::vector<std::pair<int, packaged_task<>>> pkg;
    std::function<void()> on_pkg;
    std::uint64_t base = 5;

    explicit nest(std::size_t n) : lv(n) {}

    std::size_t leaf() const { return lv.size() - 1; }

    // what the reduced future reports
    std::pair<bool, std::uint64_t> expected() const {
        for (std::size_t i = 0; i < lv.size(); ++i) {
            if (lv[i].kind == 4) return {false, broken_id};
            if (lv[i].throws) return {false, 100 + i};
        }
        return {true, is_void ? 1 : base + lv.size()};
    }
    // how many of the functions run when everything is completed
    std::size_t runs() const {
        for (std::size_t i = 0; i < lv.size(); ++i) {
            if (lv[i].kind == 4) return i;
            if (lv[i].throws) return i + 1;
        }
        return lv.size();
    }

    auto leaf_fn(std::size_t i, std::shared_ptr<void> life) {
        return [this, i, t = token(lv[i].tok), l = std::move(life)]() -> T {
            event();
            ++lv[i].calls;
            perturb();
            if (lv[i].throws) throw err{100 + i};
            if constexpr (!is_void) return T{base + lv.size()};
        };
    }
    auto outer_fn(std::size_t i, std::shared_ptr<void> life) {
        return [this, i, t = token(lv[i].tok), l = std::move(life)]() -> fut {
            event();
            ++lv[i].calls;
            perturb();
            if (lv[i].throws) throw err{100 + i};
            return make(i + 1, l);
        };
    }
    void keep(std::size_t i, packaged_task<> p) {
        {
            std::lock_guard<std::mutex> l(m);
            pkg.emplace_back(static_cast<int>(i), std::move(p));
        }
        if (on_pkg) on_pkg();
    }
    // kind 0: async, 1: package completed from outside, 2: continuation of a ready future,
    // 3: recover of a ready future, 4 (leaf): broken, 5 (leaf): ready
    fut make(std::size_t i, std::shared_ptr<void> life) {
        auto& l = lv[i];
        const bool is_leaf = i == leaf();
        switch (l.kind) {
        case 0: return is_leaf ? async(l.ex, leaf_fn(i, life)) : async(l.ex, outer_fn(i, life));
        case 1: {
            if (is_leaf) {
                auto [p, f] = package<T()>(l.ex, leaf_fn(i, life));
                keep(i, std::move(p));
                return std::move(f);
            }
            auto [p, f] = package<fut()>(l.ex, outer_fn(i, life));
            keep(i, std::move(p));
            return std::move(f);
        }
        case 2: {
            auto r = async(immediate_executor, [] {});
            return is_leaf ? std::move(r).then(l.ex, leaf_fn(i, life)) : std::move(r).then(l.ex, outer_fn(i, life));
        }
        case 3: {
            auto r = async(l.ex2, []() -> int { throw err{1}; });
            if (is_leaf) return std::move(r).recover(l.ex, [f = leaf_fn(i, life)](future<int>) mutable { return f(); });
            return std::move(r).recover(l.ex, [f = outer_fn(i, life)](future<int>) mutable { return f(); });
        }
        case 4: {
            auto [p, f] = package<T()>(l.ex, leaf_fn(i, life));
            return std::move(f);
        }
        default: {
            auto [p, f] = package<T()>(immediate_executor, leaf_fn(i, life));
            p();
            return std::move(f);
        }
        }
    }
    void random(rng& r, bool is_manual) {
        const bool fails = r.chance(35);
        for (std::size_t i = 0; i < lv.size(); ++i) {
            lv[i].kind = static_cast<int>(r.below(i == leaf() ? 6 : 4));
            if (is_manual && lv[i].kind == 3 && r.chance(50)) lv[i].kind = 2;
            lv[i].throws = fails && r.chance(50) && lv[i].kind != 4;
        }
    }
};

template <class T>
std::pair<bool, std::uint64_t> outcome_of(future<T> f) {
    if (auto e = f.exception()) return {false, error_id(e)};
    if constexpr (std::is_void_v<T>) {
        std::move(f).get_ready();
        return {true, 1};
    } else
        return {true, std::move(f).get_ready().get()};
}

// Single threaded: after every step the reduced future is ready if and only if the innermost one is.
template <class T>
void manual(ctx& c) {
    manual_queue q;
    nest<T> n(2 + c.r.below(3));
    n.random(c.r, true);
    for (auto& l : n.lv) l.ex = c.r.chance(30) ? executor_t(immediate_executor) : q.executor(), l.ex2 = immediate_executor;
    std::atomic<int> fired{0};
    std::pair<bool, std::uint64_t> got{};
    // kind 3 defers twice, the function is alive in the meantime
    auto f = n.make(0, nullptr);
    const bool attach = c.r.chance(50);
    future<void> tail;
    if (attach) {
        tail = std::move(f).recover(immediate_executor, [&](future<T> x) {
            ++fired;
            got = outcome_of(std::move(x));
        });
        f.reset();
    }
    auto ready = [&] { return attach ? tail.is_ready() : f.is_ready(); };
    const int drop_after = c.r.chance(40) ? static_cast<int>(c.r.below(2 * n.lv.size())) : -1;
    bool dropped = false;
    int steps = 0;
    auto check = [&](const char* op) {
        event();
        std::size_t ran = 0;
        for (auto& l : n.lv) {
            VF_CHECK(l.calls <= 1, "ran_twice", "a level ran %d times", l.calls.load());
            ran += static_cast<std::size_t>(l.calls.load());
        }
        for (std::size_t i = 0; i < ran; ++i) VF_CHECK(n.lv[i].calls == 1, "order", "level %zu ran before an outer level", i);
        const bool finished = ran == n.runs();
        if (!dropped) VF_CHECK(ready() == finished, "ready", "after %s: %zu of %zu levels ran, is_ready is %d", op, ran, n.runs(), ready());
        for (std::size_t i = 0; i < n.lv.size(); ++i) {
            const long t = n.lv[i].tok->load();
            const bool alive = !dropped && !finished && i == ran;
            if (alive)
                VF_CHECK(t == 1, "cancelled", "after %s: the function of level %zu was destroyed although the reduced future is held", op, i);
            else
                VF_CHECK(t == 0, dropped ? "not_cancelled" : "kept", "after %s: the function of level %zu is still alive (%s)", op, i,
                         dropped ? "the reduced future was released" : "it has run");
        }
        for (auto& p : n.pkg) VF_CHECK(p.second.canceled() == dropped, "canceled", "canceled() of the level %d is wrong", p.first);
    };
    check("creation");
    while (!q.q.empty() || !n.pkg.empty()) {
        if (steps++ == drop_after) {
            dropped = true;
            f.reset();
            tail.reset();
            check("release");
        }
        if (!n.pkg.empty() && (q.q.empty() || c.r.chance(50))) {
            auto p = std::move(n.pkg.back());
            n.pkg.pop_back();
            p.second();
            check("invoke");
        } else {
            q.step(c.r);
            check("run");
        }
    }
    if (!dropped) {
        VF_CHECK(ready(), "ready", "everything ran and the reduced future is not ready");
        if (!attach)
            got = outcome_of(std::move(f));
        else
            VF_CHECK(fired == 1, "fired", "the continuation of the reduced future ran %d times", fired.load());
        VF_CHECK(got == n.expected(), "wrong_result", "got %d %llx, expected %d %llx", got.first, (unsigned long long)got.second,
                 n.expected().first, (unsigned long long)n.expected().second);
    }
    c.nontrivial = true;
    for (auto& l : n.lv) c.see(static_cast<std::uint64_t>(l.kind * 4 + l.throws * 2 + l.calls)), c.note += "kind " + std::to_string(l.kind) + (l.throws ? "! " : " ");
    c.see(static_cast<std::uint64_t>(dropped * 100 + steps));
    c.note += dropped ? "released early" : "completed";
}

// Everything concurrent.
template <class T>
void race(ctx& c) {
    perturb_level(1 + static_cast<int>(c.r.below(3)));
    nest<T> n(2 + c.r.below(3));
    n.random(c.r, false);
    gate gone, pkgs;
    auto life = std::shared_ptr<void>(&gone, [](void* p) { static_cast<gate*>(p)->add(); });
    for (auto& l : n.lv) {
        l.ex = make_exec(static_cast<int>(c.r.below(exec_kinds)), 0);
        l.ex2 = make_exec(static_cast<int>(c.r.below(exec_kinds)), 0);
    }
    std::atomic<bool> stop{false};
    n.on_pkg = [&] { pkgs.add(); };
    std::atomic<int> fired{0};
    auto f = n.make(0, life); // kept by the functions
    std::thread comp([&, s = c.r.next()] {
        rng r(s);
        for (long k = 1;; ++k) {
            pkgs.wait(k);
            std::pair<int, packaged_task<>> p;
            {
                std::lock_guard<std::mutex> l(n.m);
                if (n.pkg.empty()) {
                    if (stop) return;
                    continue;
                }
                p = std::move(n.pkg.back());
                n.pkg.pop_back();
            }
            for (auto i = r.below(8); i; --i) perturb();
            p.second();
        }
    });
    const int how = static_cast<int>(c.r.below(5));
    std::pair<bool, std::uint64_t> got{false, 0};
    bool complete = true;
    for (auto i = c.r.below(10); i; --i) perturb();
    switch (how) {
    case 0: // release
        f.reset();
        complete = false;
        break;
    case 1: // await
        try {
            if constexpr (std::is_void_v<T>) {
                await(std::move(f));
                got = {true, 1};
            } else
                got = {true, await(std::move(f)).get()};
        } catch (...) {
            got = {false, error_id(std::current_exception())};
        }
        break;
    case 2: { // continuation
        auto t = std::move(f).recover(make_exec(static_cast<int>(c.r.below(exec_kinds)), 0), [&](future<T> x) {
            ++fired;
            got = outcome_of(std::move(x));
        });
        await(std::move(t));
        VF_CHECK(fired == 1, "fired", "the continuation of the reduced future ran %d times", fired.load());
        break;
    }
    case 3: { // attached and released
        auto t = std::move(f).recover(make_exec(static_cast<int>(c.r.below(exec_kinds)), 0), [&, l = life](future<T>) { ++fired; });
        for (auto i = c.r.below(10); i; --i) perturb();
        t.reset();
        complete = false;
        break;
    }
    default: { // detached
        gate g;
        std::move(f).detach([&](future<T> x) {
            ++fired;
            got = outcome_of(std::move(x));
            g.add();
        });
        g.wait(1);
        VF_CHECK(fired == 1, "fired", "the continuation of the reduced future ran %d times", fired.load());
    }
    }
    life.reset();
    gone.wait(1); // a function that is never destroyed is a stall
    stop = true;
    pkgs.add(1000);
    comp.join();
    std::size_t ran = 0;
    for (std::size_t i = 0; i < n.lv.size(); ++i) {
        const int k = n.lv[i].calls;
        VF_CHECK(k <= 1, "ran_twice", "level %zu ran %d times", i, k);
        VF_CHECK(!k || i == ran, "order", "level %zu ran without its outer level", i);
        ran += static_cast<std::size_t>(k);
        c.see(static_cast<std::uint64_t>(n.lv[i].kind * 4 + n.lv[i].throws * 2 + k));
    }
    VF_CHECK(ran <= n.runs(), "ran_after_failure", "%zu levels ran, expected %zu", ran, n.runs());
    if (complete) {
        VF_CHECK(ran == n.runs(), "not_run", "%zu levels ran, expected %zu", ran, n.runs());
        VF_CHECK(got == n.expected(), "wrong_result", "got %d %llx, expected %d %llx", got.first, (unsigned long long)got.second,
                 n.expected().first, (unsigned long long)n.expected().second);
    }
    // the remaining packaged tasks belong to released futures
    for (auto& p : n.pkg) VF_CHECK(p.second.canceled(), "canceled", "a task of a released reduced future is not cancelled");
    c.nontrivial = true;
    c.see(static_cast<std::uint64_t>(how));
    c.note = std::to_string(n.lv.size()) + " levels, use " + std::to_string(how) + ", " + std::to_string(ran) + " ran";
}

// The outer function returns a copy of a future that others hold too.
[[maybe_unused]] void shared_inner(ctx& c) {
    perturb_level(1 + static_cast<int>(c.r.below(3)));
    auto ex = make_exec(static_cast<int>(c.r.below(exec_kinds)), 0);
    auto ex2 = make_exec(static_cast<int>(c.r.below(exec_kinds)), 0);
    const bool fails = c.r.chance(30);
    auto [p, inner] = package<cval()>(ex, [fails]() -> cval {
        if (fails) throw err{9};
        return cval{8};
    });
    const int n = 1 + static_cast<int>(c.r.below(4));
    std::vector<future<cval>> outer;
    for (int i = 0; i < n; ++i)
        outer.push_back(i % 2 ? async(ex2, [f = inner] { return f; }) :
                                async(ex, [f = inner] { return async(immediate_executor, [f] { return f; }); }));
    std::thread t([p = std::move(p), s = c.r.next()]() mutable {
        rng r(s);
        for (auto i = r.below(16); i; --i) perturb();
        p();
    });
    const bool keep = c.r.chance(50);
    if (!keep) inner.reset();
    int dropped = 0;
    for (auto& o : outer) {
        if (c.r.chance(20) && dropped + 1 < n) {
            ++dropped;
            o.reset();
            continue;
        }
        event();
        std::uint64_t v = 0;
        try {
            v = await(std::move(o)).get();
        } catch (...) {
            v = error_id(std::current_exception());
        }
        VF_CHECK(v == (fails ? 9u : 8u), "wrong_result", "got %llx", (unsigned long long)v);
    }
    t.join();
    if (keep) {
        VF_CHECK(inner.is_ready(), "ready", "the inner future is not ready");
        auto r = outcome_of(inner);
        VF_CHECK(r == std::make_pair(!fails, std::uint64_t{fails ? 9u : 8u}), "wrong_result", "the inner future has %llx", (unsigned long long)r.second);
    }
    c.nontrivial = true;
    c.see(static_cast<std::uint64_t>(n * 100 + dropped * 10 + keep * 2 + fails));
    c.note = std::to_string(n) + " reduced futures of one shared inner future, " + std::to_string(dropped) + " released";
}
} // namespace

// the inner future is shared, its result has to be copied, which can throw
static void sharing(ctx& c) {
    const long live = tval::live;
    manual_queue q;
    auto some = [&] { return c.r.chance(50) ? executor_t(stlab::immediate_executor) : q.executor(); };
    const int depth = 1 + static_cast<int>(c.r.below(3)), percent = c.r.chance(40) ? 100 : 40;
    const bool bad = c.r.chance(20), early = c.r.chance(40);
    auto in = stlab::package<tval(std::uint64_t)>(some(), [&](std::uint64_t id) {
        if (bad) throw err{id};
        return tval{id};
    });
    stlab::future<tval> inner = std::move(in.second), held, f;
    if (c.r.chance(75)) held = inner;
    if (early) in.first(77);
    tval::arm([&](std::uint64_t) { return c.r.chance(percent); });
    const executor_t a = some(), b = some(), d = some();
    switch (depth) {
    case 1: f = stlab::async(a, [x = std::move(inner)]() mutable { return std::move(x); }); break;
    case 2: f = stlab::async(a, [b, x = std::move(inner)]() mutable {
                return stlab::async(b, [x = std::move(x)]() mutable { return std::move(x); });
            }); break;
    default: f = stlab::async(a, [] {}).then(b, [d, x = std::move(inner)]() mutable {
                 return stlab::async(d, [x = std::move(x)]() mutable { return x; });
             });
    }
    if (c.r.chance(60)) q.drain(c.r);
    if (!early) in.first(77);
    q.drain(c.r);
    const auto thrown = tval::thrown.size();
    tval::arm(nullptr);
    VF_CHECK(f.is_ready(), "pending", "a reduced future stays pending, %zu copies threw", thrown);
    if (auto e = f.exception()) {
        try {
            std::rethrow_exception(e);
        } catch (const err& x) {
            VF_CHECK(bad && x.id == 77, "wrong_error", "unknown exception");
        } catch (const tval::error& x) {
            VF_CHECK(!bad && thrown > 0 && x.id == 77, "wrong_error", "a copy threw, but %zu did", thrown);
        } catch (...) {
            fail("wrong_error", "a reduced future reports another exception");
        }
    } else {
        VF_CHECK(!bad && thrown == 0, "lost_error", "a reduced future has a value although %zu copies threw", thrown);
        VF_CHECK(f.get_ready().get() == 77, "wrong_value", "a reduced future has another value");
    }
    if (held.valid() && !bad) VF_CHECK(held.get_ready().get() == 77, "wrong_value", "the inner result changed");
    f.reset(), held.reset(), inner.reset();
    in.first = {};
    VF_CHECK(tval::live == live, "leak", "%ld values are left", tval::live - live);
    c.nontrivial = thrown > 0;
    c.see(static_cast<std::uint64_t>(depth * 100 + bad * 50 + early * 25) + thrown);
    c.note = std::to_string(depth) + " levels, " + std::to_string(thrown) + " copies threw";
}
#if VF_PART == 0
VF_SCENARIO(manual_copyable, 6000, 100000) { manual<cval>(c); }
VF_SCENARIO(race_copyable, 600, 10000) { race<cval>(c); }
VF_SCENARIO(copies_throw, 2000, 40000) { sharing(c); }
VF_SCENARIO(shared_inner_copyable, 600, 10000) { shared_inner(c); }
#elif VF_PART == 1
VF_SCENARIO(manual_move_only, 6000, 100000) { manual<mval>(c); }
VF_SCENARIO(race_move_only, 600, 10000) { race<mval>(c); }
#else
VF_SCENARIO(manual_void, 6000, 100000) { manual<void>(c); }
VF_SCENARIO(race_void, 600, 10000) { race<void>(c); }
#endif
