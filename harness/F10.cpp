// F10: a coroutine returning a future resumes once and completes with its result.
#include "vf_fut.hpp"
using namespace vf;
using namespace stlab;

namespace {
struct step {
    int kind = 0; // 0 ready, 1 async, 2 package completed elsewhere, 3 nested coroutine, 4 continuation
    int fate = 0; // 0 value, 1 throws, 2 broken (kind 2)
    bool caught = false;
    std::atomic<int> calls{0}, resumed{0};
    std::atomic<bool> complete{false}; // the producer is done or gave up
};
template <class T>
struct world {
    static constexpr bool is_void = std::is_void_v<T>;
    std::vector<step> steps;
    std::atomic<int> entered{0}, left{0}, threw{0};
    std::function<executor_t()> ex;
    std::function<void(step*, packaged_task<>)> publish;
    std::shared_ptr<std::atomic<long>> locals = std::make_shared<std::atomic<long>>(0);
    bool final_throw = false;

    explicit world(std::size_t n) : steps(n) {}

    T value(std::size_t i) const {
        if constexpr (!is_void) return T{i + 10};
    }
    T produce(std::size_t i) {
        step& s = steps[i];
        ++s.calls;
        event();
        perturb();
        s.complete = true;
        if (s.fate == 1) throw err{600 + i};
        return value(i);
    }
    future<T> make(std::size_t i, std::shared_ptr<void> life) {
        step& s = steps[i];
        switch (s.kind) {
        case 0: {
            auto [p, f] = package<T()>(immediate_executor, [this, i]() -> T { return produce(i); });
            if (s.fate == 2)
                s.complete = true;
            else
                p();
            p = packaged_task<>();
            return std::move(f);
        }
        case 1: return async(ex(), [this, i, life]() -> T { return produce(i); });
        case 2: {
            auto [p, f] = package<T()>(ex(), [this, i, life]() -> T { return produce(i); });
            publish(&s, std::move(p));
            return std::move(f);
        }
        case 3: return inner(i, life, token(locals));
        default: return async(ex(), [] {}).then(ex(), [this, i, life]() -> T { return produce(i); });
        }
    }
    future<T> inner(std::size_t i, std::shared_ptr<void> life, token t) {
        if (i % 2) co_await async(ex(), [life] {});
        if constexpr (is_void) {
            produce(i);
            co_return;
        } else
            co_return produce(i);
    }
    void check_resume(std::size_t i) {
        event();
        step& s = steps[i];
        if (++s.resumed > 1) fail("resumed_twice", "the coroutine was resumed %d times at step %zu", s.resumed.load(), i);
        if (!s.complete) fail("resumed_early", "the coroutine was resumed at step %zu before the future was complete", i);
    }
    // awaits every step; stops at the first failure that is not caught
    future<T> outer(std::shared_ptr<void> life, token t) {
        ++entered;
        token local(locals);
        std::uint64_t sum = 0;
        for (std::size_t i = 0; i < steps.size(); ++i) {
            perturb();
            bool bad = false;
            if (steps[i].caught) {
                try {
                    if constexpr (is_void)
                        co_await make(i, life);
                    else {
                        auto v = co_await make(i, life);
                        check_value(i, v);
                        sum += v.get();
                    }
                } catch (...) {
                    bad = true;
                    check_error(i, std::current_exception());
                }
                check_resume(i);
            } else {
                struct guard { // also runs when co_await throws
                    world* w;
                    std::size_t i;
                    ~guard() { w->check_resume(i); }
                } g{this, i};
                if constexpr (is_void)
                    co_await make(i, life);
                else {
                    auto f = make(i, life);
                    auto v = co_await std::move(f);
                    check_value(i, v);
                    sum += v.get();
                }
            }
            if (bad != (steps[i].fate != 0)) fail("wrong_result", "step %zu: fate %d, exception %d", i, steps[i].fate, bad);
        }
        ++left;
        if (final_throw) throw err{999};
        if constexpr (is_void)
            co_return;
        else
            co_return T{sum + 1};
    }
    template <class V>
    void check_value(std::size_t i, const V& v) {
        if (v.get() != i + 10) fail("wrong_value", "co_await at step %zu gave %llx", i, (unsigned long long)v.id);
    }
    void check_error(std::size_t i, const std::exception_ptr& e) {
        const auto want = steps[i].fate == 2 ? broken_id : steps[i].fate == 1 ? 600 + i : 0;
        if (error_id(e) != want) fail("wrong_error", "co_await at step %zu threw %llx", i, (unsigned long long)error_id(e));
    }
    std::size_t stop() const { // the step which ends the coroutine
        for (std::size_t i = 0; i < steps.size(); ++i)
            if (steps[i].fate && !steps[i].caught) return i;
        return steps.size();
    }
    std::pair<bool, std::uint64_t> expected() const {
        const auto e = stop();
        if (e < steps.size()) return {false, steps[e].fate == 2 ? broken_id : 600 + e};
        if (final_throw) return {false, 999};
        std::uint64_t sum = 1;
        for (std::size_t i = 0; i < steps.size(); ++i)
            if (!steps[i].fate) sum += i + 10;
        return {true, is_void ? 1 : sum};
    }
    void random(rng& r) {
        const bool fails = r.chance(60);
        for (auto& s : steps) {
            s.kind = static_cast<int>(r.below(5));
            s.fate = fails && r.chance(40) ? 1 : 0;
            if (s.fate && (s.kind == 2 || s.kind == 0) && r.chance(50)) s.fate = 2;
            s.caught = r.chance(60);
        }
        final_throw = r.chance(15);
    }
    void finish(std::size_t upto) {
        if (entered != 1) fail("entered", "the coroutine was entered %d times", entered.load());
        for (std::size_t i = 0; i < steps.size(); ++i) {
            const int want = i <= upto;
            if (steps[i].resumed != want) fail("resumed", "step %zu was resumed %d times, expected %d", i, steps[i].resumed.load(), want);
            const int calls = want && steps[i].fate != 2;
            if (steps[i].calls != calls) fail("calls", "the producer of step %zu ran %d times", i, steps[i].calls.load());
        }
        if (*locals != 0) fail("frame", "%ld locals or parameters of coroutines are still alive", locals->load());
    }
};
template <class T>
std::pair<bool, std::uint64_t> outcome_of(future<T> f) {
    if (auto e = f.exception()) return {false, error_id(e)};
    if constexpr (std::is_void_v<T>) {
        std::move(f).get_ready();
        return {true, 1};
    } else
        return {true, std::move(f).get_ready().get()};
}

template <class T>
void concurrent(ctx& c) {
    perturb_level(1 + static_cast<int>(c.r.below(3)));
    world<T> w(1 + c.r.below(5));
    w.random(c.r);
    gate gone;
    std::mutex m;
    std::vector<std::pair<step*, packaged_task<>>> pk;
    gate pks;
    std::atomic<bool> over{false};
    rng er(c.r.next());
    std::mutex em;
    w.ex = [&] {
        std::lock_guard<std::mutex> l(em);
        return make_exec(static_cast<int>(er.below(exec_kinds)), 0);
    };
    w.publish = [&](step* s, packaged_task<> p) {
        {
            std::lock_guard<std::mutex> l(m);
            pk.emplace_back(s, std::move(p));
        }
        pks.add();
    };
    std::thread comp([&, r = rng(c.r.next())]() mutable {
        for (long k = 1;; ++k) {
            pks.wait(k);
            std::pair<step*, packaged_task<>> x;
            {
                std::lock_guard<std::mutex> l(m);
                if (pk.empty()) return;
                x = std::move(pk.back());
                pk.pop_back();
            }
            for (auto i = r.below(8); i; --i) perturb();
            if (x.first->fate == 2) {
                x.first->complete = true;
                x.second = packaged_task<>();
            } else
                x.second();
        }
    });
    auto life = std::shared_ptr<void>(&gone, [](void* p) { static_cast<gate*>(p)->add(); });
    auto f = w.outer(life, token(w.locals));
    const int how = static_cast<int>(c.r.below(4));
    std::pair<bool, std::uint64_t> got{};
    std::atomic<int> fired{0};
    switch (how) {
    case 0: // nobody wants the result, the coroutine still runs to its end
        f.reset();
        break;
    case 1:
        try {
            if constexpr (std::is_void_v<T>) {
                await(std::move(f));
                got = {true, 1};
            } else
                got = {true, await(std::move(f)).get()};
        } catch (...) {
            got = {false, error_id(std::current_exception())};
        }
        break;
    case 2:
        std::move(f).detach([&, life](future<T> x) {
            ++fired;
            got = outcome_of(std::move(x));
        });
        break;
    default:
        await(std::move(f).recover(make_exec(static_cast<int>(c.r.below(exec_kinds)), 0), [&, life](future<T> x) {
            ++fired;
            got = outcome_of(std::move(x));
        }));
    }
    life.reset();
    gone.wait(1);
    pks.add(100);
    comp.join();
    w.finish(w.stop());
    if (how) VF_CHECK(got == w.expected(), "wrong_result", "the coroutine gave %d %llx, expected %d %llx", got.first, (unsigned long long)got.second, w.expected().first, (unsigned long long)w.expected().second);
    if (how >= 2) VF_CHECK(fired == 1, "fired", "the continuation of the coroutine ran %d times", fired.load());
    c.nontrivial = true;
    c.see(static_cast<std::uint64_t>(how));
    for (auto& s : w.steps) {
        c.see(static_cast<std::uint64_t>(s.kind * 100 + s.fate * 10 + s.caught * 2));
        c.note += std::to_string(s.kind) + (s.fate ? (s.caught ? "c " : "! ") : " ");
    }
    c.note += "use " + std::to_string(how);
}

// Single threaded: the frame must be gone when the coroutine has ended, and not before.
template <class T>
void manual(ctx& c) {
    manual_queue q;
    world<T> w(1 + c.r.below(5));
    w.random(c.r);
    std::vector<std::pair<step*, packaged_task<>>> pk;
    w.ex = [&] { return c.r.chance(30) ? executor_t(immediate_executor) : q.executor(); };
    w.publish = [&](step* s, packaged_task<> p) { pk.emplace_back(s, std::move(p)); };
    auto f = w.outer(nullptr, token(w.locals));
    const bool drop = c.r.chance(30);
    if (drop && c.r.chance(50)) f.reset();
    while (!q.q.empty() || !pk.empty()) {
        if (f.valid()) VF_CHECK(!f.is_ready(), "early", "the coroutine's future is ready while it waits");
        VF_CHECK(*w.locals > 0, "frame", "the frame of a suspended coroutine was destroyed");
        if (!pk.empty() && c.r.chance(50)) {
            auto x = std::move(pk.back());
            pk.pop_back();
            if (x.first->fate == 2) {
                x.first->complete = true;
                x.second = packaged_task<>();
            } else
                x.second();
        } else
            q.step(c.r);
        if (drop && c.r.chance(30)) f.reset();
    }
    w.finish(w.stop());
    if (f.valid()) {
        VF_CHECK(f.is_ready(), "lost", "the coroutine has not completed and nothing is left to do");
        auto got = outcome_of(std::move(f));
        VF_CHECK(got == w.expected(), "wrong_result", "the coroutine gave %d %llx, expected %d %llx", got.first, (unsigned long long)got.second, w.expected().first, (unsigned long long)w.expected().second);
    }
    c.nontrivial = true;
    for (auto& s : w.steps) {
        c.see(static_cast<std::uint64_t>(s.kind * 100 + s.fate * 10 + s.caught * 2));
        c.note += std::to_string(s.kind) + (s.fate ? (s.caught ? "c " : "! ") : " ");
    }
}

// One coroutine awaits very many futures, very many coroutines await one.
[[maybe_unused]] void very_many(ctx& c) {
    perturb_level(0);
    auto ex = make_exec(static_cast<int>(c.r.below(3)), 0);
    const int n = c.r.range(500, 4000), crowd = c.r.range(100, 1500);
    auto loop = [&](rng r) -> future<long> {
        long sum = 0;
        for (int i = 0; i < n; ++i) {
            switch (r.below(5)) {
            case 0: sum += co_await make_ready_future(1L * i, stlab::immediate_executor); break;
            case 1: sum += (co_await async(ex, [i] { return mval{static_cast<std::uint64_t>(i)}; })).get(); break;
            case 2:
                co_await async(ex, [] {});
                sum += i;
                break;
            case 3:
                try {
                    sum += co_await async(ex, [i]() -> long { throw err{static_cast<std::uint64_t>(i)}; });
                } catch (const err& e) {
                    sum += static_cast<long>(e.id);
                }
                break;
            default: sum += co_await async(ex, [i] { return 1L * i; }).then([](long x) { return x; });
            }
            if ((i & 63) == 0) event();
        }
        co_return sum;
    };
    const auto sum = await(loop(rng(c.r.next())));
    VF_CHECK(sum == 1L * n * (n - 1) / 2, "wrong_value", "a coroutine that awaits %d futures returns %ld", n, sum);
    auto [p, f] = package<long()>(ex, [] { return 7L; });
    std::atomic<int> resumed{0};
    auto wait = [&](future<long> x, long me) -> future<long> {
        const auto v = co_await std::move(x);
        ++resumed;
        co_return v + me;
    };
    std::vector<future<long>> all;
    const int at = c.r.range(0, crowd);
    for (int i = 0; i < crowd; ++i) {
        if (i == at) p();
        all.push_back(wait(f, i));
    }
    if (at == crowd) p();
    for (int i = 0; i < crowd; ++i)
        VF_CHECK(await(std::move(all[static_cast<std::size_t>(i)])) == 7 + i, "wrong_value", "coroutine %d of %d has another result", i, crowd);
    VF_CHECK(resumed == crowd, "resumed", "%d of %d coroutines were resumed", resumed.load(), crowd);
    c.nontrivial = true;
    c.see(static_cast<std::uint64_t>(n * 10000 + crowd));
}

// Many coroutines await copies of one future.
[[maybe_unused]] void shared(ctx& c) {
    perturb_level(1 + static_cast<int>(c.r.below(3)));
    auto ex = make_exec(static_cast<int>(c.r.below(exec_kinds)), 0);
    const bool bad = c.r.chance(30);
    const auto id = (c.r.next() | 1) >> 8;
    auto [p, f] = package<cval()>(ex, [=]() -> cval {
        if (bad) throw err{4};
        return cval{id};
    });
    const int n = 2 + static_cast<int>(c.r.below(4));
    std::atomic<int> resumed{0};
    std::thread t([p = std::move(p), r = rng(c.r.next())]() mutable {
        for (auto i = r.below(20); i; --i) perturb();
        p();
    });
    auto co = [&](future<cval> x) -> future<std::uint64_t> {
        std::uint64_t v = 0;
        try {
            auto y = co_await std::move(x);
            v = y.get();
            *y.heap = 0;
            y.id = 0;
        } catch (const err& e) {
            v = e.id;
        }
        ++resumed;
        event();
        co_return v;
    };
    std::vector<future<std::uint64_t>> r;
    int early = 0;
    for (int i = 0; i < n; ++i) {
        early += f.is_ready();
        r.push_back(co(f));
        perturb();
    }
    f.reset();
    for (auto& x : r) {
        const auto v = await(std::move(x));
        VF_CHECK(v == (bad ? 4 : id), "wrong_value", "a coroutine saw %llx", (unsigned long long)v);
    }
    t.join();
    VF_CHECK(resumed == n, "resumed", "%d of %d coroutines were resumed", resumed.load(), n);
    c.nontrivial = true;
    c.see(static_cast<std::uint64_t>(n * 100 + early * 2 + bad));
    c.note = std::to_string(n) + " coroutines, " + std::to_string(early) + " found it ready";
}
// creating the result, or the value a shared future gives, can throw
static future<tval> give(int how, future<tval> in, tval local) {
    switch (how) {
    case 0: co_return local;
    case 1: {
        const tval& x = local;
        co_return x;
    }
    case 2: co_return co_await in;
    case 3: {
        auto x = co_await std::move(in);
        co_return x;
    }
    default: co_return std::move(local);
    }
}
static void sharing(ctx& c) {
    const long live = tval::live;
    {
        manual_queue q;
        const executor_t ex = c.r.chance(50) ? executor_t(stlab::immediate_executor) : q.executor();
        auto [p, in] = package<tval(std::uint64_t)>(ex, [](std::uint64_t id) { return tval{id}; });
        future<tval> held;
        if (c.r.chance(75)) held = in;
        const bool early = c.r.chance(50);
        const int how = static_cast<int>(c.r.below(5)), percent = c.r.chance(40) ? 100 : 40;
        if (early) p(88);
        tval::arm([&](std::uint64_t) { return c.r.chance(percent); });
        auto f = give(how, std::move(in), tval{88});
        q.drain(c.r);
        if (!early) p(88);
        q.drain(c.r);
        const auto thrown = tval::thrown.size();
        tval::arm(nullptr);
        VF_CHECK(f.is_ready(), "pending", "the future of a coroutine stays pending, %zu copies threw", thrown);
        if (auto e = f.exception()) {
            try {
                std::rethrow_exception(e);
            } catch (const tval::error& x) {
                VF_CHECK(thrown > 0 && x.id == 88, "wrong_error", "a copy threw, but %zu did", thrown);
            } catch (...) {
                fail("wrong_error", "a coroutine reports another exception");
            }
        } else {
            VF_CHECK(thrown == 0, "lost_error", "a coroutine has a value although %zu copies threw", thrown);
            VF_CHECK(f.get_ready().get() == 88, "wrong_value", "a coroutine has another value");
        }
        if (held.valid()) VF_CHECK(held.get_ready().get() == 88, "wrong_value", "the shared result changed");
        c.nontrivial = thrown > 0;
        c.see(static_cast<std::uint64_t>(how * 100 + early * 50) + thrown);
        c.note = "kind " + std::to_string(how) + ", " + std::to_string(thrown) + " copies threw";
    }
    VF_CHECK(tval::live == live, "leak", "%ld values are left", tval::live - live);
}
} // namespace

#if VF_PART == 0
VF_SCENARIO(concurrent_copyable, 700, 10000) { concurrent<cval>(c); }
VF_SCENARIO(manual_copyable, 4000, 60000) { manual<cval>(c); }
VF_SCENARIO(copies_throw, 2000, 40000) { sharing(c); }
VF_SCENARIO(many, 4, 100) { very_many(c); }
VF_SCENARIO(shared_future, 700, 10000) { shared(c); }
#elif VF_PART == 1
VF_SCENARIO(concurrent_move_only, 700, 10000) { concurrent<mval>(c); }
VF_SCENARIO(manual_move_only, 4000, 60000) { manual<mval>(c); }
#else
VF_SCENARIO(concurrent_void, 700, 10000) { concurrent<void>(c); }
VF_SCENARIO(manual_void, 4000, 60000) { manual<void>(c); }
#endif
