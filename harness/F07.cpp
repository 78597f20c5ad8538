// F07: blocking waits return exactly the result, and wait no more than they must.
#include "vf_fut.hpp"
using namespace vf;
using namespace stlab;
using namespace std::chrono_literals;

namespace {
struct seen {
    bool ok = false;
    std::uint64_t v = 0;
    bool operator==(const seen& x) const { return ok == x.ok && v == x.v; }
};
template <class T>
constexpr std::uint64_t good() {
    return std::is_void_v<T> ? 1 : 77;
}
// 0 value, 1 throws, 2 broken, 3 set_exception
template <class T>
struct source {
    int fate;
    packaged_task<> p;
    future<T> f;
    std::atomic<int> calls{0};
    std::atomic<bool> started{false}; // the completion has begun
    source(ctx& c) : fate(c.r.chance(55) ? 0 : 1 + static_cast<int>(c.r.below(3))) {
        auto x = package<T()>(make_exec(static_cast<int>(c.r.below(exec_kinds)), 0), [this]() -> T {
            ++calls;
            event();
            perturb();
            if (fate == 1) throw err{5};
            if constexpr (!std::is_void_v<T>) return T{77};
        });
        p = std::move(x.first);
        f = std::move(x.second);
    }
    seen expected() const {
        switch (fate) {
        case 0: return {true, good<T>()};
        case 2: return {false, broken_id};
        default: return {false, fate == 1 ? 5u : 6u};
        }
    }
    void complete() {
        started = true;
        switch (fate) {
        case 2: p = packaged_task<>(); break;
        case 3: p.set_exception(std::make_exception_ptr(err{6})); break;
        default: p();
        }
    }
};
template <class F>
seen look(F&& f) {
    try {
        if constexpr (std::is_void_v<decltype(f())>) {
            f();
            return {true, 1};
        } else
            return {true, f().get()};
    } catch (...) {
        return {false, error_id(std::current_exception())};
    }
}
template <class T>
seen of_ready(future<T> f) {
    if (!f.is_ready()) fail("not_ready", "the future is not ready");
    return look([&] { return std::move(f).get_ready(); });
}

// waits without a limit, by one or more threads
template <class T>
void wait_forever(ctx& c) {
    perturb_level(1 + static_cast<int>(c.r.below(3)));
    constexpr bool copyable = std::is_void_v<T> || std::is_same_v<T, cval>;
    source<T> s(c);
    const int n = copyable ? 1 + static_cast<int>(c.r.below(4)) : 1;
    const int kind = static_cast<int>(c.r.below(5));
    start_line line(n + 1);
    std::vector<std::thread> th;
    std::atomic<int> early{0};
    for (int t = 0; t < n; ++t) {
        future<T> mine;
        if constexpr (copyable)
            mine = s.f;
        else
            mine = std::move(s.f);
        th.emplace_back([&, t, f = std::move(mine), r = rng(c.r.next())]() mutable {
            line.arrive();
            for (auto i = r.below(8); i; --i) perturb();
            if (f.is_ready()) ++early;
            seen x;
            const auto t0 = now_ns();
            switch ((kind + t) % 5) {
            case 0:
            case 1: x = look([&] { return await(std::move(f)); }); break;
            case 2: x = look([&] { return blocking_get(std::move(f)); }); break;
            case 3: x = of_ready(await_for(std::move(f), 40s)); break;
            default:
                if constexpr (copyable)
                    x = look([&] { return await(f); });
                else
                    x = of_ready(blocking_get_for(std::move(f), 40s));
            }
            if (!s.started) fail("early", "a wait returned before the task was completed");
            if (now_ns() - t0 > 30'000'000'000ull) fail("missed", "a satisfied wait returned by its time limit only");
            if (!(x == s.expected()))
                fail("wrong_result", "a wait returned %d %llx, expected %d %llx", x.ok, (unsigned long long)x.v, s.expected().ok,
                     (unsigned long long)s.expected().v);
            event();
        });
    }
    s.f.reset();
    line.arrive();
    for (auto i = c.r.below(24); i; --i) perturb();
    s.complete();
    for (auto& t : th) t.join();
    VF_CHECK(s.calls == (s.fate < 2), "calls", "the task ran %d times", s.calls.load());
    c.nontrivial = true;
    c.see(static_cast<std::uint64_t>(s.fate * 1000 + n * 100 + kind * 10 + early));
    c.note = std::to_string(n) + " waiting threads, " + std::to_string(early.load()) + " found it ready, fate " + std::to_string(s.fate);
}

// timed waits: expire, are satisfied, or race
template <class T>
void wait_limited(ctx& c) {
    perturb_level(1 + static_cast<int>(c.r.below(3)));
    constexpr bool copyable = std::is_void_v<T> || std::is_same_v<T, cval>;
    auto s = std::make_unique<source<T>>(c);
    const int n = copyable ? 1 + static_cast<int>(c.r.below(3)) : 1;
    const int mode = static_cast<int>(c.r.below(4)); // 0: expires, 1, 2, 3: race
    const long us = mode == 0 ? c.r.range(0, 900) : c.r.range(20, 400);
    const long at = c.r.range(0, 500);
    std::vector<std::thread> th;
    std::atomic<int> expired{0}, satisfied{0};
    start_line line(n + 1);
    gate back;
    for (int t = 0; t < n; ++t) {
        future<T> mine;
        if constexpr (copyable)
            mine = s->f;
        else
            mine = std::move(s->f);
        th.emplace_back([&, t, f = std::move(mine), k = c.r.below(3), neg = c.r.chance(10)]() mutable {
            line.arrive();
            std::chrono::nanoseconds limit = std::chrono::microseconds(us);
            if (neg && mode == 0) limit = -limit;
            const auto t0 = now_ns();
            future<T> r;
            if (copyable && k == 2) {
                if constexpr (copyable) {
                    // gives an optional or a bool; keep a copy to look at it later
                    r = f;
                    bool got = false;
                    seen x{};
                    try {
                        auto o = blocking_get(f, limit);
                        got = static_cast<bool>(o);
                        if constexpr (std::is_void_v<T>)
                            x = {got, 1};
                        else if (got)
                            x = {true, o->get()};
                    } catch (...) {
                        got = true;
                        x = {false, error_id(std::current_exception())};
                    }
                    f.reset();
                    if (got) {
                        if (!s->started) fail("early", "a wait gave a result before the task was completed");
                        if (!(x == s->expected())) fail("wrong_result", "blocking_get gave %d %llx", x.ok, (unsigned long long)x.v);
                    }
                }
            } else
                r = k == 1 ? blocking_get_for(std::move(f), limit) : await_for(std::move(f), limit);
            const auto t1 = now_ns();
            event();
            if (!r.valid()) fail("invalid", "the returned future is not valid");
            if (!r.is_ready()) {
                ++expired;
                if (limit.count() > 0 && t1 - t0 < static_cast<std::uint64_t>(limit.count()))
                    fail("too_early", "the wait was given up after %llu ns, the limit is %lld ns", (unsigned long long)(t1 - t0),
                         (long long)limit.count());
            } else {
                if (!s->started) fail("early", "a wait returned a ready future before the task was completed");
                ++satisfied;
            }
            back.add();
            // it still delivers
            seen x = look([&] { return await(std::move(r)); });
            if (!(x == s->expected()))
                fail("wrong_result", "the future that was handed back has %d %llx, expected %d %llx", x.ok, (unsigned long long)x.v,
                     s->expected().ok, (unsigned long long)s->expected().v);
        });
    }
    s->f.reset();
    line.arrive();
    if (mode == 0)
        back.wait(n);
    else
        spin_us(static_cast<int>(at));
    s->complete();
    for (auto& t : th) t.join();
    VF_CHECK(mode != 0 || satisfied == 0, "early", "a wait was satisfied before the task was completed");
    VF_CHECK(s->calls == (s->fate < 2), "calls", "the task ran %d times", s->calls.load());
    c.nontrivial = true;
    c.see(static_cast<std::uint64_t>(s->fate * 10000 + n * 1000 + mode * 100 + expired * 10 + satisfied));
    c.note = std::to_string(n) + " timed waits of " + std::to_string(us) + "us: " + std::to_string(expired.load()) + " expired, " +
             std::to_string(satisfied.load()) + " satisfied, fate " + std::to_string(s->fate);
}

// ready futures: the wait does not need anything else to happen
template <class T>
void wait_ready(ctx& c) {
    source<T> s(c);
    std::optional<gate> g;
    s.complete();
    {
        // executors of other threads may still be completing it
        auto x = look([&] { return await(std::move(s.f)); });
        VF_CHECK(x == s.expected(), "wrong_result", "await of a completed future: %d %llx", x.ok, (unsigned long long)x.v);
    }
    // a ready future is returned as it is, whatever the limit
    auto [p, f] = package<T()>(immediate_executor, []() -> T {
        if constexpr (!std::is_void_v<T>) return T{77};
    });
    p();
    auto r = await_for(std::move(f), std::chrono::nanoseconds(c.r.range(-5, 5)));
    VF_CHECK(r.is_ready(), "not_ready", "await_for of a ready future gave one that is not");
    auto y = of_ready(std::move(r));
    VF_CHECK((y == seen{true, good<T>()}), "wrong_result", "await_for of a ready future: %d %llx", y.ok, (unsigned long long)y.v);
    event();
    c.nontrivial = true;
    c.see(static_cast<std::uint64_t>(s.fate));
}
} // namespace

#if VF_PART == 0
VF_SCENARIO(forever_copyable, 900, 12000) { wait_forever<cval>(c); }
VF_SCENARIO(limited_copyable, 900, 12000) { wait_limited<cval>(c); }
VF_SCENARIO(ready_copyable, 200, 2000) { wait_ready<cval>(c); }
#elif VF_PART == 1
VF_SCENARIO(forever_move_only, 700, 10000) { wait_forever<mval>(c); }
VF_SCENARIO(limited_move_only, 900, 12000) { wait_limited<mval>(c); }
VF_SCENARIO(ready_move_only, 200, 2000) { wait_ready<mval>(c); }
#else
VF_SCENARIO(forever_void, 700, 10000) { wait_forever<void>(c); }
VF_SCENARIO(limited_void, 900, 12000) { wait_limited<void>(c); }
VF_SCENARIO(ready_void, 200, 2000) { wait_ready<void>(c); }
#endif
