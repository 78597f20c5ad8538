// Futures which are made ready or exceptional.
#pragma once
#include "vf_fut.hpp"
#include <stlab/concurrency/ready_future.hpp>

namespace vf {

template <class T>
void ready_made(ctx& c, int bad_percent) {
    perturb_level(static_cast<int>(c.r.below(3)));
    c.nontrivial = true;
    const int n = c.r.range(1, 6);
    for (int i = 0; i < n; ++i) {
        const bool bad = c.r.chance(bad_percent);
        const std::uint64_t id = c.r.next() | 1;
        const auto e = make_exec(static_cast<int>(c.r.below(exec_kinds)), 0);
        const auto error = std::make_exception_ptr(err{id});
        stlab::future<T> f;
        if (bad)
            f = stlab::make_exceptional_future<T>(error, e);
        else if constexpr (std::is_void_v<T>)
            f = stlab::make_ready_future(e);
        else if (std::is_copy_constructible_v<T> && c.r.chance(50)) {
            if constexpr (std::is_copy_constructible_v<T>) {
                T v{id};
                f = stlab::make_ready_future(v, e);
                VF_CHECK(v.get() == id, "value_stolen", "the value the future was made of has changed");
            }
        } else
            f = stlab::make_ready_future(T{id}, e);
        VF_CHECK(f.valid() && f.is_ready(), "not_ready", "a future that was made %s is not ready", bad ? "exceptional" : "ready");
        const auto ex = f.exception();
        VF_CHECK(static_cast<bool>(ex) == bad, bad ? "error_lost" : "error_made_up", "exception() of a future that was made %s", bad ? "exceptional" : "ready");
        VF_CHECK(!bad || ex == error, "wrong_error", "exception() gives another exception");
        std::atomic<int> values{0}, errors{0};
        const auto has = [&](const stlab::future<T>& x) {
            const auto p = x.exception();
            VF_CHECK(x.is_ready() && static_cast<bool>(p) == bad && (!bad || p == error), "wrong_error", "recover got another result");
            errors += bad;
        };
        const auto value = [&](std::uint64_t v) {
            VF_CHECK(v == id, "wrong_value", "a continuation got %llx", (unsigned long long)v);
            ++values;
        };
        const auto k = c.r.below(4);
        c.see(k * 2 + bad);
        event();
        stlab::future<int> r;
        if (k == 0) {
            // looked at
            try {
                if constexpr (std::is_void_v<T>) {
                    VF_CHECK(f.get_try(), "not_ready", "get_try() finds nothing");
                    values = 1;
                } else {
                    auto v = std::move(f).get_try();
                    VF_CHECK(v, "not_ready", "get_try() finds nothing");
                    value(v->get());
                }
            } catch (const err& x) {
                VF_CHECK(x.id == id, "wrong_error", "get_try() throws another exception");
                ++errors;
            }
        } else if (k == 1) {
            try {
                if constexpr (std::is_void_v<T>) {
                    stlab::await(std::move(f));
                    values = 1;
                } else
                    value(stlab::await(std::move(f)).get());
            } catch (const err& x) {
                VF_CHECK(x.id == id, "wrong_error", "await() throws another exception");
                ++errors;
            }
        } else {
            const auto e2 = make_exec(static_cast<int>(c.r.below(exec_kinds)), 1);
            if (k == 2) {
                if constexpr (std::is_void_v<T>)
                    r = std::move(f).then(e2, [&] { values = 1; return 1; });
                else
                    r = std::move(f).then(e2, [&](T v) { value(v.get()); return 1; });
                r = std::move(r).recover([&](stlab::future<int> x) {
                    const auto p = x.exception();
                    VF_CHECK(static_cast<bool>(p) == bad && (!bad || p == error), "wrong_error", "another result behind then()");
                    errors += bad;
                    return 1;
                });
            } else
                r = std::move(f).recover(e2, [&](stlab::future<T> x) {
                    has(x);
                    if (!bad) {
                        if constexpr (std::is_void_v<T>)
                            values = 1;
                        else
                            value(std::move(x).get_try()->get());
                    }
                    return 1;
                });
            VF_CHECK(stlab::await(std::move(r)) == 1, "wrong_value", "another result");
        }
        VF_CHECK(values == !bad && errors == bad, "wrong_count", "%d values and %d errors were seen of a future that was made %s", values.load(), errors.load(), bad ? "exceptional" : "ready");
    }
    perturb_level(0);
}

} // namespace vf
