// U02: scoped calls, tuple and argument helpers against direct definitions.
#include "vf.hpp"

#include <array>
#include <list>
#include <memory>
#include <mutex>
#include <optional>
#include <shared_mutex>
#include <tuple>

#include <stlab/algorithm/reverse.hpp>
#include <stlab/concurrency/tuple_algorithm.hpp>
#include <stlab/functional.hpp>
#include <stlab/memory.hpp>
#include <stlab/scope.hpp>
#include <stlab/utility.hpp>
using namespace vf;

namespace {

// what happened, in order
struct trace {
    std::vector<int> ops;
    std::vector<int> open; // guards alive
    int live = 0;
    void op(int x) {
        ops.push_back(x);
        event();
    }
};
trace* g_trace;
int g_throw_ctor; // the guard with this name throws when it is constructed

struct token { // counts its copies and moves
    int name;
    int copies = 0, moves = 0;
    explicit token(int n) : name(n) {}
    token(const token& x) : name(x.name), copies(x.copies + 1), moves(x.moves) {}
    token(token&& x) noexcept : name(x.name), copies(x.copies), moves(x.moves + 1) { x.name = -1; }
};

struct guard {
    int name;
    void enter() {
        if (g_throw_ctor == name) throw std::range_error("guard");
        g_trace->op(1000 + name);
        g_trace->open.push_back(name);
        ++g_trace->live;
    }
    explicit guard(int n) : name(n) { enter(); }
    guard(token& t, int n) : name(n) {
        VF_CHECK(t.name == n + 1 && t.copies == 0 && t.moves == 0, "scope_argument", "an lvalue argument is not passed as such");
        enter();
    }
    guard(token&& t, std::unique_ptr<int> p, const token& u) : name(*p) {
        VF_CHECK(t.name == name + 2 && t.copies == 0 && t.moves == 0, "scope_argument", "an rvalue argument is not passed as such");
        VF_CHECK(u.name == name + 3 && u.copies == 0 && u.moves == 0, "scope_argument", "a const argument is not passed as such");
        const token taken(std::move(t));
        enter();
    }
    guard(const guard&) = delete;
    ~guard() {
        VF_CHECK(!g_trace->open.empty() && g_trace->open.back() == name, "scope_order", "guard %d is destroyed out of order", name);
        g_trace->open.pop_back();
        --g_trace->live;
        g_trace->op(2000 + name);
    }
};

struct thrown {
    int n;
};

// called as lvalue or rvalue, once
struct callable {
    rng* r;
    int depth;
    int name;
        int fate; // 0 value, 1 throws
    bool rvalue_ok = false;
    int calls = 0;
    int run();
    int operator()() & {
        VF_CHECK(!rvalue_ok, "scope_category", "an rvalue function is called as an lvalue");
        return run();
    }
    int operator()() && {
        VF_CHECK(rvalue_ok, "scope_category", "an lvalue function is called as an rvalue");
        return run();
    }
};

int nest(rng& r, int depth, int& names);

int g_names;

int callable::run() {
    ++calls;
    VF_CHECK(!g_trace->open.empty() && g_trace->open.back() == name, "scope_held", "the guard does not exist during the call");
    g_trace->op(3000 + name);
    int v = 0;
    if (depth > 0) v = nest(*r, depth - 1, g_names);
    VF_CHECK(g_trace->open.back() == name, "scope_held", "the guard is gone before the call has ended");
    if (fate == 1) throw thrown{name};
    return v + name;
}

// one scoped call, with others inside; returns the sum of the names
int nest(rng& r, int depth, int& names) {
    const int name = ++names * 4;
    const auto open = g_trace->open;
    callable f{&r, depth, name, r.chance(25) ? 1 : 0};
    const bool no_guard = r.chance(10);
    g_throw_ctor = no_guard ? name : -1;
    token a(name + 1), b(name + 2);
    const token u(name + 3);
    int result = 0;
    int kind = static_cast<int>(r.below(6));
    bool out = false;
    try {
        switch (kind) {
        case 0: result = stlab::scope<guard>(name, f); break;
        case 1: result = stlab::scope<guard>(a, name, f); break;
        case 2: result = stlab::scope<guard>(std::move(b), std::make_unique<int>(name), u, f); break;
        case 3:
            f.rvalue_ok = true;
            result = stlab::scope<guard>(name, std::move(f));
            break;
        case 4: {
            auto p = stlab::scope<guard>(name, [&] { return std::make_unique<int>(f()); });
            result = *p;
            break;
        }
        case 5: {
            int got = 0;
            stlab::scope<guard>(name, [&] { got = f(); });
            result = got;
            break;
        }
        }
    } catch (const thrown&) {
        out = true;
    } catch (const std::range_error&) {
        VF_CHECK(no_guard, "scope_throw", "a guard throws unasked");
        out = true;
        VF_CHECK(f.calls == 0, "scope_call", "the function is called without its guard");
    }
    VF_CHECK(f.calls == (no_guard ? 0 : 1), "scope_call", "the function was called %d times", f.calls);
    VF_CHECK(out == (no_guard || f.fate == 1), "scope_throw", "an exception is lost or made up");
    VF_CHECK(g_trace->open == open, "scope_left", "guards are left, or missing, after a scoped call");
    if (!no_guard) VF_CHECK(g_trace->ops.back() == 2000 + name, "scope_left", "the guard is not destroyed at the end of the call");
    return result;
}

} // namespace

VF_SCENARIO(nested, 20000, 300000) {
    trace t;
    g_trace = &t;
    g_names = 0;
    const int n = c.r.range(1, 5);
    for (int i = 0; i < n; ++i) c.see(static_cast<std::uint64_t>(nest(c.r, c.r.range(0, 4), g_names)));
    VF_CHECK(t.live == 0 && t.open.empty(), "scope_left", "%d guards are left", t.live);
    for (int x : t.ops) c.see(static_cast<std::uint64_t>(x));
    c.nontrivial = t.ops.size() > 2;
}

// counters that only the lock protects
VF_SCENARIO(exclusive, 400, 6000) {
    perturb_level(static_cast<int>(c.r.below(4)));
    std::mutex m;
    std::shared_mutex sm;
    std::timed_mutex tm;
    long a = 0, b = 0, d = 0;
    std::atomic<int> in_m{0}, in_w{0}, in_r{0}, in_t{0}, threw{0};
    const int threads = c.r.range(2, 4), n = c.r.range(5, 60);
    start_line go(threads);
    std::vector<std::thread> ts;
    std::atomic<long> na{0}, nb{0}, nd{0};
    for (int i = 0; i < threads; ++i)
        ts.emplace_back([&, r = rng(c.r.next())]() mutable {
            go.arrive();
            for (int k = 0; k < n; ++k) {
                const bool bad = r.chance(20);
                const auto add = [&](long& x, std::atomic<int>& in, std::atomic<long>& count) {
                    if (in.fetch_add(1, std::memory_order_relaxed) != 0) fail("not_exclusive", "two scoped calls hold one mutex");
                    event();
                    ++x;
                    perturb();
                    count.fetch_add(1, std::memory_order_relaxed);
                    in.fetch_sub(1, std::memory_order_relaxed);
                    if (bad) throw thrown{0};
                    return x;
                };
                try {
                    switch (r.below(5)) {
                    case 0: stlab::scope<std::unique_lock<std::mutex>>(m, [&] { return add(a, in_m, na); }); break;
                    case 1: stlab::scope<std::lock_guard<std::mutex>>(m, [&] { (void)add(a, in_m, na); }); break;
                    case 2:
                        stlab::scope<std::unique_lock<std::shared_mutex>>(sm, [&] {
                            if (in_r.load(std::memory_order_relaxed)) fail("not_exclusive", "a writer meets readers");
                            return add(b, in_w, nb);
                        });
                        break;
                    case 3:
                        stlab::scope<std::shared_lock<std::shared_mutex>>(sm, [&] {
                            in_r.fetch_add(1, std::memory_order_relaxed);
                            if (in_w.load(std::memory_order_relaxed)) fail("not_exclusive", "a reader meets a writer");
                            perturb();
                            const long v = b;
                            in_r.fetch_sub(1, std::memory_order_relaxed);
                            return v;
                        });
                        break;
                    case 4: stlab::scope<std::lock_guard<std::timed_mutex>>(tm, [&] { return add(d, in_t, nd); }); break;
                    }
                } catch (const thrown&) {
                    threw.fetch_add(1, std::memory_order_relaxed);
                }
            }
        });
    for (auto& t : ts) t.join();
    VF_CHECK(a == na && b == nb && d == nd, "lost_update", "updates under a scoped lock are lost");
    VF_CHECK(m.try_lock() && sm.try_lock() && tm.try_lock(), "still_locked", "a mutex is still locked");
    m.unlock();
    sm.unlock();
    tm.unlock();
    c.nontrivial = true;
    c.see(static_cast<std::uint64_t>(a * 10000 + b * 100 + d));
    c.see(static_cast<std::uint64_t>(threw.load()));
    perturb_level(0);
}

namespace {

template <std::size_t>
struct el { // elements of different types
    int v;
    int touched = 0;
};

template <std::size_t... I>
void helpers(ctx& c, std::index_sequence<I...>) {
    constexpr std::size_t N = sizeof...(I);
    auto& r = c.r;
    std::array<int, N + 1> v{};
    for (auto& x : v) x = r.range(0, 9);
    std::tuple<el<I>...> t{el<I>{v[I]}...};
    // each once, in order
    {
        std::vector<int> seen, args;
        stlab::tuple_for_each(t, [&](auto& e) {
            seen.push_back(e.v);
            ++e.touched;
        });
        VF_CHECK((seen == std::vector<int>{v[I]...}), "tuple_for_each", "the elements are not visited once in order");
        VF_CHECK((true && ... && (std::get<I>(t).touched == 1)), "tuple_for_each", "an element is not visited itself");
        stlab::for_each_argument([&](auto& e) { args.push_back(e.v), ++e.touched; }, std::get<I>(t)...);
        VF_CHECK(args == seen, "for_each_argument", "the arguments are not visited once in order");
        VF_CHECK((true && ... && (std::get<I>(t).touched == 2)), "for_each_argument", "an argument is not visited itself");
        // an exception ends the visit
        if constexpr (N > 0) {
            const auto stop = static_cast<std::size_t>(r.below(N));
            std::size_t k = 0;
            try {
                stlab::tuple_for_each(t, [&](auto&) {
                    if (k == stop) throw thrown{0};
                    ++k;
                });
                fail("tuple_for_each", "an exception is lost");
            } catch (const thrown&) {
                VF_CHECK(k == stop, "tuple_for_each", "the visit goes on after an exception");
            }
        }
    }
    event(4);
    // the first which satisfies the predicate
    if constexpr (N > 0) {
        const int limit = r.range(0, 10);
        std::size_t expect = 0, calls = 0;
        while (expect < N && v[expect] < limit) ++expect;
        const auto got = stlab::tuple_find(t, [&](const auto& e) {
            ++calls;
            return e.v >= limit;
        });
        VF_CHECK(got == expect, "tuple_find", "finds %zu, %zu is the first", got, expect);
        VF_CHECK(calls == std::min(expect + 1, N), "tuple_find", "%zu elements are looked at", calls);
        c.see(got);
    } else
        VF_CHECK(stlab::tuple_find(t, [](const auto&) { return true; }) > 0, "tuple_find", "finds something in nothing");
    // the one at an index
    {
        const auto i = static_cast<std::size_t>(r.below(N + 3));
        int calls = 0;
        const int d = stlab::get_i(
            t, i,
            [&](auto& e) {
                ++calls;
                return e.v;
            },
            -5);
        VF_CHECK(d == (i < N ? v[i] : -5), "get_i", "get_i(%zu) of %zu is %d", i, N, d);
        VF_CHECK(calls == (i < N), "get_i", "get_i calls its function %d times", calls);
        calls = 0;
        std::tuple<el<I>...> before = t;
        stlab::void_i(t, i, [&](auto& e) {
            ++calls;
            e.v += 100;
        });
        VF_CHECK(calls == (i < N), "void_i", "void_i calls its function %d times", calls);
        VF_CHECK((true && ... && (std::get<I>(t).v == std::get<I>(before).v + (I == i ? 100 : 0))), "void_i", "another element is changed");
        if (i < N) stlab::void_i(t, i, [&](auto& e) { e.v -= 100; });
        c.see(i);
    }
    event(3);
    // all as arguments
    {
        const auto collect = [](const auto&... e) { return std::vector<int>{e.v...}; };
        VF_CHECK((stlab::apply_ignore_placeholders(collect, std::tuple<el<I>...>(t)) == std::vector<int>{v[I]...}), "apply", "not all elements in order");
        std::tuple<std::optional<el<I>>...> o{el<I>{v[I]}...};
        VF_CHECK((stlab::detail::apply_optional_indexed<std::index_sequence<I...>>(collect, o) == std::vector<int>{v[I]...}),
                 "apply_optional", "not all elements in order");
        VF_CHECK((stlab::detail::apply_optional_indexed<std::index_sequence<(N - 1 - I)...>>(collect, o) ==
                  std::vector<int>{v[N - 1 - I]...}),
                 "apply_optional", "not the selected elements");
        VF_CHECK((stlab::apply_indexed<std::index_sequence<(N - 1 - I)...>>(collect, t) == std::vector<int>{v[N - 1 - I]...}),
                 "apply_indexed", "not the selected elements");
    }
    event(4);
}

} // namespace

static_assert(std::is_same_v<stlab::voidless_tuple<int, void, char, void>, std::tuple<int, char>>);
static_assert(std::is_same_v<stlab::voidless_tuple<void>, std::tuple<>>);
static_assert(std::is_same_v<stlab::placeholder_tuple<void, int>, std::tuple<stlab::placeholder, int>>);
static_assert(std::is_same_v<stlab::index_sequence_transform_t<
                                 std::make_index_sequence<4>,
                                 stlab::remove_placeholder<stlab::optional_placeholder_tuple<void, int, void, char>>::function>,
                             std::index_sequence<1, 3>>);
static_assert(std::is_same_v<stlab::index_sequence_cat_t<std::index_sequence<3, 1>, std::index_sequence<2>>, std::index_sequence<3, 1, 2>>);

VF_SCENARIO(tuples, 20000, 300000) {
    switch (c.r.below(6)) {
    case 0: helpers(c, std::make_index_sequence<0>()); break;
    case 1: helpers(c, std::make_index_sequence<1>()); break;
    case 2: helpers(c, std::make_index_sequence<2>()); break;
    case 3: helpers(c, std::make_index_sequence<3>()); break;
    case 4: helpers(c, std::make_index_sequence<5>()); break;
    case 5: helpers(c, std::make_index_sequence<8>()); break;
    }
    c.nontrivial = true;
}

// copies and moves happen where they are asked for
VF_SCENARIO(values, 10000, 100000) {
    auto& r = c.r;
    token x(r.range(1, 99));
    const int name = x.name;
    for (int i = r.range(1, 12); i; --i) {
        const auto op = r.below(6);
        c.see(op);
        event();
        switch (op) {
        case 0: {
            const auto y = stlab::copy(x);
            VF_CHECK(y.name == name && y.copies == 1 && y.moves == 0 && x.name == name, "copy", "copy() is not one copy");
            break;
        }
        case 1: {
            const token& k = x;
            const auto y = stlab::copy(k);
            VF_CHECK(y.name == name && y.copies == 1 && y.moves == 0 && x.name == name, "copy", "copy() is not one copy");
            break;
        }
        case 2: {
            token y(stlab::move(x));
            VF_CHECK(y.name == name && y.copies == 0 && y.moves == 1 && x.name == -1, "move", "move() does not move");
            x.name = name;
            break;
        }
        case 3: {
            token y(stlab::move_if<true>(x));
            VF_CHECK(y.name == name && y.copies == 0 && y.moves == 1 && x.name == -1, "move_if", "move_if<true> does not move");
            x.name = name;
            token z(stlab::move_if<false>(x));
            VF_CHECK(z.name == name && z.copies == 1 && z.moves == 0 && x.name == name, "move_if", "move_if<false> does not copy");
            break;
        }
        case 4: {
            auto w = std::ref(x);
            const auto cw = std::cref(x);
            VF_CHECK(&stlab::unwrap(w) == &x && &stlab::unwrap(cw) == &x && &stlab::unwrap(x) == &x, "unwrap", "another object");
            const token& k = x;
            const auto kw = w;
            VF_CHECK(&stlab::unwrap(k) == &x && &stlab::unwrap(kw) == &x, "unwrap", "another object");
            break;
        }
        case 5: {
            auto p = std::make_shared<token>(name);
            std::shared_ptr<token> q = r.chance(50) ? p : nullptr;
            const long uses = p.use_count();
            auto w = stlab::make_weak_ptr(p);
            const bool same = w.lock() == p;
            VF_CHECK(same && p.use_count() == uses, "weak", "a weak pointer owns, or refers to something else");
            p.reset();
            VF_CHECK(w.expired() == !q, "weak", "a weak pointer keeps its object, or loses it");
            break;
        }
        }
        VF_CHECK(x.copies == 0 && x.moves == 0, "source", "the source was copied into");
    }
    c.nontrivial = true;
}
// reverse, reverse_copy, on all sorts of ranges
VF_SCENARIO(reversing, 5000, 50000) {
    std::vector<int> v(c.r.below(12));
    for (auto& x : v) x = c.r.range(0, 99);
    const std::vector<int> expect(v.rbegin(), v.rend());
    std::list<int> l(v.begin(), v.end());
    std::vector<int> o, p, q;
    stlab::reverse_copy(v, std::back_inserter(o));
    stlab::reverse_copy(std::as_const(v), std::back_inserter(p));
    stlab::reverse_copy(l, std::back_inserter(q));
    VF_CHECK(o == expect && p == expect && q == expect, "reverse_copy", "not reversed");
    stlab::reverse(v);
    stlab::reverse(l);
    VF_CHECK(v == expect && std::vector<int>(l.begin(), l.end()) == expect, "reverse", "not reversed");
    event(5);
    c.nontrivial = v.size() > 1;
    for (int x : v) c.see(static_cast<std::uint64_t>(x));
}
