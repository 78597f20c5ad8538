// when_all / when_any: a model for single threaded runs, and concurrent races.
#pragma once
#include "vf_fut.hpp"

namespace vf {

struct when_world {
    using res_t = stlab::future<cval>;
    ctx& c;
    bool all;                 // when_all, else when_any
    bool range = false;
    struct arg {
        std::shared_ptr<std::atomic<long>> tok = std::make_shared<std::atomic<long>>(0);
        int fate = 0; // 0 value, 1 throws, 2 broken, 3 completed before the call
        bool is_void = false;
        bool held = false; // by a copy
        bool done = false; // invoked or dropped
        std::atomic<int> calls{0};
        std::atomic<bool> started{false};
        stlab::packaged_task<> p;
        stlab::executor_t ex;
        std::shared_ptr<void> life;
    };
    std::deque<arg> a;
    std::deque<std::shared_ptr<void>> copies;
    std::atomic<int> calls{0};
    std::vector<std::uint64_t> got;
    std::size_t got_index = ~std::size_t{0};
    bool f_throws = false;
    std::shared_ptr<std::atomic<long>> ftok = std::make_shared<std::atomic<long>>(0);
    stlab::executor_t ex;
    std::shared_ptr<void> life; // captured by the function
    std::function<void()> on_call;
    int want_exec = -1;
    std::vector<char> ready_before; // arguments complete before the call

    when_world(ctx& cc, bool is_all) : c(cc), all(is_all) {}

    std::uint64_t value(std::size_t i) const { return 7000 + i * 10; }
    bool ok(std::size_t i) const { return a[i].fate == 0 || a[i].fate == 3; }
    std::uint64_t error(std::size_t i) const { return a[i].fate == 2 ? broken_id : 500 + i; }

    template <class T>
    stlab::future<T> make_arg() {
        const std::size_t i = a.size();
        a.emplace_back();
        arg& x = a.back();
        x.is_void = std::is_void_v<T>;
        x.fate = next_fate();
        x.ex = next_exec();
        x.life = next_life ? next_life() : nullptr;
        auto [p, f] = stlab::package<T()>(x.ex, [this, i, px = &x, t = token(x.tok), l = x.life]() -> T {
            event();
            arg& y = *px;
            ++y.calls;
            perturb();
            if (y.fate == 1) throw err{500 + i};
            if constexpr (!std::is_void_v<T>) return T{value(i)};
        });
        x.life = nullptr;
        x.p = std::move(p);
        if constexpr (!std::is_same_v<T, mval>)
            if (c.r.chance(hold_percent)) {
                x.held = true;
                copies.push_back(std::make_shared<stlab::future<T>>(f));
            }
        if (x.fate == 3)
            complete(x);
        else if (publish)
            publish(x);
        return std::move(f);
    }
    std::function<int()> next_fate;
    std::function<stlab::executor_t()> next_exec;
    std::function<std::shared_ptr<void>()> next_life;
    std::function<void(arg&)> publish; // completed by others from here on
    int hold_percent = 25;

    void complete(std::size_t i) { complete(a[i]); }
    void complete(arg& x) {
        x.done = true;
        x.started = true;
        if (x.fate == 2)
            x.p = stlab::packaged_task<>();
        else {
            auto p = std::move(x.p);
            p();
        }
    }

    void enter(std::vector<std::uint64_t> v, std::size_t index) {
        event();
        if (++calls > 1) fail("ran_twice", "the function of %s was invoked twice", name());
        if (want_exec >= 0 && t_exec != want_exec) fail("wrong_executor", "the function of %s ran on executor %d", name(), t_exec);
        got = std::move(v);
        got_index = index;
        if (all) {
            for (std::size_t i = 0; i < a.size(); ++i)
                if (!a[i].started) fail("ran_early", "the function of when_all ran before argument %zu was complete", i);
        } else if (index >= a.size())
            fail("wrong_index", "index %zu of %zu", index, a.size());
        else if (!a[index].started)
            fail("ran_early", "the function of when_any got argument %zu which is not complete", index);
        if (on_call) on_call();
        perturb();
    }
    const char* name() const {
        return all ? (range ? "when_all (range)" : "when_all") : range ? "when_any (range)" : "when_any";
    }
    cval leave() {
        if (f_throws) throw err{900};
        return cval{4242};
    }

    struct all_fn {
        when_world* w;
        token t;
        std::shared_ptr<void> l;
        template <class... T>
        cval operator()(T... x) const {
            w->enter({x.get()...}, 0);
            return w->leave();
        }
        cval operator()(std::vector<cval> v) const { return many(v); }
        cval operator()(std::vector<mval> v) const { return many(v); }
        template <class V>
        cval many(const V& v) const {
            std::vector<std::uint64_t> r;
            for (auto& x : v) r.push_back(x.get());
            w->enter(r, 0);
            return w->leave();
        }
    };
    struct any_fn {
        when_world* w;
        token t;
        std::shared_ptr<void> l;
        cval operator()(std::size_t i) const {
            w->enter({}, i);
            return w->leave();
        }
        template <class T>
        cval operator()(T x, std::size_t i) const {
            w->enter({x.get()}, i);
            return w->leave();
        }
    };

    template <class... Ts>
    res_t pack_all() {
        // braced initialisation orders the arguments
        std::tuple<stlab::future<Ts>...> t{make_arg<Ts>()...};
        return std::apply(
            [&](auto&&... f) { return stlab::when_all(ex, all_fn{this, token(ftok), life}, std::move(f)...); }, std::move(t));
    }
    template <class... Ts>
    res_t pack_any() {
        std::tuple<stlab::future<Ts>...> t{make_arg<Ts>()...};
        return std::apply(
            [&](auto&&... f) { return stlab::when_any(ex, any_fn{this, token(ftok), life}, std::move(f)...); }, std::move(t));
    }
    template <class T>
    res_t range_any_or_all(std::size_t n) {
        range = true;
        std::vector<stlab::future<T>> v;
        for (std::size_t i = 0; i < n; ++i) v.push_back(make_arg<T>());
        auto r = std::make_pair(v.begin(), v.end());
        if (all) return stlab::when_all(ex, all_fn{this, token(ftok), life}, r);
        return stlab::when_any(ex, any_fn{this, token(ftok), life}, r);
    }

    res_t make(int shape) {
        auto r = [&]() -> res_t {
            if (shape >= 6) {
                const std::size_t n = c.r.chance(1) ? 6 + c.r.below(300) : c.r.below(6); // now and then many
                switch (shape % 3) {
                case 0: return range_any_or_all<cval>(n);
                case 1: return range_any_or_all<mval>(n);
                default: return range_any_or_all<void>(n);
                }
            }
            if (all) switch (shape) {
                case 0: return pack_all<cval>();
                case 1: return pack_all<cval, mval>();
                case 2: return pack_all<void, void>();
                case 3: return pack_all<mval, void, cval>();
                case 4: return pack_all<cval, cval, void, mval>();
                default: return pack_all<mval, mval, mval>();
                }
            switch (shape) {
            case 0: return pack_any<cval, cval>();
            case 1: return pack_any<mval, mval, mval>();
            case 2: return pack_any<void, void>();
            case 3: return pack_any<void, void, void, void>();
            case 4: return pack_any<cval, cval, cval, cval>();
            default: return pack_any<mval>();
            }
        }();
        life = nullptr;
        return r;
    }

    // the arguments and values the function was called with are the right ones
    void check_call() {
        if (!calls) return;
        if (all) {
            std::vector<std::uint64_t> want;
            for (std::size_t i = 0; i < a.size(); ++i) {
                if (!ok(i)) fail("ran_after_failure", "the function of %s was invoked although argument %zu failed", name(), i);
                if (!a[i].is_void) want.push_back(value(i));
            }
            if (got != want) {
                std::string s;
                for (auto g : got) s += std::to_string(g) + " ";
                fail("wrong_value", "the function of %s got %s", name(), s.c_str());
            }
        } else {
            if (!ok(got_index)) fail("wrong_index", "%s reports the failed argument %zu", name(), got_index);
            if (!a[got_index].is_void && (got.size() != 1 || got[0] != value(got_index)))
                fail("wrong_value", "%s: the value is not that of argument %zu", name(), got_index);
        }
    }
    // the outcome of the result when everything is complete
    void check_result(bool good, std::uint64_t v) {
        bool any_ok = false, any_bad = false;
        std::set<std::uint64_t> errs;
        for (std::size_t i = 0; i < a.size(); ++i) {
            if (!a[i].done) continue;
            if (ok(i))
                any_ok = true;
            else {
                any_bad = true;
                errs.insert(error(i));
            }
        }
        const bool empty_any = !all && a.empty();
        const bool call = all ? !any_bad : any_ok;
        if (empty_any) {
            if (good || v != broken_id) fail("empty", "when_any of an empty range is not a broken promise");
            return;
        }
        if (calls != (call ? 1 : 0)) fail(call ? "not_run" : "ran_after_failure", "%s: the function ran %d times", name(), calls.load());
        if (call) {
            if (good == f_throws || v != (f_throws ? 900u : 4242u)) fail("wrong_result", "%s: result %d %llx", name(), good, (unsigned long long)v);
        } else if (good || !errs.count(v))
            fail("wrong_error", "%s: the exception reported (%llx) is not that of a failed argument", name(), (unsigned long long)v);
    }

    static std::pair<bool, std::uint64_t> outcome(res_t f) {
        if (auto e = f.exception()) return {false, error_id(e)};
        return {true, std::move(f).get_ready().get()};
    }
    std::string describe() const {
        std::string s = name();
        s += " of";
        for (auto& x : a) s += std::string(" ") + (x.is_void ? "void" : "value") + (x.fate == 1 ? "!" : x.fate == 2 ? "~" : x.fate == 3 ? "*" : "") + (x.held ? "h" : "") + (x.done ? "" : "?");
        return s;
    }
};

inline void when_manual(ctx& c, bool all, int shape) {
    manual_queue q;
    when_world w(c, all);
    const int bad = static_cast<int>(c.r.below(3)) * (all ? 20 : 40);
    w.next_fate = [&] { return c.r.chance(bad) ? 1 + static_cast<int>(c.r.below(2)) : c.r.chance(20) ? 3 : 0; };
    w.next_exec = [&] { return c.r.chance(50) ? executor_t(stlab::immediate_executor) : q.executor(); };
    w.ex = c.r.chance(50) ? executor_t(stlab::immediate_executor) : q.executor();
    w.f_throws = c.r.chance(15);
    auto f = w.make(shape);
    const std::size_t n = w.a.size();
    bool dropped = false, attached = false;
    int fired = 0;
    std::pair<bool, std::uint64_t> res{};
    stlab::future<void> tail;
    if (c.r.chance(50)) {
        attached = true;
        tail = std::move(f).recover(stlab::immediate_executor, [&](when_world::res_t x) {
            ++fired;
            res = when_world::outcome(std::move(x));
        });
        f.reset();
    }
    auto drain = [&] {
        q.drain(c.r);
        event();
        w.check_call();
        bool any_ok = false, any_bad = false, open = false;
        for (std::size_t i = 0; i < n; ++i) {
            if (!w.a[i].done)
                open = true;
            else if (w.ok(i))
                any_ok = true;
            else
                any_bad = true;
        }
        const bool finished = w.all ? any_bad || !open : any_ok || !open;
        if (!dropped) {
            const bool r = attached ? tail.is_ready() : f.is_ready();
            VF_CHECK(r == finished, "ready", "%s: is_ready is %d", w.describe().c_str(), r);
            if (finished) {
                if (attached)
                    VF_CHECK(fired == 1, "fired", "a continuation of %s ran %d times", w.name(), fired);
                else
                    res = when_world::outcome(f);
                w.check_result(res.first, res.second);
            } else
                VF_CHECK(w.calls == 0, "ran_early", "%s: the function was invoked", w.describe().c_str());
        }
        for (std::size_t i = 0; i < n; ++i) {
            const long t = w.a[i].tok->load();
            if (w.a[i].done) continue;
            const bool needed = w.a[i].held || !(dropped || finished);
            VF_CHECK(t == (needed ? 1 : 0), needed ? "cancelled" : "not_cancelled", "%s: argument %zu is %s but its function is %s",
                     w.describe().c_str(), i, needed ? "needed" : "not needed any more", t ? "alive" : "destroyed");
            VF_CHECK(w.a[i].p.canceled() == !needed, "canceled", "canceled() of argument %zu of %s", i, w.describe().c_str());
        }
        const bool fneeded = !dropped && !finished;
        VF_CHECK(w.ftok->load() == (fneeded ? 1 : 0), fneeded ? "cancelled" : "kept", "%s: the function is %s", w.describe().c_str(),
                 fneeded ? "destroyed" : "still alive");
    };
    drain();
    std::vector<std::size_t> order;
    for (std::size_t i = 0; i < n; ++i)
        if (!w.a[i].done) order.push_back(i);
    c.r.shuffle(order);
    const bool drops = c.r.chance(20);
    for (std::size_t k = 0; k < order.size(); ++k) {
        if (drops && !dropped && c.r.chance(40)) {
            dropped = true;
            f.reset();
            tail.reset();
            drain();
        }
        w.complete(order[k]);
        if (c.r.chance(60)) drain();
        else if (c.r.chance(50)) q.step(c.r);
    }
    const int before = w.calls;
    drain();
    if (dropped && before == 0 && drops) {}
    c.nontrivial = true;
    for (auto& x : w.a) c.see(static_cast<std::uint64_t>(x.fate * 4 + x.held * 2 + x.calls));
    c.see(static_cast<std::uint64_t>(shape * 8 + dropped * 4 + w.calls));
    for (auto k : order) c.see(k);
    c.note = w.describe() + (dropped ? ", released" : "") + ", function ran " + std::to_string(w.calls.load());
}

// Results shared with others have to be copied; what if that throws?
inline void when_sharing(ctx& c, bool all) {
    using F = stlab::future<tval>;
    const long live = tval::live;
    manual_queue q;
    auto some = [&] { return c.r.chance(50) ? executor_t(stlab::immediate_executor) : q.executor(); };
    const bool range = c.r.chance(50);
    const std::size_t n = range ? 1 + c.r.below(5) : 3;
    std::vector<stlab::packaged_task<std::uint64_t>> p(n);
    std::vector<F> held(n), v(n);
    std::vector<int> fate(n); // 0 value, 1 throws
    int calls = 0;
    std::vector<std::uint64_t> got;
    std::size_t got_index = 0;
    const int percent = c.r.chance(30) ? 100 : c.r.chance(50) ? 20 : 50, bad = c.r.chance(50) ? 0 : 40;
    for (std::size_t i = 0; i < n; ++i) {
        fate[i] = c.r.chance(bad);
        auto x = stlab::package<tval(std::uint64_t)>(some(), [&, i](std::uint64_t id) {
            if (fate[i]) throw err{id};
            return tval{id};
        });
        p[i] = std::move(x.first);
        v[i] = std::move(x.second);
        if (c.r.chance(80)) held[i] = v[i];
    }
    tval::arm([&](std::uint64_t) { return c.r.chance(percent); });
    std::vector<char> done(n);
    auto complete = [&](std::size_t i) {
        done[i] = 1;
        p[i](100 + i);
    };
    for (std::size_t i = 0; i < n; ++i)
        if (c.r.chance(25)) complete(i);
    auto one = [&](const tval& x, std::size_t i) {
        ++calls;
        got = {x.get()};
        got_index = i;
        return 1;
    };
    auto three = [&](const tval& x, const tval& y, const tval& z) {
        ++calls;
        got = {x.get(), y.get(), z.get()};
        return 1;
    };
    auto many = [&](const std::vector<tval>& x) {
        ++calls;
        got.clear();
        for (auto& y : x) got.push_back(y.get());
        return 1;
    };
    stlab::future<int> f;
    const executor_t ex = some();
    if (range) {
        const auto r = std::make_pair(v.begin(), v.end());
        f = all ? stlab::when_all(ex, many, r) : stlab::when_any(ex, std::move(one), r);
    } else if (all)
        f = stlab::when_all(ex, three, std::move(v[0]), std::move(v[1]), std::move(v[2]));
    else
        f = stlab::when_any(ex, one, std::move(v[0]), std::move(v[1]), std::move(v[2]));
    v.clear();
    q.drain(c.r);
    std::vector<std::size_t> order;
    for (std::size_t i = 0; i < n; ++i)
        if (!done[i]) order.push_back(i);
    c.r.shuffle(order);
    for (auto i : order) {
        complete(i);
        q.drain(c.r);
    }
    const auto thrown = tval::thrown;
    tval::arm(nullptr);
    tval::thrown = thrown;
    const char* what = all ? "when_all" : "when_any";
    VF_CHECK(f.is_ready(), "pending", "%s stays pending after all its arguments are complete; %zu copies threw", what, thrown.size());
    std::size_t lost = 0; // arguments without a value
    for (std::size_t i = 0; i < n; ++i) lost += fate[i] || tval::threw(100 + i);
    if (auto e = f.exception()) {
        VF_CHECK(calls == 0, "ran_after_failure", "%s: the function ran, but the result is an exception", what);
        VF_CHECK(all ? lost > 0 : lost == n, "wrong_error", "%s reports an exception, %zu of %zu arguments have a value", what, n - lost, n);
        std::uint64_t id = 0;
        try {
            std::rethrow_exception(e);
        } catch (const err& x) {
            id = x.id;
            VF_CHECK(id >= 100 && id < 100 + n && fate[id - 100], "wrong_error", "%s: unknown exception %llu", what, (unsigned long long)id);
        } catch (const tval::error& x) {
            id = x.id;
            VF_CHECK(tval::threw(id), "wrong_error", "%s: unknown exception %llu", what, (unsigned long long)id);
        } catch (...) {
            fail("wrong_error", "%s reports another exception", what);
        }
    } else {
        VF_CHECK(calls == 1, "not_run", "%s: the function ran %d times", what, calls);
        if (all) {
            VF_CHECK(lost == 0, "ran_after_failure", "when_all: the function ran although %zu arguments have no value", lost);
            VF_CHECK(got.size() == n, "wrong_value", "when_all: %zu values", got.size());
            for (std::size_t i = 0; i < n; ++i) VF_CHECK(got[i] == 100 + i, "wrong_value", "when_all: the value of argument %zu", i);
        } else
            VF_CHECK(got_index < n && !fate[got_index] && got[0] == 100 + got_index, "wrong_value", "when_any: value or index %zu", got_index);
    }
    f.reset();
    p.clear();
    // what others hold is whole
    for (std::size_t i = 0; i < n; ++i)
        if (held[i].valid() && !fate[i]) VF_CHECK(held[i].get_ready().get() == 100 + i, "wrong_value", "a result that is shared with %s changed", what);
    held.clear();
    VF_CHECK(tval::live == live, "leak", "%ld values are left", tval::live - live);
    c.nontrivial = !thrown.empty();
    c.see(n * 64 + range * 32 + thrown.size());
    for (std::size_t i = 0; i < n; ++i) c.see(static_cast<std::uint64_t>(fate[i] * 2 + tval::threw(100 + i)));
    for (auto i : order) c.see(i);
    c.note = std::to_string(n) + " arguments, " + std::to_string(thrown.size()) + " copies threw";
}

// Arguments complete concurrently.
inline void when_race(ctx& c, bool all, int shape) {
    perturb_level(1 + static_cast<int>(c.r.below(3)));
    when_world w(c, all);
    gate gone;
    auto mk = [&] { return std::shared_ptr<void>(&gone, [](void* p) { static_cast<gate*>(p)->add(); }); };
    long lives = 0;
    const int bad = static_cast<int>(c.r.below(3)) * (all ? 20 : 40);
    w.next_fate = [&] { return c.r.chance(bad) ? 1 + static_cast<int>(c.r.below(2)) : c.r.chance(15) ? 3 : 0; };
    w.next_exec = [&] { return make_exec(static_cast<int>(c.r.below(exec_kinds)), 1); };
    w.next_life = [&] {
        ++lives;
        return mk();
    };
    w.hold_percent = 15;
    w.ex = make_exec(static_cast<int>(c.r.below(exec_kinds)), 0);
    w.want_exec = 0;
    w.f_throws = c.r.chance(15);
    w.life = mk();
    ++lives;
    const bool early = c.r.chance(50); // the arguments complete while they are attached
    const int threads = 1 + static_cast<int>(c.r.below(3));
    std::vector<std::thread> th;
    std::mutex m;
    std::vector<when_world::arg*> todo;
    gate published;
    bool over = false;
    std::atomic<int> during{0}, made{0};
    auto completer = [&](std::uint64_t s) {
        rng r(s);
        for (;;) {
            for (auto i = r.below(14); i; --i) perturb();
            when_world::arg* x = nullptr;
            {
                std::lock_guard<std::mutex> l(m);
                if (todo.empty() && over) return;
                if (!todo.empty()) {
                    const auto i = r.below(todo.size());
                    x = todo[i];
                    todo.erase(todo.begin() + static_cast<long>(i));
                }
            }
            if (x) {
                w.complete(*x);
                if (!made) ++during;
            } else {
                published.wait(1);
            }
        }
    };
    if (early) {
        w.publish = [&](when_world::arg& x) {
            std::lock_guard<std::mutex> l(m);
            todo.push_back(&x);
        };
        for (int t = 0; t < threads; ++t) th.emplace_back(completer, c.r.next());
        published.add();
    }
    auto f = w.make(shape);
    made = 1;
    const std::size_t n = w.a.size();
    std::vector<std::size_t> order;
    if (!early)
        for (std::size_t i = 0; i < n; ++i)
            if (!w.a[i].done) order.push_back(i);
    c.r.shuffle(order);
    const bool winner = !all && !order.empty() && c.r.chance(40);
    const bool drop = c.r.chance(15);
    std::pair<bool, std::uint64_t> res{};
    auto finish = [&] {
        try {
            res = {true, stlab::await(std::move(f)).get()};
        } catch (...) {
            res = {false, error_id(std::current_exception())};
        }
    };
    bool settled = false;
    if (winner) {
        // the failed ones and one successful argument are completed, the others only after the result is there
        bool pre = false;
        for (std::size_t i = 0; i < n; ++i) pre |= w.a[i].done && w.ok(i);
        std::size_t win = n;
        for (auto k : order) {
            if (!w.ok(k) && c.r.chance(60)) w.complete(k);
            else if (w.ok(k) && win == n && !pre) {
                win = k;
                w.complete(k);
            }
        }
        if (win != n) {
            finish();
            settled = true;
            VF_CHECK(w.got_index == win, "wrong_index", "%s: argument %zu won, only %zu has completed", w.describe().c_str(), w.got_index, win);
            w.check_call();
            w.check_result(res.first, res.second);
        }
    }
    if (!early) {
        for (auto k : order)
            if (!w.a[k].done) todo.push_back(&w.a[k]);
        published.add();
        for (int t = 0; t < threads; ++t) th.emplace_back(completer, c.r.next());
    }
    {
        std::lock_guard<std::mutex> l(m);
        over = true;
    }
    if (!settled) {
        if (drop) {
            for (auto i = c.r.below(10); i; --i) perturb();
            f.reset();
        } else
            finish();
    }
    for (auto& t : th) t.join();
    w.copies.clear();
    gone.wait(lives);
    w.check_call();
    if (!drop && !settled) w.check_result(res.first, res.second);
    for (std::size_t i = 0; i < n; ++i) VF_CHECK(w.a[i].calls <= 1, "ran_twice", "argument %zu ran %d times", i, w.a[i].calls.load());
    c.nontrivial = true;
    for (auto& x : w.a) c.see(static_cast<std::uint64_t>(x.fate * 4 + x.held * 2 + x.calls));
    c.see(static_cast<std::uint64_t>(shape * 8 + drop * 4 + w.calls) * 16 + (w.got_index & 15) + 100000 * static_cast<unsigned>(during));
    c.note = w.describe() + (drop ? ", released" : "") + (settled ? ", one winner" : "") + (during ? ", completed while attaching: " + std::to_string(during.load()) : std::string()) + ", function ran " + std::to_string(w.calls.load());
}

// More arguments than small counters hold.
inline void when_many(ctx& c, bool all) {
    perturb_level(0);
    const std::size_t n = 66000 + c.r.below(4000);
    using task_t = decltype(stlab::package<long()>(stlab::immediate_executor, [] { return 0L; }).first);
    std::vector<task_t> ps;
    std::vector<stlab::future<long>> fs;
    const int kind = c.r.range(0, 2); // all succeed; the last one differs from the others; all fail
    const auto odd = c.r.below(n);
    for (std::size_t i = 0; i < n; ++i) {
        const bool fails = kind == 2 || (kind == 1 && (i == odd) == all);
        auto [p, f] = stlab::package<long()>(stlab::immediate_executor, [i, fails]() -> long {
            if (fails) throw err{500};
            return static_cast<long>(i);
        });
        ps.push_back(std::move(p));
        fs.push_back(std::move(f));
    }
    std::vector<std::size_t> order(n);
    for (std::size_t i = 0; i < n; ++i) order[i] = i;
    if (c.r.chance(70)) c.r.shuffle(order);
    if (kind == 1 && c.r.chance(60)) std::swap(*std::find(order.begin(), order.end(), odd), order.back());
    int calls = 0, ended = 0;
    bool good = false;
    std::size_t who = n;
    const auto range = std::make_pair(fs.begin(), fs.end());
    stlab::future<void> tail;
    auto last = [&](stlab::future<void> x) {
        ++ended;
        good = !x.exception();
    };
    if (all)
        tail = stlab::when_all(stlab::immediate_executor, [&](const std::vector<long>& v) {
            ++calls;
            if (v.size() != n) fail("wrong_value", "%zu values of %zu arguments", v.size(), n);
            for (std::size_t i = 0; i < n; ++i)
                if (v[i] != static_cast<long>(i)) fail("wrong_value", "argument %zu of %zu is %ld", i, n, v[i]);
        }, range).recover(stlab::immediate_executor, last);
    else
        tail = stlab::when_any(stlab::immediate_executor, [&](long v, std::size_t i) {
            ++calls;
            who = i;
            if (v != static_cast<long>(i)) fail("wrong_value", "the value %ld is reported of argument %zu", v, i);
        }, range).recover(stlab::immediate_executor, last);
    fs.clear();
    const std::size_t first = order[0];
    for (std::size_t k = 0; k < n; ++k) {
        if (k == 1 && all && kind != 1 && ended != (kind == 2)) fail("ready", "when_all of %zu is ready %d times after the first", n, ended);
        if (k == n - 1 && kind == 0 && all && (ended || calls)) fail("ran_early", "when_all of %zu is ready before its last argument", n);
        if (k == n - 1 && kind == 2 && !all && (ended || calls)) fail("ran_early", "when_any of %zu is ready before its last argument", n);
        ps[order[k]]();
        if (k == 0 && !all && kind == 0 && (ended != 1 || who != first)) fail("ready", "when_any of %zu is not ready after the first success", n);
    }
    const bool want = kind == 0 || (kind == 1 && !all);
    if (ended != 1 || good != want || calls != want)
        fail("result", "%s of %zu ended %d times, success %d, calls %d", all ? "when_all" : "when_any", n, ended, good, calls);
    if (kind == 1 && !all && who != odd) fail("wrong_index", "when_any of %zu reports argument %zu, only %zu succeeds", n, who, (std::size_t)odd);
    event(n);
    c.nontrivial = true;
    c.see(n * 10 + static_cast<std::uint64_t>(kind));
}

} // namespace vf
