// One join of two to four inputs of different types with an exact model: what its k-th call must get.
#pragma once
#include "vf_chan.hpp"

namespace vf {

template <int N, class V>
struct in_t { // inputs have types of their own
    V v;
    in_t() = default;
    explicit in_t(std::uint64_t i) : v(i) {}
};

enum class join_kind { zip_with, zip, join_, unordered, merge_, round_robin };
enum class join_consumer { function, process, process_error, referenced };

struct join_world {
    ctx& c;
    bool manual, errors;
    std::deque<manual_queue> queues;
    std::vector<executor_t> execs;

    struct seen { // one call of the join
        std::vector<std::uint64_t> ids;
        bool error = false;
    };
    // of the join
    std::vector<seen> calls;
    std::vector<item> results; // what it delivered
    std::vector<item> arrived; // what the sink got
    int closes = 0, sink_closes = 0, fail_percent = 0;
    bool done_ = false; // closed by an error
    std::uint64_t next = 0;
    std::atomic<int> busy{0};
    gate gone, progress;
    rng r;

    join_world(ctx& cc, bool m, bool e) : c(cc), manual(m), errors(e), r(cc.r.next()) {
        for (int i = 0; i < 3; ++i) {
            if (manual) {
                queues.emplace_back();
                execs.push_back(tagged(i, queues.back().executor()));
            } else
                execs.push_back(make_exec(static_cast<int>(c.r.below(exec_kinds)), i));
        }
    }
    executor_t exec() { return execs[c.r.below(execs.size())]; }
    std::shared_ptr<void> life() {
        return std::shared_ptr<void>(this, [this](void*) { gone.add(); });
    }
    bool step() {
        std::vector<manual_queue*> q;
        for (auto& x : queues)
            if (!x.q.empty()) q.push_back(&x);
        if (q.empty()) return false;
        return c.r.pick(q)->step(c.r);
    }
    void drain() {
        while (step()) {}
    }
    // the only entrance to the members above from the consumer
    std::uint64_t call(std::vector<std::uint64_t> ids, bool error, bool may_throw = true) {
        if (busy.exchange(1, std::memory_order_relaxed)) fail("concurrent_process", "the join is run by two threads at once");
        event();
        VF_CHECK(!closes, "value_after_close", "the join got a value after it was closed");
        VF_CHECK(!done_, "value_after_error", "the join got a value after an error closed it");
        calls.push_back({std::move(ids), error});
        const bool th = may_throw && fail_percent && r.chance(fail_percent);
        const std::uint64_t id = make_id(9, next++);
        results.push_back({id, th});
        busy.store(0, std::memory_order_relaxed);
        perturb();
        if (th) throw err{id};
        return id;
    }
};

template <class V>
struct join_fn {
    join_world* w;
    std::shared_ptr<void> life;
    template <class... T>
    V operator()(T... t) const
        requires requires { (t.v, ...); }
    {
        return V{w->call({t.v.get()...}, false)};
    }
};
template <class V, class... T>
struct join_tuple_fn {
    join_world* w;
    std::shared_ptr<void> life;
    V operator()(std::tuple<T...> t) const {
        return std::apply([&](auto&... x) { return V{w->call({x.v.get()...}, false)}; }, t);
    }
};
template <class V, class... T>
struct join_proc {
    join_world* w;
    std::shared_ptr<void> life;
    std::deque<std::uint64_t> out;
    void await(T... t) { out.push_back(w->call({t.v.get()...}, false)); }
    V yield() {
        auto i = out.front();
        out.pop_front();
        return V{i};
    }
    stlab::process_state_scheduled state() const { return out.empty() ? stlab::await_forever : stlab::yield_immediate; }
    void close() { VF_CHECK(++w->closes == 1, "closed_twice", "the join was closed %d times", w->closes); }
};
template <class V, class... T>
struct join_proc_error : join_proc<V, T...> {
    void set_error(std::exception_ptr e) { this->out.push_back(this->w->call({error_id(e)}, true)); }
};
template <class V>
struct join_sink {
    join_world* w;
    std::shared_ptr<void> life;
    bool got = false;
    void await(V v) {
        w->arrived.push_back({v.get(), false});
        w->progress.add();
        got = true;
    }
    void set_error(std::exception_ptr e) {
        w->arrived.push_back({error_id(e), true});
        w->progress.add();
        got = true;
    }
    int yield() {
        got = false;
        return 0;
    }
    stlab::process_state_scheduled state() const { return got ? stlab::yield_immediate : stlab::await_forever; }
    void close() { ++w->sink_closes; }
};

template <class V>
struct join_case {
    join_world w;
    ctx& c;
    int k = 2;
    join_kind kind = join_kind::zip_with;
    join_consumer consumer = join_consumer::function;
    std::vector<std::vector<item>> in; // what each input is sent (or turned into)
    std::vector<std::size_t> sent;
    int lives = 0;
    mutable bool cut = false; // expected() ends with an error that closes the join

    join_case(ctx& cc, bool manual, bool errors) : w(cc, manual, errors), c(cc) {}

    void run() {
        static const join_kind kinds[] = {join_kind::zip_with, join_kind::zip_with, join_kind::zip, join_kind::join_, join_kind::unordered, join_kind::merge_, join_kind::round_robin};
        do {
            kind = kinds[c.r.below(7)];
        } while (!std::is_same_v<V, cval> && (kind == join_kind::round_robin || kind == join_kind::join_ || kind == join_kind::merge_));
        k = 2 + static_cast<int>(c.r.below(3));
        switch (k) {
        case 2: go<2>(); break;
        case 3: go<3>(); break;
        default: go<4>();
        }
    }
    bool zipping() const { return kind <= join_kind::join_; }

    template <int K>
    void go() {
        // nobody can tell when a running network has left a referenced process
        consumer = static_cast<join_consumer>(c.r.below(w.manual ? 4 : 3));
        if (kind == join_kind::zip) consumer = join_consumer::function; // attached to the tuples
        if (w.errors && (consumer == join_consumer::process)) consumer = join_consumer::process_error;
        w.fail_percent = w.errors && consumer != join_consumer::referenced && c.r.chance(50) ? 20 : 0;
        in.resize(K);
        sent.assign(K, 0);
        const int longest = c.r.range(0, 14);
        const bool level = c.r.chance(40);
        for (auto& x : in) {
            const int n = level ? longest : c.r.range(0, longest);
            for (int j = 0; j < n; ++j) x.push_back({make_id(static_cast<int>(&x - in.data()), static_cast<std::uint64_t>(j)), w.errors && c.r.chance(15)});
        }
        if (zipping())
            with_types<K>(std::make_index_sequence<K>{}, std::integral_constant<bool, true>{});
        else
            with_types<K>(std::make_index_sequence<K>{}, std::integral_constant<bool, false>{});
    }

    // one input: the channel, sometimes through a process
    template <class T>
    struct source {
        std::optional<stlab::sender<T>> s;
        stlab::receiver<T> r;            // of the channel
        std::optional<stlab::receiver<T>> p; // of the process behind it
        stlab::receiver<T>& end() { return p ? *p : r; }
        source(stlab::sender<T> a, stlab::receiver<T> b) : s(std::move(a)), r(std::move(b)) {}
    };

    template <int K, std::size_t... I, bool Zip>
    void with_types(std::index_sequence<I...>, std::integral_constant<bool, Zip>) {
        if constexpr (Zip)
            typed<in_t<static_cast<int>(I), V>...>();
        else
            typed<in_t<static_cast<int>(I * 0), V>...>();
    }

    template <class T>
    auto make_source(std::size_t i) {
        auto [s, r] = stlab::channel<T>(w.exec());
        source<T> x(std::move(s), std::move(r));
        if (w.errors || c.r.chance(40)) {
            ++lives;
            auto f = [this, i, life = w.life()](T t) {
                const auto id = t.v.get();
                if (in[i][seq_of(id)].error) throw err{id};
                return t;
            };
            switch (c.r.below(3)) {
            case 0: x.p = x.r | std::move(f); break;
            case 1: x.p = x.r | (stlab::buffer_size{c.r.below(4)} & std::move(f)); break;
            default: x.p = x.r | (stlab::executor{w.exec()} & std::move(f));
            }
        }
        return x;
    }

    template <class... T, std::size_t... I>
    auto make_join(std::tuple<source<T>...>& src, std::index_sequence<I...>) {
        const auto e = w.exec();
        ++lives;
        const auto merged = [&](auto f) -> stlab::receiver<V> {
            if constexpr (sizeof...(T) > 0) {
                switch (kind) {
                case join_kind::zip_with: return stlab::zip_with(e, std::move(f), std::get<I>(src).end()...);
                case join_kind::join_:
                    if constexpr (std::is_same_v<V, cval>)
                        return stlab::join(e, std::move(f), std::get<I>(src).end()...);
                    else
                        break;
                default: break;
                }
            }
            inconclusive("no such join");
        };
        const auto merged1 = [&](auto f) -> stlab::receiver<V> {
            switch (kind) {
            case join_kind::unordered: return stlab::merge_channel<stlab::unordered_t>(e, std::move(f), std::get<I>(src).end()...);
            case join_kind::merge_:
                if constexpr (std::is_same_v<V, cval>)
                    return stlab::merge(e, std::move(f), std::get<I>(src).end()...);
                else
                    break;
            case join_kind::round_robin:
                if constexpr (std::is_same_v<V, cval>)
                    return stlab::merge_channel<stlab::round_robin_t>(e, std::move(f), std::get<I>(src).end()...);
                else
                    break;
            default: break;
            }
            inconclusive("no such merge");
        };
        using T0 = std::tuple_element_t<0, std::tuple<T...>>;
        constexpr bool one_type = (std::is_same_v<T, T0> && ...);
        auto life = w.life();
        const auto choose = [&](auto make, auto types) -> stlab::receiver<V> {
            using P = typename decltype(types)::plain;
            using E = typename decltype(types)::error;
            switch (consumer) {
            case join_consumer::process: return make(P{&w, std::move(life), {}});
            case join_consumer::process_error: return make(E{{&w, std::move(life), {}}});
            case join_consumer::referenced: {
                auto p = std::make_shared<E>(E{{&w, std::move(life), {}}});
                kept.push_back(p);
                return make(std::ref(*p));
            }
            default: return make(join_fn<V>{&w, std::move(life)});
            }
        };
        if constexpr (!one_type) {
            if (kind == join_kind::zip) {
                auto z = stlab::zip(e, std::get<I>(src).end()...);
                auto x = z | join_tuple_fn<V, T...>{&w, std::move(life)};
                z.set_ready();
                return x;
            }
            return choose(merged, types_all<T...>{});
        } else
            return choose(merged1, types_all<T0>{});
    }
    template <class... T>
    struct types_all {
        using plain = join_proc<V, T...>;
        using error = join_proc_error<V, T...>;
    };
    std::vector<std::shared_ptr<void>> kept;

    template <class... T>
    void typed() {
        std::optional<std::tuple<source<T>...>> src(sources<T...>(std::index_sequence_for<T...>{}));
        std::optional z(make_join(*src, std::index_sequence_for<T...>{}));
        ++lives;
        std::optional sink(*z | (stlab::executor{w.exec()} & join_sink<V>{&w, w.life()}) | [](int) {});
        std::vector<std::function<void()>> ready, send, close;
        std::apply(
            [&](auto&... x) {
                (ready.push_back([&x] { x.r.set_ready(); }), ...);
                (ready.push_back([&x] {
                    if (x.p) x.p->set_ready();
                }),
                 ...);
                std::size_t i = 0;
                (close.push_back([&x] { x.s.reset(); }), ...);
                ((send.push_back([&x, this, i] {
                     using S = typename std::decay_t<decltype(x.r)>::result_type;
                     const auto id = in[i][sent[i]].id;
                     ++sent[i];
                     (*x.s)(S(id));
                 }),
                  ++i),
                 ...);
            },
            *src);
        ready.push_back([&] { z->set_ready(); });
        ready.push_back([&] { sink->set_ready(); });
        c.r.shuffle(ready);
        const std::size_t n = in.size();
        if (w.manual) {
            std::vector<int> todo;
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t j = 0; j < in[i].size(); ++j) todo.push_back(static_cast<int>(i));
            c.r.shuffle(todo);
            const int pumping = c.r.range(0, 100);
            std::vector<bool> closed(n);
            while (!todo.empty() || !ready.empty()) {
                if (!ready.empty() && (todo.empty() || c.r.chance(40))) {
                    ready.back()();
                    ready.pop_back();
                } else {
                    const auto i = static_cast<std::size_t>(todo.back());
                    todo.pop_back();
                    send[i]();
                    if (sent[i] == in[i].size() && c.r.chance(30)) close[i](), closed[i] = true;
                }
                for (int t = c.r.range(0, 5); t > 0 && c.r.chance(pumping); --t) w.step();
                if (ready.empty() && c.r.chance(20)) {
                    w.drain();
                    verify(sent);
                }
            }
            w.drain();
            verify(sent);
            if (w.closes) VF_CHECK(std::count(closed.begin(), closed.end(), true) == static_cast<long>(n), "closed_early", "the join was closed although an input was not");
            for (std::size_t i = 0; i < n; ++i)
                if (!closed[i]) close[i]();
            w.drain();
        } else {
            std::vector<std::thread> t;
            start_line line(static_cast<int>(n) + 1);
            std::vector<std::uint64_t> seeds;
            for (std::size_t i = 0; i < n; ++i) seeds.push_back(c.r.next());
            for (std::size_t i = 0; i < n; ++i)
                t.emplace_back([&, i] {
                    rng r(seeds[i]);
                    line.arrive();
                    for (std::size_t j = in[i].size(); j > 0; --j) {
                        send[i]();
                        if (r.chance(20)) spin_us(r.range(1, 60));
                    }
                    close[i]();
                });
            line.arrive();
            for (auto& f : ready) f();
            for (auto& x : t) x.join();
            w.progress.wait(static_cast<long>(expected(sent).size()));
        }
        // a value without a partner blocks its input, which is not closed then
        const bool blocked = leftover();
        if (w.manual) verify(sent);
        if (blocked) {
            if (w.manual) VF_CHECK(!w.closes && !w.sink_closes, "closed_early", "the join was closed although an input was not");
        } else if (!w.manual)
            w.gone.wait(lives - (consumer == join_consumer::referenced ? 1 : 0));
        else
            VF_CHECK(w.gone.count() == lives - (consumer == join_consumer::referenced ? 1 : 0), "not_destroyed",
                     "%ld of %d processes were destroyed after all inputs were closed", w.gone.count(), lives);
        if (blocked) {
            sink.reset();
            z.reset();
            src.reset();
            if (w.manual) w.drain();
            if (consumer == join_consumer::referenced)
                w.gone.wait(w.manual ? 0 : lives - 1);
            else
                w.gone.wait(w.manual ? 0 : lives);
        }
        kept.clear();
        VF_CHECK(w.gone.count() == lives, "not_destroyed", "%ld of %d processes were destroyed when nothing needed them any more", w.gone.count(), lives);
        verify(sent);
        if (blocked) return;
        if (consumer != join_consumer::function) VF_CHECK(w.closes == 1, "close", "the join was closed %d times", w.closes);
        VF_CHECK(w.sink_closes == 1, "close", "the process behind the join was closed %d times", w.sink_closes);
    }
    template <class... T, std::size_t... I>
    auto sources(std::index_sequence<I...>) {
        return std::tuple<source<T>...>{make_source<T>(I)...};
    }

    bool leftover() const {
        expected(sent);
        if (cut) return false; // closed by an error
        if (zipping()) {
            for (auto& x : in)
                if (x.size() != in[0].size()) return true;
        } else if (kind == join_kind::round_robin) {
            const auto m = expected(sent).size();
            std::size_t all = 0;
            for (auto& x : in) all += x.size();
            return m != all;
        }
        return false;
    }

    // the calls that n[i] values of each input must lead to; for unordered merges only their number
    std::vector<join_world::seen> expected(const std::vector<std::size_t>& n) const {
        std::vector<join_world::seen> v;
        cut = false;
        const bool stops = consumer == join_consumer::function; // at the first error
        if (zipping()) {
            const auto m = *std::min_element(n.begin(), n.end());
            for (std::size_t j = 0; j < m; ++j) {
                join_world::seen s;
                for (auto& x : in) s.error = s.error || x[j].error;
                for (auto& x : in)
                    if (!s.error || x[j].error) s.ids.push_back(x[j].id);
                if (s.error && stops) {
                    cut = true;
                    break;
                }
                v.push_back(s);
            }
        } else if (kind == join_kind::round_robin) {
            for (std::size_t j = 0;; ++j) {
                const auto i = j % n.size();
                if (j / n.size() >= n[i]) break;
                const auto& x = in[i][j / n.size()];
                if (x.error && stops) {
                    cut = true;
                    break;
                }
                v.push_back({{x.id}, x.error});
            }
        } else {
            bool any_error = false;
            for (std::size_t i = 0; i < n.size(); ++i)
                for (std::size_t j = 0; j < n[i]; ++j) any_error = any_error || in[i][j].error;
            cut = any_error && stops;
            if (!cut)
                for (std::size_t i = 0; i < n.size(); ++i)
                    for (std::size_t j = 0; j < n[i]; ++j) v.push_back({{in[i][j].id}, in[i][j].error});
        }
        return v;
    }

    // everything was drained
    void verify(const std::vector<std::size_t>& n) {
        const auto v = expected(n);
        const auto& got = w.calls;
        const bool unordered = kind == join_kind::unordered || kind == join_kind::merge_;
        if (unordered) {
            std::vector<std::size_t> next(n.size());
            for (auto& s : got) {
                const auto i = static_cast<std::size_t>(origin_of(s.ids[0]));
                VF_CHECK(i < next.size() && next[i] < n[i] && in[i][next[i]].id == s.ids[0] && in[i][next[i]].error == s.error, "merge_order",
                         "the merge got value %llu of input %zu instead of %zu", (unsigned long long)seq_of(s.ids[0]), i, next[i]);
                ++next[i];
            }
            if (!cut) VF_CHECK(got.size() == v.size(), "lost", "the merge got %zu of %zu values", got.size(), v.size());
        } else {
            for (std::size_t j = 0; j < got.size() && j < v.size(); ++j) {
                if (v[j].error)
                    VF_CHECK(got[j].error && std::count(v[j].ids.begin(), v[j].ids.end(), got[j].ids[0]), "pairing", "call %zu is not the exception that was thrown", j);
                else
                    VF_CHECK(!got[j].error && got[j].ids == v[j].ids, "pairing", "call %zu of the join got other values (the first one is %llx)", j, (unsigned long long)got[j].ids[0]);
            }
            VF_CHECK(got.size() == v.size(), "number", "the join was called %zu times instead of %zu", got.size(), v.size());
        }
        VF_CHECK(w.arrived == w.results, "results", "the process behind the join got %zu results of %zu", w.arrived.size(), w.results.size());
        event(got.size());
        c.see(got.size() * 64 + static_cast<std::uint64_t>(kind) * 8 + static_cast<std::uint64_t>(consumer));
        if (!got.empty()) c.nontrivial = true;
    }
};

inline void join_run(ctx& c, bool manual, bool errors) {
    perturb_level(manual ? 0 : static_cast<int>(c.r.below(4)));
    if (c.r.chance(70)) {
        join_case<cval> j(c, manual, errors);
        j.run();
    } else {
        join_case<mval> j(c, manual, errors);
        j.run();
    }
    perturb_level(0);
}

} // namespace vf
