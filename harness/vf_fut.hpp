// Payloads, executors and random task graphs for the future checks.
#pragma once
#include "vf.hpp"

#include <stlab/concurrency/concurrency.hpp>
#include <stlab/concurrency/serial_queue.hpp>
#include <stlab/pre_exit.hpp>

namespace vf {

using stlab::executor_t;
using etask = stlab::task<void() noexcept>;

// payloads ---------------------------------------------------------------------------------------
struct counts {
    std::atomic<long> live{0}, made{0}, copies{0}, moves{0};
};

// A value that knows whether it is intact. Reads of dead or moved-from values are violations.
template <bool Copyable>
struct value_t {
    static inline counts n;
    static constexpr std::uint64_t alive = 0xa11fea11fea11feull, moved = 0x30fed0000000000ull,
                                   dead = 0xdeadull;
    std::uint64_t id = 0;
    std::uint64_t state = alive;
    std::unique_ptr<std::uint64_t> heap; // makes a stolen or torn value visible to the sanitizers

    value_t() { ++n.live; }
    explicit value_t(std::uint64_t i) : id(i), heap(new std::uint64_t(i)) {
        ++n.live;
        ++n.made;
    }
    value_t(const value_t& x)
        requires Copyable
        : id(x.get()), heap(new std::uint64_t(x.id)) {
        ++n.live;
        ++n.copies;
        perturb();
    }
    value_t(value_t&& x) noexcept : id(x.id), state(x.state), heap(std::move(x.heap)) {
        x.state = moved;
        ++n.live;
        ++n.moves;
        perturb();
    }
    value_t& operator=(const value_t& x)
        requires Copyable
    {
        return *this = value_t(x);
    }
    value_t& operator=(value_t&& x) noexcept {
        id = x.id;
        state = x.state;
        heap = std::move(x.heap);
        x.state = moved;
        ++n.moves;
        return *this;
    }
    ~value_t() {
        if (state == dead) fail("double_destroy", "value %llx destroyed twice", (unsigned long long)id);
        state = dead;
        --n.live;
    }
    bool intact() const { return state == alive && heap && *heap == id; }
    std::uint64_t get() const {
        if (!intact())
            fail("stolen_value", "a holder saw a %s value (id %llx)",
                 state == moved ? "moved-from" : state == dead ? "destroyed" : "default or torn",
                 (unsigned long long)id);
        return id;
    }
};
using cval = value_t<true>;
using mval = value_t<false>;

// a value whose copy constructor and copy assignment can throw, while it is armed (one thread only)
struct tval {
    static inline std::function<bool(std::uint64_t)> throws; // asked for each copy
    static inline std::vector<std::uint64_t> thrown;
    static inline long live = 0;
    std::uint64_t id;
    std::unique_ptr<std::uint64_t> heap;
    struct error {
        std::uint64_t id;
    };
    tval() : tval(0) {}
    explicit tval(std::uint64_t i) : id(i), heap(new std::uint64_t(i)) { ++live; }
    tval(const tval& x) : id(x.get()), heap(new std::uint64_t(x.id)) {
        ask();
        ++live;
    }
    tval(tval&& x) noexcept : id(x.id), heap(std::move(x.heap)) { ++live; }
    tval& operator=(const tval& x) {
        id = x.get();
        ask();
        heap.reset(new std::uint64_t(id));
        return *this;
    }
    tval& operator=(tval&& x) noexcept {
        id = x.id;
        heap = std::move(x.heap);
        return *this;
    }
    ~tval() { --live; }
    std::uint64_t get() const {
        if (!heap || *heap != id) fail("stolen_value", "a holder saw a moved-from or torn value (id %llx)", (unsigned long long)id);
        return id;
    }
    void ask() const {
        event();
        if (throws && throws(id)) {
            thrown.push_back(id);
            throw error{id};
        }
    }
    static void arm(std::function<bool(std::uint64_t)> f) {
        throws = std::move(f);
        thrown.clear();
    }
    static bool threw(std::uint64_t i) { return std::find(thrown.begin(), thrown.end(), i) != thrown.end(); }
};

// counts live instances of something captured
struct token {
    std::shared_ptr<std::atomic<long>> n;
    explicit token(std::shared_ptr<std::atomic<long>> c) : n(std::move(c)) { ++*n; }
    token(const token& x) : n(x.n) {
        if (n) ++*n;
    }
    token(token&& x) noexcept : n(std::move(x.n)) {}
    token& operator=(token x) noexcept {
        std::swap(n, x.n);
        return *this;
    }
    ~token() {
        if (n) --*n;
    }
};

struct err {
    std::uint64_t id;
};
constexpr std::uint64_t broken_id = 0xb0b;
// broken_id for a broken promise, 0 if the exception is not one of ours
inline std::uint64_t error_id(const std::exception_ptr& p) {
    try {
        std::rethrow_exception(p);
    } catch (const err& e) {
        return e.id;
    } catch (const stlab::future_error& e) {
        return e.code() == stlab::future_error_codes::broken_promise ? broken_id : 0;
    } catch (...) {
        return 0;
    }
}
inline bool is_broken_promise(const std::exception_ptr& p) {
    try {
        std::rethrow_exception(p);
    } catch (const stlab::future_error& e) {
        return e.code() == stlab::future_error_codes::broken_promise;
    } catch (...) {
        return false;
    }
}

// executors --------------------------------------------------------------------------------------
inline thread_local int t_exec = -1;

inline executor_t tagged(int id, executor_t under) {
    return [id, under](etask t) {
        perturb();
        under([id, t = std::move(t)]() mutable noexcept {
            const int old = t_exec;
            t_exec = id;
            perturb();
            std::move(t)();
            t = nullptr; // the task dies inside of its executor
            t_exec = old;
        });
    };
}

// A pool that picks a random pending task.
class chaos_pool {
    std::mutex _m;
    std::condition_variable _c;
    std::vector<etask> _q;
    std::vector<std::thread> _t;
    rng _r;
    bool _stop = false;
    long _busy = 0;
    std::condition_variable _idle;

    void run() {
        std::unique_lock<std::mutex> l(_m);
        for (;;) {
            _c.wait(l, [&] { return _stop || !_q.empty(); });
            if (_q.empty()) return;
            const auto i = _r.below(_q.size());
            auto t = std::move(_q[i]);
            _q.erase(_q.begin() + static_cast<long>(i));
            ++_busy;
            l.unlock();
            t();
            t = nullptr;
            l.lock();
            if (--_busy == 0 && _q.empty()) _idle.notify_all();
        }
    }

public:
    explicit chaos_pool(int n, std::uint64_t seed) : _r(seed) {
        for (int i = 0; i < n; ++i) _t.emplace_back([this] { run(); });
    }
    ~chaos_pool() {
        {
            std::lock_guard<std::mutex> l(_m);
            _stop = true;
        }
        _c.notify_all();
        for (auto& t : _t) t.join();
    }
    void post(etask t) {
        {
            std::lock_guard<std::mutex> l(_m);
            _q.push_back(std::move(t));
        }
        _c.notify_one();
    }
    executor_t executor() {
        return [this](etask t) { post(std::move(t)); };
    }
    void idle() {
        std::unique_lock<std::mutex> l(_m);
        _idle.wait(l, [&] { return _busy == 0 && _q.empty(); });
    }
};

// Tasks wait until the driver runs one of them: a schedule chosen by the seed, single threaded.
class manual_queue {
public:
    std::vector<etask> q;
    executor_t executor() {
        return [this](etask t) { q.push_back(std::move(t)); };
    }
    bool step(rng& r) {
        if (q.empty()) return false;
        const auto i = r.below(q.size());
        auto t = std::move(q[i]);
        q.erase(q.begin() + static_cast<long>(i));
        t();
        return true;
    }
    bool front() {
        if (q.empty()) return false;
        auto t = std::move(q.front());
        q.erase(q.begin());
        t();
        return true;
    }
    void drain(rng& r) {
        while (step(r)) {}
    }
};

inline chaos_pool& the_pool() {
    static auto* p = new chaos_pool(4, 4711);
    return *p;
}

// 0 default, 1 high, 2 low, 3 immediate, 4 chaos pool, 5 serial on default, 6 serial on chaos
inline executor_t make_exec(int kind, int tag) {
    switch (kind) {
    case 0: return tagged(tag, stlab::default_executor);
    case 1: return tagged(tag, stlab::high_executor);
    case 2: return tagged(tag, stlab::low_executor);
    case 3: return tagged(tag, stlab::immediate_executor);
    case 4: return tagged(tag, the_pool().executor());
    case 5: return tagged(tag, stlab::serial_queue_t(stlab::default_executor).executor());
    default: return tagged(tag, stlab::serial_queue_t(the_pool().executor()).executor());
    }
}
constexpr int exec_kinds = 7;

// random task graphs -----------------------------------------------------------------------------
struct dag_opts {
    int nodes = 12;
    int fail = 0;        // percent of functions that throw
    int abandon = 0;     // percent of packaged tasks that are not invoked
    bool when = false;   // when_all, when_any
    bool reduce = false; // functions that return futures
    bool check_values = true;
    bool check_exec = false;
    bool await_some = false;
    int completers = 2; // threads that complete the sources; 0: the builder, in between
    std::function<executor_t(int)> exec; // by index
    int execs = 4;
    std::function<void()> pump; // called now and then by the builder
};

template <class T>
struct dag {
    static constexpr bool is_void = std::is_void_v<T>;
    static constexpr bool copyable = is_void || std::is_same_v<T, cval>;
    using fut = stlab::future<T>;
    struct outcome {
        bool ok;
        std::uint64_t v;
        bool operator<(const outcome& x) const { return std::tie(ok, v) < std::tie(x.ok, x.v); }
        bool operator==(const outcome& x) const { return ok == x.ok && v == x.v; }
    };
    enum kind_t { source_async, source_pkg, then_k, recover_k, all_k, any_k, reduce_k };
    struct node {
        kind_t kind;
        std::vector<int> in;
        int exec = -1; // expected executor tag, -1: unknown
        bool throws = false;
        int abandoned = 0; // 1: dropped, 2: set_exception
        // written by the function; read after everything is done
        std::atomic<int> calls{0};
        std::atomic<int> bad_exec{-2};
        std::vector<std::uint64_t> args;
        std::atomic<std::uint64_t> early{0}; // inputs that had not returned when it was called
        std::size_t any_index = ~std::size_t{0};
        bool saw_error = false;
        std::atomic<bool> done{false};
        int sinks = 0;
        std::vector<outcome> seen; // by the sinks, guarded by m
        std::mutex m;
    };
    dag_opts o;
    ctx& c;
    // fixed capacity, the functions look at it while the builder adds nodes
    struct node_list {
        std::vector<node> v;
        std::size_t n = 0;
        explicit node_list(std::size_t cap) : v(cap) {}
        std::size_t size() const { return n; }
        node& operator[](std::size_t i) { return v[i]; }
        const node& operator[](std::size_t i) const { return v[i]; }
        node& emplace_back() { return v.at(n++); }
        node& back() { return v[n - 1]; }
    } nodes;
    // released by the last function object; nothing runs any more then
    gate gone;
    std::shared_ptr<void> life;
    std::vector<std::pair<int, fut>> live; // node, future
    std::vector<executor_t> execs;
    gate sunk;
    long sinks = 0;

    dag(ctx& cc, dag_opts oo) : o(std::move(oo)), c(cc), nodes(static_cast<std::size_t>(o.nodes + 8)) {
        life = std::shared_ptr<void>(this, [](void* p) { static_cast<dag*>(p)->gone.add(); });
        for (int i = 0; i < o.execs; ++i) execs.push_back(o.exec(i));
    }

    static std::uint64_t result_of(int n, const std::vector<std::uint64_t>& args) {
        std::uint64_t x = mix(static_cast<std::uint64_t>(n) + 1000);
        for (auto a : args) x = mix(x, a);
        return is_void ? 1 : x | 1;
    }
    static std::uint64_t error_of(int n) { return 0xe0000 + static_cast<std::uint64_t>(n); }

    // body of every function
    auto body(int n, std::vector<std::uint64_t> args) -> T {
        node& d = nodes[static_cast<std::size_t>(n)];
        event();
        if (d.calls.fetch_add(1, std::memory_order_relaxed) == 0) d.args = args;
        if (d.exec >= 0 && t_exec != d.exec) d.bad_exec = t_exec;
        for (std::size_t i = 0; i < d.in.size(); ++i)
            if (d.kind != any_k && !nodes[static_cast<std::size_t>(d.in[i])].done.load(std::memory_order_relaxed))
                d.early.fetch_or(1ull << i, std::memory_order_relaxed);
        perturb();
        const bool th = d.throws;
        const auto v = result_of(n, args);
        d.done.store(true, std::memory_order_relaxed);
        if (th) throw err{error_of(n)};
        if constexpr (!is_void)
            return T{v};
        else
            return;
    }

    node& add(kind_t k, std::vector<int> in, int exec) {
        nodes.emplace_back();
        node& d = nodes.back();
        d.kind = k;
        d.in = std::move(in);
        d.exec = exec;
        d.throws = c.r.chance(o.fail);
        return d;
    }

    auto fn0(int n) {
        return [this, n, l = life]() -> T { return body(n, {}); };
    }
    auto fn1(int n) {
        if constexpr (is_void)
            return [this, n, l = life]() -> void { body(n, {1}); };
        else
            return [this, n, l = life](T x) -> T { return body(n, {x.get()}); };
    }
    auto fn_recover(int n) {
        return [this, n, l = life](fut f) -> T {
            node& d = nodes[static_cast<std::size_t>(n)];
            if (!f.is_ready()) fail("not_ready", "recover was called with a future that is not ready");
            if (auto e = f.exception()) {
                d.saw_error = true;
                return body(n, {error_id(e)});
            }
            if constexpr (is_void) {
                std::move(f).get_ready();
                return body(n, {1});
            } else
                return body(n, {std::move(f).get_ready().get()});
        };
    }

    // takes a random live future: either a copy of it, or it is consumed
    std::pair<int, fut> take() {
        const auto i = c.r.below(live.size());
        if (copyable && c.r.chance(60)) {
            if constexpr (copyable) return live[i];
        }
        auto r = std::move(live[i]);
        live.erase(live.begin() + static_cast<long>(i));
        return r;
    }

    void push(int n, fut f) { live.emplace_back(n, std::move(f)); }

    void sink(int n, fut f) {
        ++sinks;
        ++nodes[static_cast<std::size_t>(n)].sinks;
        std::move(f)
            .recover(stlab::immediate_executor,
                     [this, n, l = life](fut x) {
                         outcome r{};
                         if (!x.is_ready()) fail("not_ready", "continuation of a future which is not ready");
                         if (auto e = x.exception())
                             r = {false, error_id(e)};
                         else if constexpr (is_void) {
                             r = {true, 1};
                         } else
                             r = {true, std::move(x).get_ready().get()};
                         node& d = nodes[static_cast<std::size_t>(n)];
                         {
                             std::lock_guard<std::mutex> l(d.m);
                             d.seen.push_back(r);
                         }
                         event();
                         sunk.add();
                     })
            .detach();
    }

    int exec_of(int n) const { return nodes[static_cast<std::size_t>(n)].exec; }

    struct source {
        stlab::packaged_task<> p;
        int abandoned = 0;
        int n = 0;
        void operator()() {
            switch (abandoned) {
            case 0: p(); break;
            case 1: {
                stlab::packaged_task<> other;
                if (n % 3 == 0)
                    p = stlab::packaged_task<>();
                else if (n % 3 == 1)
                    p = std::move(other);
                else
                    stlab::packaged_task<> x(std::move(p));
                break;
            }
            default: p.set_exception(std::make_exception_ptr(err{error_of(n)}));
            }
        }
    };

    void run() {
        c.nontrivial = true;
        const int nsrc = 1 + static_cast<int>(c.r.below(3));
        std::vector<source> pkgs;
        std::vector<executor_t> pkg_exec;
        for (int i = 0; i < nsrc; ++i) {
            const int n = static_cast<int>(nodes.size());
            const int e = static_cast<int>(c.r.below(static_cast<std::uint64_t>(o.execs)));
            if (c.r.chance(60)) {
                add(source_pkg, {}, -1);
                auto [p, f] = stlab::package<T()>(execs[static_cast<std::size_t>(e)], fn0(n));
                src_exec[n] = e;
                if (c.r.chance(o.abandon)) nodes.back().abandoned = 1 + static_cast<int>(c.r.below(2));
                pkgs.push_back({std::move(p), nodes.back().abandoned, n});
                push(n, std::move(f));
            } else {
                add(source_async, {}, e);
                push(n, stlab::async(execs[static_cast<std::size_t>(e)], fn0(n)));
            }
        }
        c.r.shuffle(pkgs);
        std::vector<std::thread> th;
        const int k = pkgs.empty() ? 0 : o.completers;
        if (k) {
            std::vector<std::vector<source>> part(static_cast<std::size_t>(k));
            for (std::size_t i = 0; i < pkgs.size(); ++i) part[i % static_cast<std::size_t>(k)].push_back(std::move(pkgs[i]));
            for (int t = 0; t < k; ++t)
                th.emplace_back([p = std::move(part[static_cast<std::size_t>(t)]), s = c.r.next()]() mutable {
                    rng r(s);
                    for (auto& x : p) {
                        for (auto i = r.below(6); i; --i) perturb();
                        if (r.chance(30)) spin_us(static_cast<int>(r.below(40)));
                        x();
                    }
                });
            pkgs.clear();
        }
        // grow
        while (static_cast<int>(nodes.size()) < o.nodes && !live.empty()) {
            if (!k && !pkgs.empty() && c.r.chance(20)) {
                auto p = std::move(pkgs.back());
                pkgs.pop_back();
                p();
            }
            if (o.pump && c.r.chance(40)) o.pump();
            grow();
        }
        for (auto& p : pkgs) {
            if (o.pump && c.r.chance(40)) o.pump();
            p();
        }
        for (auto& [n, f] : live) {
            if (o.await_some && c.r.chance(30)) {
                outcome r{};
                try {
                    if constexpr (is_void) {
                        stlab::await(std::move(f));
                        r = {true, 1};
                    } else
                        r = {true, stlab::await(std::move(f)).get()};
                } catch (...) {
                    r = {false, error_id(std::current_exception())};
                }
                node& d = nodes[static_cast<std::size_t>(n)];
                std::lock_guard<std::mutex> l(d.m);
                d.seen.push_back(r);
                ++d.sinks;
            } else
                sink(n, std::move(f));
        }
        live.clear();
        for (auto& t : th) t.join();
        if (o.pump) o.pump();
        if (o.pump && sunk.count() != sinks)
            fail("lost_continuation", "the executor is idle but %ld of %ld continuations did not run",
                 sinks - sunk.count(), sinks);
        sunk.wait(sinks);
        life.reset();
        if (o.pump) o.pump();
        gone.wait(1); // a function object that is never destroyed is a stall
    }

    std::map<int, int> src_exec;

    int inherited(int n) {
        auto i = src_exec.find(n);
        return i != src_exec.end() ? i->second : exec_of(n);
    }

    void grow() {
        const int n = static_cast<int>(nodes.size());
        const int x = static_cast<int>(c.r.below(100));
        const int e = static_cast<int>(c.r.below(static_cast<std::uint64_t>(o.execs)));
        const auto& ex = execs[static_cast<std::size_t>(e)];
        const bool given = c.r.chance(50);
        if (o.when && x < 20 && live.size() >= 2) {
            const bool all = c.r.chance(60);
            auto a = take();
            auto b = take();
            std::optional<std::pair<int, fut>> d;
            if (!live.empty() && c.r.chance(50)) d = take();
            std::vector<int> in{a.first, b.first};
            if (d) in.push_back(d->first);
            add(all ? all_k : any_k, in, e);
            if constexpr (is_void) {
                if (all) {
                    auto f = [this, n, l = life, k = in.size()]() { body(n, std::vector<std::uint64_t>(k, 1)); };
                    push(n, d ? stlab::when_all(ex, f, std::move(a.second), std::move(b.second), std::move(d->second)) :
                                stlab::when_all(ex, f, std::move(a.second), std::move(b.second)));
                } else {
                    auto f = [this, n, l = life](std::size_t i) {
                        nodes[static_cast<std::size_t>(n)].any_index = i;
                        body(n, {1});
                    };
                    push(n, d ? stlab::when_any(ex, f, std::move(a.second), std::move(b.second), std::move(d->second)) :
                                stlab::when_any(ex, f, std::move(a.second), std::move(b.second)));
                }
            } else {
                if (all) {
                    if (d)
                        push(n, stlab::when_all(
                                    ex, [this, n, l = life](T p, T q, T r) { return body(n, {p.get(), q.get(), r.get()}); },
                                    std::move(a.second), std::move(b.second), std::move(d->second)));
                    else
                        push(n, stlab::when_all(ex, [this, n, l = life](T p, T q) { return body(n, {p.get(), q.get()}); },
                                                std::move(a.second), std::move(b.second)));
                } else {
                    auto f = [this, n, l = life](T p, std::size_t i) {
                        nodes[static_cast<std::size_t>(n)].any_index = i;
                        return body(n, {p.get()});
                    };
                    if (d)
                        push(n, stlab::when_any(ex, f, std::move(a.second), std::move(b.second), std::move(d->second)));
                    else
                        push(n, stlab::when_any(ex, f, std::move(a.second), std::move(b.second)));
                }
            }
            return;
        }
        auto a = take();
        if (o.reduce && x < 35) {
            // outer function runs on e, its result comes from an inner task on the same executor
            add(reduce_k, {a.first}, -1); // the body runs on the inner executor
            auto inner_ex = execs[c.r.below(execs.size())];
            if constexpr (is_void)
                push(n, std::move(a.second).then(ex, [this, n, l = life, inner_ex]() {
                    body_reduce_check(n);
                    return stlab::async(inner_ex, [this, n, l] { body(n, {1}); });
                }));
            else
                push(n, std::move(a.second).then(ex, [this, n, l = life, inner_ex](T v) {
                    body_reduce_check(n);
                    return stlab::async(inner_ex, [this, n, l](T w) { return body(n, {w.get()}); }, std::move(v));
                }));
            src_exec[n] = e;
            return;
        }
        const bool rec = x >= 80;
        const bool lvalue = copyable && c.r.chance(40);
        add(rec ? recover_k : then_k, {a.first}, given ? e : inherited(a.first));
        if (lvalue) {
            if constexpr (copyable) {
                const fut& l = a.second;
                if (rec)
                    push(n, given ? (c.r.chance(50) ? l.recover(ex, fn_recover(n)) : l ^ (stlab::executor{ex} & fn_recover(n))) :
                                    (c.r.chance(50) ? l.recover(fn_recover(n)) : l ^ fn_recover(n)));
                else
                    push(n, given ? (c.r.chance(50) ? l.then(ex, fn1(n)) : l | (stlab::executor{ex} & fn1(n))) :
                                    (c.r.chance(50) ? l.then(fn1(n)) : l | fn1(n)));
            }
        } else {
            auto& l = a.second;
            if (rec)
                push(n, given ? (c.r.chance(50) ? std::move(l).recover(ex, fn_recover(n)) : std::move(l) ^ (stlab::executor{ex} & fn_recover(n))) :
                                (c.r.chance(50) ? std::move(l).recover(fn_recover(n)) : std::move(l) ^ fn_recover(n)));
            else
                push(n, given ? (c.r.chance(50) ? std::move(l).then(ex, fn1(n)) : std::move(l) | (stlab::executor{ex} & fn1(n))) :
                                (c.r.chance(50) ? std::move(l).then(fn1(n)) : std::move(l) | fn1(n)));
        }
    }
    std::map<int, std::atomic<int>> reduce_calls;
    void body_reduce_check(int) { event(); }

    static const char* kind_name(kind_t k) {
        static const char* s[] = {"async", "package", "then", "recover", "when_all", "when_any", "reduced then"};
        return s[k];
    }

    void check_sinks(std::size_t n, std::vector<std::set<outcome>>& out) {
        node& d = nodes[n];
        const char* kn = kind_name(d.kind);
        if (static_cast<int>(d.seen.size()) != d.sinks)
            fail("sink_count", "node %zu (%s): %zu results were delivered to %d continuations", n, kn, d.seen.size(), d.sinks);
        for (auto& s : d.seen) {
            if (o.check_values && !out[n].count(s))
                fail("wrong_result", "node %zu (%s): a continuation got %s %llx which is not its result", n, kn,
                     s.ok ? "value" : "error", (unsigned long long)s.v);
            if (!s.ok || nodes[n].kind == any_k) out[n] = {s};
            c.see(s.v + s.ok);
        }
        for (std::size_t k = 1; k < d.seen.size(); ++k)
            if (o.check_values && !(d.seen[k] == d.seen[0]))
                fail("inconsistent_result", "node %zu (%s): two holders of one future saw different results", n, kn);
    }

    // compares what happened with what the graph defines
    void verify() {
        std::vector<std::set<outcome>> out(nodes.size());
        // when_all and when_any may cancel their arguments, unless someone else needs them
        std::vector<char> firm(nodes.size(), 0);
        for (std::size_t n = nodes.size(); n-- > 0;) {
            if (nodes[n].sinks) firm[n] = 1;
            if (firm[n] && nodes[n].kind != all_k && nodes[n].kind != any_k)
                for (int k : nodes[n].in) firm[static_cast<std::size_t>(k)] = 1;
        }
        for (std::size_t n = 0; n < nodes.size(); ++n) {
            node& d = nodes[n];
            const int calls = d.calls.load();
            c.see(mix(n, static_cast<std::uint64_t>(calls) * 16 + d.kind));
            const char* kn = kind_name(d.kind);
            if (d.abandoned) {
                if (calls) fail("ran_abandoned", "node %zu: a packaged task that was never invoked ran", n);
                out[n] = {outcome{false, d.abandoned == 1 ? broken_id : error_of(static_cast<int>(n))}};
                check_sinks(n, out);
                continue;
            }
            if (calls > 1) fail("ran_twice", "node %zu (%s) was invoked %d times", n, kn, calls);
            auto done = [&] {
                return d.throws ? outcome{false, error_of(static_cast<int>(n))} :
                                  outcome{true, result_of(static_cast<int>(n), d.args)};
            };
            if (d.bad_exec.load() != -2 && o.check_exec)
                fail("wrong_executor", "node %zu (%s) ran on executor %d, expected %d", n, kn, d.bad_exec.load(), d.exec);
            std::vector<std::uint64_t> want;
            bool must = true, may = true;
            std::set<outcome> err_out;
            switch (d.kind) {
            case source_async:
            case source_pkg: break;
            case then_k:
            case reduce_k: {
                auto& i = out[static_cast<std::size_t>(d.in[0])];
                may = must = false;
                for (auto& x : i) x.ok ? (may = true, 0) : (err_out.insert(x), 0);
                must = err_out.empty();
                if (calls) {
                    if (o.check_values && (d.args.size() != 1 || !i.count({true, d.args[0]})))
                        fail("wrong_value", "node %zu (%s) got a value node %d did not produce", n, kn, d.in[0]);
                }
                break;
            }
            case recover_k: {
                auto& i = out[static_cast<std::size_t>(d.in[0])];
                if (calls && o.check_values && !i.count({!d.saw_error, d.args.at(0)}))
                    fail("wrong_value", "node %zu (recover) got %s %llx node %d did not produce", n,
                         d.saw_error ? "an error" : "a value", (unsigned long long)d.args.at(0), d.in[0]);
                break;
            }
            case all_k: {
                may = must = true;
                for (int k : d.in) {
                    bool can_ok = false, can_err = false;
                    for (auto& x : out[static_cast<std::size_t>(k)]) {
                        (x.ok ? can_ok : can_err) = true;
                        if (!x.ok) err_out.insert(x);
                    }
                    if (can_err) must = false;
                    if (!can_ok) may = false;
                }
                if (calls && o.check_values) {
                    for (std::size_t k = 0; k < d.in.size(); ++k)
                        if (d.args.size() != d.in.size() || !out[static_cast<std::size_t>(d.in[k])].count({true, d.args[k]}))
                            fail("wrong_value", "node %zu (when_all) argument %zu is not the value of node %d", n, k, d.in[k]);
                }
                break;
            }
            case any_k: {
                may = false;
                must = false;
                for (int k : d.in) {
                    bool can_err = false;
                    for (auto& x : out[static_cast<std::size_t>(k)]) {
                        if (x.ok)
                            may = true;
                        else {
                            err_out.insert(x);
                            can_err = true;
                        }
                    }
                    if (!can_err) must = true;
                }
                if (must) err_out.clear();
                if (calls && o.check_values) {
                    if (d.any_index >= d.in.size() ||
                        !out[static_cast<std::size_t>(d.in[d.any_index])].count({true, d.args.at(0)}))
                        fail("wrong_value", "node %zu (when_any) got index %zu and a value this argument did not produce", n, d.any_index);
                }
                break;
            }
            }
            if (calls && !may) fail("ran_after_failure", "node %zu (%s) was invoked although what it depends on failed", n, kn);
            if (!calls && must && firm[n]) fail("not_run", "node %zu (%s) was never invoked although everything it depends on succeeded", n, kn);
            if (calls)
                out[n] = {done()};
            else
                out[n] = err_out;
            if (d.kind == all_k || d.kind == then_k || d.kind == recover_k)
                // only an input whose function was run can be known to be incomplete
                for (std::size_t k = 0; k < d.in.size() && o.check_values; ++k)
                    if ((d.early.load() >> k & 1) && nodes[static_cast<std::size_t>(d.in[k])].calls.load())
                        fail("ran_early", "node %zu (%s) was invoked before node %d was complete", n, kn, d.in[k]);
            check_sinks(n, out);
        }
        if (c.note.empty()) {
            std::ostringstream s;
            for (std::size_t n = 0; n < nodes.size(); ++n) {
                auto& d = nodes[n];
                s << n << ":" << kind_name(d.kind) << "(";
                for (int i : d.in) s << i << " ";
                s << ")" << (d.throws ? "!" : "") << "x" << d.calls.load() << " ";
            }
            c.note = s.str();
        }
    }
};

} // namespace vf
