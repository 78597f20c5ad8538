// F11: no leaks, double destruction, races or undefined behaviour in task graphs.
#include "vf_fut.hpp"
using namespace vf;
using namespace stlab;
using namespace std::chrono_literals;

namespace {
std::atomic<long> g_errors{0};
struct counted_error {
    std::uint64_t id;
    explicit counted_error(std::uint64_t i) : id(i) { ++g_errors; }
    counted_error(const counted_error& x) : id(x.id) { ++g_errors; }
    ~counted_error() { --g_errors; }
};

template <class T>
struct mill {
    static constexpr bool is_void = std::is_void_v<T>;
    static constexpr bool copyable = is_void || std::is_same_v<T, cval>;
    using fut = future<T>;
    std::mutex m;
    std::vector<fut> slots; // shared by the threads
    std::vector<packaged_task<>> pkgs;
    std::atomic<int> ran{0};
    std::atomic<long>* funcs = nullptr; // live function objects
    std::shared_ptr<std::atomic<long>> tok = std::make_shared<std::atomic<long>>(0);
    bool threads = false;

    T out(bool bad) {
        ++ran;
        event();
        perturb();
        if (bad) throw counted_error{1};
        if constexpr (!is_void) return T{3};
    }
    template <class E>
    fut create(rng& r, const E& ex) {
        const bool bad = r.chance(20);
        if (r.chance(50)) return async(ex(r), [this, bad, t = token(tok)]() -> T { return out(bad); });
        auto [p, f] = package<T()>(ex(r), [this, bad, t = token(tok)]() -> T { return out(bad); });
        std::lock_guard<std::mutex> l(m);
        pkgs.push_back(std::move(p));
        return std::move(f);
    }
    fut take(rng& r) {
        std::lock_guard<std::mutex> l(m);
        if (slots.empty()) return {};
        const auto i = r.below(slots.size());
        if constexpr (copyable)
            if (r.chance(40)) return slots[i];
        auto f = std::move(slots[i]);
        slots.erase(slots.begin() + static_cast<long>(i));
        return f;
    }
    void put(fut f) {
        std::lock_guard<std::mutex> l(m);
        slots.push_back(std::move(f));
    }
    fut chain(fut f, rng& r, executor_t ex, bool inherit) {
        const bool bad = r.chance(15);
        if (r.chance(70)) {
            if constexpr (is_void) {
                auto g = [this, bad, t = token(tok)] { out(bad); };
                return inherit ? std::move(f).then(std::move(g)) : std::move(f).then(ex, std::move(g));
            } else {
                auto g = [this, bad, t = token(tok)](T v) {
                    (void)v.get();
                    return out(bad);
                };
                return inherit ? std::move(f).then(std::move(g)) : std::move(f).then(ex, std::move(g));
            }
        }
        auto g = [this, bad, t = token(tok)](fut x) -> T {
            (void)x.exception();
            return out(bad);
        };
        return inherit ? std::move(f).recover(std::move(g)) : std::move(f).recover(ex, std::move(g));
    }
    fut co(fut f, token t) {
        if constexpr (is_void) {
            co_await std::move(f);
            out(false);
        } else {
            auto v = co_await std::move(f);
            co_return v;
        }
    }
    template <class E>
    void op(rng& r, const E& ex) {
        switch (r.below(15)) {
        case 0:
        case 1:
        case 2: put(create(r, ex)); break;
        case 3:
        case 4: {
            auto f = take(r);
            if (f.valid()) put(chain(std::move(f), r, ex(r), r.chance(30)));
            break;
        }
        case 5: (void)take(r); break;
        case 6: {
            auto f = take(r);
            if (f.valid()) f.detach();
            break;
        }
        case 7: {
            auto f = take(r);
            if (f.valid()) std::move(f).detach([this, t = token(tok)](fut) { event(); });
            break;
        }
        case 8:
        case 9: {
            packaged_task<> p;
            {
                std::lock_guard<std::mutex> l(m);
                if (pkgs.empty()) break;
                const auto i = r.below(pkgs.size());
                p = std::move(pkgs[i]);
                pkgs.erase(pkgs.begin() + static_cast<long>(i));
            }
            if (r.chance(70))
                p();
            else if (r.chance(50))
                p.set_exception(std::make_exception_ptr(counted_error{2}));
            break;
        }
        case 10: {
            auto a = take(r);
            auto b = take(r);
            if (!a.valid() || !b.valid()) break;
            if constexpr (is_void)
                put(when_all(ex(r), [this, t = token(tok)] { out(false); }, std::move(a), std::move(b)));
            else
                put(when_all(ex(r), [this, t = token(tok)](T x, T y) { return (void)x.get(), (void)y.get(), out(false); }, std::move(a), std::move(b)));
            break;
        }
        case 11: {
            auto a = take(r);
            auto b = take(r);
            if (!a.valid() || !b.valid()) break;
            if constexpr (is_void)
                put(when_any(ex(r), [this, t = token(tok)](std::size_t) { out(false); }, std::move(a), std::move(b)));
            else
                put(when_any(ex(r), [this, t = token(tok)](T x, std::size_t) { return (void)x.get(), out(false); }, std::move(a), std::move(b)));
            break;
        }
        case 12: {
            std::vector<fut> v;
            for (auto n = r.below(4); n; --n) {
                auto f = take(r);
                if (f.valid()) v.push_back(std::move(f));
            }
            const auto range = std::make_pair(v.begin(), v.end());
            if constexpr (is_void) {
                if (r.chance(50))
                    put(when_all(ex(r), [this, t = token(tok)] { out(false); }, range));
                else
                    put(when_any(ex(r), [this, t = token(tok)](std::size_t) { out(false); }, range));
            } else {
                if (r.chance(50))
                    put(when_all(ex(r), [this, t = token(tok)](std::vector<T>) { return out(false); }, range));
                else
                    put(when_any(ex(r), [this, t = token(tok)](T, std::size_t) { return out(false); }, range));
            }
            break;
        }
        case 13: {
            auto f = take(r);
            if (f.valid()) put(co(std::move(f), token(tok)));
            break;
        }
        default: {
            auto f = take(r);
            if (!f.valid()) break;
            if (r.chance(50)) {
                put(async(ex(r), [f = std::move(f), t = token(tok)]() mutable { return std::move(f); }));
            } else if (threads) {
                put(await_for(std::move(f), std::chrono::microseconds(r.below(50))));
            } else {
                try {
                    (void)std::move(f).get_try();
                } catch (...) {
                }
            }
        }
        }
    }
};

template <class T>
void exact_once(std::uint64_t seed, std::uint64_t& ran) {
    rng r(seed);
    manual_queue q;
    {
        mill<T> w;
        auto ex = [&](rng& x) { return x.chance(25) ? executor_t(immediate_executor) : q.executor(); };
        const int ops = 5 + static_cast<int>(r.below(60));
        for (int i = 0; i < ops; ++i) {
            w.op(r, ex);
            if (r.chance(40)) q.step(r);
        }
        const bool complete = r.chance(60);
        if (!complete) w.slots.clear();
        while (complete && !w.pkgs.empty()) {
            auto p = std::move(w.pkgs.back());
            w.pkgs.pop_back();
            p();
        }
        w.pkgs.clear();
        q.drain(r);
        w.slots.clear();
        q.drain(r);
        ran = static_cast<std::uint64_t>(w.ran.load()) + 1000 * static_cast<std::uint64_t>(ops);
        VF_CHECK(*w.tok == 0, "leak_function", "%ld function objects are left", w.tok->load());
    }
    VF_CHECK(cval::n.live == 0 && mval::n.live == 0, "leak_value", "%ld values are left", cval::n.live + mval::n.live);
    VF_CHECK(g_errors == 0, "leak_exception", "%ld exceptions are left", g_errors.load());
}

// The same history again: everything that is allocated must be released. What is left is left every time, unlike
// what the threads of earlier cases hold on to for a moment.
template <class T>
void exact(ctx& c) {
    const auto s = c.r.next();
    std::uint64_t a = 0, b = 0;
    exact_once<T>(s, a);
    long left = 0;
    for (int i = 0; i < 6; ++i) {
        const auto before = live_bytes();
        exact_once<T>(s, b);
        left = static_cast<long>(live_bytes()) - static_cast<long>(before);
        VF_CHECK(a == b, "model", "the history is not deterministic");
        if (left <= 0) break;
        std::this_thread::sleep_for(std::chrono::milliseconds(5 << i));
    }
    VF_CHECK(left <= 0, "leak_bytes", "%ld bytes are left over, each time", left);
    c.nontrivial = true;
    c.see(a);
    c.note = "ran " + std::to_string(a % 1000) + " functions in " + std::to_string(a / 1000) + " operations; all memory released";
}

template <class T>
void stress(ctx& c) {
    perturb_level(static_cast<int>(c.r.below(4)));
    const int threads = 2 + static_cast<int>(c.r.below(3));
    const int ops = 4 + static_cast<int>(c.r.below(30));
    std::uint64_t ran = 0;
    {
        mill<T> w;
        w.threads = true;
        std::vector<executor_t> e;
        for (int i = 0; i < 5; ++i) e.push_back(make_exec(static_cast<int>(c.r.below(exec_kinds)), i));
        auto ex = [&](rng& r) { return e[r.below(e.size())]; };
        std::vector<std::thread> th;
        start_line line(threads);
        for (int t = 0; t < threads; ++t)
            th.emplace_back([&, r = rng(c.r.next())]() mutable {
                line.arrive();
                for (int i = 0; i < ops; ++i) w.op(r, ex);
            });
        for (auto& t : th) t.join();
        while (!w.pkgs.empty()) {
            auto p = std::move(w.pkgs.back());
            w.pkgs.pop_back();
            if (c.r.chance(80)) p();
        }
        if (c.r.chance(50))
            for (auto& f : w.slots) f = await_for(std::move(f), 30s);
        w.slots.clear();
        // everything in flight ends by itself
        for (int i = 0; *w.tok != 0 || cval::n.live != 0 || mval::n.live != 0 || g_errors != 0; ++i) {
            if (i > 30000)
                fail("leak", "30 s after the last handle is gone there are %ld functions, %ld values and %ld exceptions", w.tok->load(),
                     cval::n.live + mval::n.live, g_errors.load());
            quiet q;
            std::this_thread::sleep_for(i < 50 ? 50us : 1000us);
        }
        ran = static_cast<std::uint64_t>(w.ran.load());
    }
    c.nontrivial = ran > 0;
    c.see(ran * 100 + static_cast<unsigned>(threads));
    c.note = std::to_string(threads) + " threads, " + std::to_string(ops) + " operations each, " + std::to_string(ran) + " functions ran";
}
} // namespace

#if VF_PART == 0
VF_SCENARIO(exact_copyable, 3000, 40000) { exact<cval>(c); }
VF_SCENARIO(stress_copyable, 500, 8000) { stress<cval>(c); }
#elif VF_PART == 1
VF_SCENARIO(exact_move_only, 3000, 40000) { exact<mval>(c); }
VF_SCENARIO(stress_move_only, 500, 8000) { stress<mval>(c); }
#else
VF_SCENARIO(exact_void, 3000, 40000) { exact<void>(c); }
VF_SCENARIO(stress_void, 500, 8000) { stress<void>(c); }
#endif
