// F03: releasing the last future cancels; detach and other holders keep the work alive.
#include "vf_fut.hpp"
using namespace vf;
using namespace stlab;

namespace {
// Single threaded: the model knows after every step which functions must be alive.
template <class T>
struct model {
    static constexpr bool is_void = std::is_void_v<T>;
    static constexpr bool copyable = is_void || std::is_same_v<T, cval>;
    using fut = future<T>;
    ctx& c;
    manual_queue q;
    struct node {
        int kind; // 0 package, 1 async, 2 then, 3 recover, 4 detach with a function
        int in = -1;
        int handles = 0;
        bool detached = false, complete = false, invoked = false;
        int calls = 0;
        std::shared_ptr<std::atomic<long>> tok = std::make_shared<std::atomic<long>>(0);
    };
    std::deque<node> nodes;
    std::vector<std::pair<int, fut>> live;
    std::vector<std::pair<int, packaged_task<>>> pkgs;
    int cancels = 0, ran = 0;

    node& at(int n) { return nodes[static_cast<std::size_t>(n)]; }

    // from the newest to the oldest, nothing depends on something newer than its dependents
    std::vector<char> needed() {
        std::vector<char> r(nodes.size(), 0);
        for (std::size_t i = nodes.size(); i-- > 0;) {
            auto& d = nodes[i];
            if (d.complete) continue;
            if (d.handles || d.detached || d.kind == 4) r[i] = 1;
            if (r[i] && d.in >= 0) r[static_cast<std::size_t>(d.in)] = 1;
        }
        for (std::size_t i = 0; i < nodes.size(); ++i)
            if (nodes[i].complete) r[i] = 0;
        return r;
    }

    T call(int n) {
        event();
        auto& d = at(n);
        const auto need = needed();
        if (!need[static_cast<std::size_t>(n)]) fail("ran_cancelled", "node %d ran although nobody holds it", n);
        if (d.in >= 0 && !at(d.in).complete) fail("ran_early", "node %d ran before node %d", n, d.in);
        if (d.kind == 0 && !d.invoked) fail("ran_early", "node %d ran before it was invoked", n);
        ++d.calls;
        ++ran;
        d.complete = true;
        if constexpr (!is_void) return T{static_cast<std::uint64_t>(n) + 1};
    }

    void check(const char* op) {
        const auto need = needed();
        for (std::size_t i = 0; i < nodes.size(); ++i) {
            auto& d = nodes[i];
            const long t = d.tok->load();
            if (d.calls > 1) fail("ran_twice", "node %zu ran %d times", i, d.calls);
            if (d.complete != (d.calls == 1)) fail("model", "inconsistent model");
            if (need[i] && t != 1)
                fail("cancelled", "after %s: node %zu (kind %d) is held but its function was destroyed (%ld)", op, i, d.kind, t);
            if (!need[i] && t != 0)
                fail(d.complete ? "kept" : "not_cancelled", "after %s: node %zu (kind %d) is %s but its function is still alive",
                     op, i, d.kind, d.complete ? "complete" : "not held by anyone");
        }
        for (auto& p : pkgs) {
            const auto n = static_cast<std::size_t>(p.first);
            if (p.second.canceled() == static_cast<bool>(need[n]))
                fail("canceled", "after %s: canceled() of task %zu is %d but it is %s", op, n, p.second.canceled(),
                     need[n] ? "needed" : "not needed");
        }
        for (auto& l : live)
            if (l.second.is_ready() != at(l.first).complete)
                fail("ready", "after %s: is_ready() of node %d is wrong", op, l.first);
    }

    executor_t ex() {
        if (c.r.chance(25)) return immediate_executor;
        return q.executor();
    }

    void run() {
        const int ops = 10 + static_cast<int>(c.r.below(50));
        for (int i = 0; i < ops; ++i) step();
        // the rest
        while (!pkgs.empty() || !live.empty() || !q.q.empty()) {
            const auto k = c.r.below(3);
            if (k == 0 && !pkgs.empty())
                invoke();
            else if (k == 1 && !live.empty())
                drop();
            else
                q.step(c.r);
            check("the end game");
        }
        const auto need = needed();
        for (std::size_t i = 0; i < nodes.size(); ++i)
            if (need[i]) fail("not_run", "node %zu is still needed and everything is done, but it did not run", i);
        int never = 0;
        for (auto& d : nodes) never += d.calls == 0;
        c.nontrivial = never > 0 && ran > 0;
        for (auto& d : nodes) c.see(static_cast<std::uint64_t>(d.kind * 4 + d.calls * 2 + d.detached));
        c.note = std::to_string(nodes.size()) + " tasks, " + std::to_string(never) + " cancelled, " +
                 std::to_string(ran) + " run, " + std::to_string(ops) + " operations";
    }
    void invoke() {
        const auto i = c.r.below(pkgs.size());
        auto p = std::move(pkgs[i]);
        pkgs.erase(pkgs.begin() + static_cast<long>(i));
        at(p.first).invoked = true;
        p.second();
    }
    void drop() {
        const auto i = c.r.below(live.size());
        --at(live[i].first).handles;
        switch (c.r.below(5)) {
        case 0: live[i].second.reset(); break;
        case 1: live[i].second = fut(); break;
        case 2: {
            fut x;
            swap(x, live[i].second);
            break;
        }
        case 3: {
            fut x(std::move(live[i].second));
            break;
        }
        default: break;
        }
        live.erase(live.begin() + static_cast<long>(i));
    }
    void push(int n, fut f) {
        ++at(n).handles;
        live.emplace_back(n, std::move(f));
    }
    std::pair<int, fut> take() {
        const auto i = c.r.below(live.size());
        if constexpr (copyable)
            if (c.r.chance(50)) return live[i];
        auto r = std::move(live[i]);
        live.erase(live.begin() + static_cast<long>(i));
        return r;
    }
    void step() {
        const int n = static_cast<int>(nodes.size());
        const auto k = c.r.below(100);
        const char* op = "?";
        if (live.empty() || k < 12) {
            nodes.emplace_back().kind = c.r.chance(60) ? 0 : 1;
            auto f = [this, n, t = token(nodes.back().tok)]() -> T { return call(n); };
            // the function may run before this returns, it is held until then
            ++at(n).handles;
            if (at(n).kind == 0) {
                op = "package";
                auto pf = package<T()>(ex(), std::move(f));
                pkgs.emplace_back(n, std::move(pf.first));
                live.emplace_back(n, std::move(pf.second));
            } else {
                op = "async";
                live.emplace_back(n, async(ex(), std::move(f)));
            }
        } else if (k < 45) {
            op = "then or recover";
            bool consumed = true;
            const auto i = c.r.below(live.size());
            if constexpr (copyable) consumed = c.r.chance(40);
            const int in = live[i].first;
            nodes.emplace_back().kind = c.r.chance(60) ? 2 : 3;
            at(n).in = in;
            ++at(n).handles;
            auto t = token(at(n).tok);
            fut f = std::move(live[i].second);
            fut keep;
            if (consumed)
                live.erase(live.begin() + static_cast<long>(i));
            else if constexpr (copyable)
                keep = f;
            const bool e = c.r.chance(60);
            fut res;
            if (at(n).kind == 2) {
                auto g = [&] {
                    if constexpr (is_void)
                        return [this, n, t = std::move(t)]() { call(n); };
                    else
                        return [this, n, t = std::move(t)](T) { return call(n); };
                }();
                if constexpr (copyable) {
                    if (!consumed)
                        res = e ? f.then(ex(), std::move(g)) : f.then(std::move(g));
                }
                if (consumed) res = e ? std::move(f).then(ex(), std::move(g)) : std::move(f).then(std::move(g));
            } else {
                auto g = [this, n, t = std::move(t)](fut x) -> T {
                    x.reset();
                    return call(n);
                };
                if constexpr (copyable) {
                    if (!consumed)
                        res = e ? f.recover(ex(), std::move(g)) : f.recover(std::move(g));
                }
                if (consumed) res = e ? std::move(f).recover(ex(), std::move(g)) : std::move(f).recover(std::move(g));
            }
            if (consumed) --at(in).handles;
            f.reset();
            if (!consumed) live[i].second = std::move(keep);
            live.emplace_back(n, std::move(res));
        } else if (k < 52) {
            if constexpr (copyable) {
                op = "copy";
                const auto i = c.r.below(live.size());
                push(live[i].first, live[i].second);
            }
        } else if (k < 70) {
            op = "release";
            drop();
        } else if (k < 76) {
            op = "detach";
            const auto i = c.r.below(live.size());
            at(live[i].first).detached = true;
            live[i].second.detach();
        } else if (k < 80) {
            op = "detach with a function";
            const auto i = c.r.below(live.size());
            const int in = live[i].first;
            nodes.emplace_back().kind = 4;
            at(n).in = in;
            fut f = std::move(live[i].second);
            live.erase(live.begin() + static_cast<long>(i));
            std::move(f).detach([this, n, t = token(at(n).tok)](fut x) {
                if (!x.is_ready()) fail("not_ready", "detach: the future is not ready");
                if constexpr (is_void)
                    call(n);
                else
                    (void)call(n);
            });
            --at(in).handles;
        } else if (k < 88) {
            if (!pkgs.empty()) {
                op = "invoke";
                invoke();
            }
        } else {
            op = "run";
            q.step(c.r);
        }
        check(op);
    }
};

// Copies are released, detached or awaited by several threads while the source is completed.
template <class T>
void release_race(ctx& c) {
    perturb_level(1 + static_cast<int>(c.r.below(3)));
    constexpr bool copyable = std::is_void_v<T> || std::is_same_v<T, cval>;
    const int threads = copyable ? 1 + static_cast<int>(c.r.below(4)) : 1;
    const int chain = static_cast<int>(c.r.below(4));
    const bool never = c.r.chance(20);  // the source is never invoked
    const int mode = static_cast<int>(c.r.below(3)); // 0: all drop, 1, 2: mixed
    gate gone;
    std::vector<std::atomic<int>> ran(static_cast<std::size_t>(chain + 1));
    std::atomic<int> kept{0};
    std::vector<std::thread> th;
    std::optional<packaged_task<>> src;
    start_line line(threads + 1);
    gate done;
    {
        auto life = std::shared_ptr<void>(&gone, [](void* p) { static_cast<gate*>(p)->add(); });
        auto fn = [&](int i) {
            if constexpr (std::is_void_v<T>)
                return [&ran, i, life] { ++ran[static_cast<std::size_t>(i)]; };
            else
                return [&ran, i, life](T x) {
                    ++ran[static_cast<std::size_t>(i)];
                    return x;
                };
        };
        auto [p, f] = [&] {
            auto ex = make_exec(static_cast<int>(c.r.below(exec_kinds)), 0);
            if constexpr (std::is_void_v<T>)
                return package<void()>(ex, fn(0));
            else
                return package<T()>(ex, [&ran, life] {
                    ++ran[0];
                    return T{3};
                });
        }();
        src = std::move(p);
        future<T> h = std::move(f);
        for (int i = 1; i <= chain; ++i) h = std::move(h).then(make_exec(static_cast<int>(c.r.below(exec_kinds)), 0), fn(i));
        for (int t = 0; t < threads; ++t) {
            const auto s = c.r.next();
            future<T> mine;
            if constexpr (copyable)
                mine = h;
            else
                mine = std::move(h);
            th.emplace_back([&, s, f = std::move(mine)]() mutable {
                rng r(s);
                line.arrive();
                for (auto i = r.below(12); i; --i) perturb();
                const auto k = mode == 0 ? 0 : r.below(4);
                if (k == 0)
                    f.reset();
                else if (k == 1) {
                    ++kept;
                    f.detach();
                    f.reset();
                } else if (k == 2) {
                    ++kept;
                    std::move(f).detach([&](auto x) {
                        if (!x.is_ready()) fail("not_ready", "detach: the future is not ready");
                        done.add();
                    });
                    return;
                } else if (!never) {
                    ++kept;
                    await(std::move(f));
                } else
                    f.reset();
                done.add();
            });
        }
    }
    line.arrive();
    bool cancelled = false;
    if (!never) {
        for (auto i = c.r.below(24); i; --i) perturb();
        cancelled = src->canceled();
        (*src)();
    }
    for (auto& t : th) t.join();
    if (never) {
        const bool none = kept == 0;
        VF_CHECK(src->canceled() == none, "canceled", "canceled() is %d with %d holders", src->canceled(), kept.load());
        VF_CHECK(!none || gone.count() == 1, "not_cancelled", "captured objects are still alive after the last future was released");
        VF_CHECK(none || gone.count() == 0, "cancelled", "a detached task was destroyed");
        if (!none) (*src)();
    }
    if (kept) done.wait(threads);
    gone.wait(1);
    if (kept)
        for (int i = 0; i <= chain; ++i)
            VF_CHECK(ran[static_cast<std::size_t>(i)] == 1, "cancelled", "task %d of a chain held by %d threads ran %d times", i,
                     kept.load(), ran[static_cast<std::size_t>(i)].load());
    VF_CHECK(!(cancelled && ran[0]), "ran_cancelled", "a task ran after canceled() was reported");
    std::uint64_t pat = 0;
    for (int i = 0; i <= chain; ++i) {
        const int n = ran[static_cast<std::size_t>(i)];
        VF_CHECK(n <= 1, "ran_twice", "task %d ran %d times", i, n);
        VF_CHECK(i == 0 || !n || ran[static_cast<std::size_t>(i - 1)], "ran_early", "task %d ran without its antecedent", i);
        pat = pat * 2 + static_cast<unsigned>(n);
    }
    event(static_cast<std::uint64_t>(threads));
    c.nontrivial = true;
    c.see(mix(pat, mix(static_cast<std::uint64_t>(threads * 100 + chain * 10 + kept), never)));
    c.note = std::to_string(threads) + " holders, " + std::to_string(kept.load()) + " kept it, chain " + std::to_string(chain) +
             (never ? ", never invoked" : "") + ", pattern of what ran " + std::to_string(pat);
}
} // namespace

#if VF_PART == 0
VF_SCENARIO(model_copyable, 8000, 150000) { model<cval>{c}.run(); }
VF_SCENARIO(race_copyable, 700, 12000) { release_race<cval>(c); }
#elif VF_PART == 1
VF_SCENARIO(model_move_only, 6000, 100000) { model<mval>{c}.run(); }
VF_SCENARIO(race_move_only, 600, 10000) { release_race<mval>(c); }
#else
VF_SCENARIO(model_void, 6000, 100000) { model<void>{c}.run(); }
VF_SCENARIO(race_void, 600, 10000) { release_race<void>(c); }
#endif
