// E03: serial queues run one task at a time, in order, each exactly once.
#include "vf_fut.hpp"
using namespace vf;
using namespace stlab;

namespace {
schedule_mode mode_of(rng& r) { return r.chance(50) ? schedule_mode::single : schedule_mode::all; }
struct clear {
    std::atomic<int>& i;
    ~clear() { i.store(0, std::memory_order_relaxed); }
};
using serial_exec = decltype(std::declval<serial_queue_t>().executor());
} // namespace

// single threaded: a model knows the order, every step of the executor is chosen by the seed
VF_SCENARIO(model, 6000, 40000) {
    perturb_level(0);
    std::size_t before = 0;
    for (int round = 0; round < 7; ++round) {
        rng r(c.id);
        if (round) before = live_bytes();
        {
            manual_queue ex;
            auto live = std::make_shared<std::atomic<long>>(0);
            struct sq {
                schedule_mode mode;
                std::vector<serial_queue_t> handles;
                std::vector<serial_exec> execs;
                std::deque<int> want; // submitted, not yet started
                bool running = false;
            };
            std::vector<sq> qs;
            std::vector<future<int>> fs;
            int next = 0, ran = 0, in_step = 0;
            std::function<void(std::size_t, int)> put;
            const int n = r.range(1, 3);
            for (int i = 0; i < n; ++i) {
                sq s{mode_of(r), {}, {}, {}, false};
                s.handles.emplace_back(ex.executor(), s.mode);
                qs.push_back(std::move(s));
            }
            // what task `id` of queue q does
            auto body = [&](std::size_t q, int id, int depth) {
                auto& s = qs[q];
                event();
                VF_CHECK(!s.running, "overlap", "task %d of a serial queue started inside another one", id);
                s.running = true;
                VF_CHECK(!s.want.empty() && s.want.front() == id, "order", "task %d started where %d was due", id,
                         s.want.empty() ? -1 : s.want.front());
                s.want.pop_front();
                ++ran;
                ++in_step;
                c.see(q * 100000 + static_cast<std::uint64_t>(id));
                VF_CHECK(s.mode == schedule_mode::all || in_step == 1, "single",
                         "a queue in single mode ran %d tasks in one turn", in_step);
                if (depth > 0)
                    for (int k = r.range(0, 2); k > 0; --k) put(r.chance(70) ? q : r.below(qs.size()), depth - 1);
                if (r.chance(10) && !s.handles.empty()) s.handles.pop_back();
                s.running = false;
            };
            put = [&](std::size_t q, int depth) {
                auto& s = qs[q];
                if (s.handles.empty() && s.execs.empty()) return;
                const int id = next++;
                s.want.push_back(id);
                token t(live);
                const bool use_exec = s.handles.empty() || (!s.execs.empty() && r.chance(50));
                if (use_exec && r.chance(80)) {
                    auto e = r.pick(s.execs);
                    e([&, q, id, depth, t]() noexcept { body(q, id, depth); });
                } else if (use_exec) {
                    auto e = r.pick(s.execs);
                    fs.push_back(async(e, [&, q, id, depth, t] {
                        body(q, id, depth);
                        return id;
                    }));
                } else {
                    auto h = r.pick(s.handles);
                    fs.push_back(h([&, q, depth, t](int i) {
                        body(q, i, depth);
                        if (i % 7 == 3) throw err{static_cast<std::uint64_t>(i)};
                        return i;
                    }, id));
                }
            };
            auto step = [&] {
                in_step = 0;
                return ex.step(r);
            };
            for (int k = r.range(5, 60); k > 0; --k) {
                const auto q = r.below(qs.size());
                auto& s = qs[q];
                switch (r.below(10)) {
                case 0:
                    if (!s.handles.empty()) {
                        auto h = s.handles.back();
                        s.handles.push_back(h);
                    }
                    break;
                case 1:
                    if (!s.handles.empty()) s.execs.push_back(s.handles.back().executor());
                    break;
                case 2:
                    if (!s.handles.empty()) s.handles.pop_back();
                    break;
                case 3:
                    if (!s.execs.empty()) s.execs.pop_back();
                    break;
                case 4:
                case 5:
                case 6: step(); break;
                default: put(q, r.range(0, 2));
                }
            }
            while (step()) {}
            for (auto& s : qs) VF_CHECK(s.want.empty(), "lost", "%zu tasks never ran", s.want.size());
            VF_CHECK(ran == next, "runs", "%d of %d tasks ran", ran, next);
            for (auto& f : fs) {
                VF_CHECK(f.is_ready(), "future", "the future of a task that ran is not ready");
                f.reset();
            }
            VF_CHECK(live->load() == 0, "live", "%ld callables are still alive after all tasks ran", live->load());
            c.nontrivial = ran > 2;
            c.see(static_cast<std::uint64_t>(ran));
            c.see(static_cast<std::uint64_t>(qs.size() * 2) + (qs[0].mode == schedule_mode::all));
            c.note = std::to_string(qs.size()) + " queues, " + std::to_string(ran) + " tasks";
        }
        // what is left is left every time
        if (round) {
            const long left = (long)(live_bytes() - before);
            if (left <= 0) break;
            VF_CHECK(round < 6, "leak", "%ld bytes are left, each time", left);
            std::this_thread::sleep_for(std::chrono::milliseconds(5 << round));
        }
    }
}

// many threads, several queues
// more waiting tasks than small counters hold
VF_SCENARIO(many, 2, 40) {
    perturb_level(0);
    const int n = c.r.range(66000, 80000);
    serial_queue_t q(make_exec(static_cast<int>(c.r.below(3)), 0), mode_of(c.r));
    gate open, done;
    int next = 0;
    q.executor()([&]() noexcept { open.wait(1); });
    const bool late = c.r.chance(50);
    for (int i = 0; i < n; ++i) {
        if (late && i == n / 2) open.add();
        q.executor()([&, i]() noexcept {
            if (next != i) fail("order", "task %d of %d is started when %d is due", i, n, next);
            ++next;
            if ((i & 1023) == 0) event();
            if (i == n - 1) done.add();
        });
    }
    if (!late) open.add();
    done.wait(1);
    c.nontrivial = true;
    c.see(static_cast<std::uint64_t>(n));
}
VF_SCENARIO(threads, 700, 6000) {
    perturb_level(static_cast<int>(c.r.below(4)));
    struct qstate {
        std::atomic<int> inside{0};
        long plain = 0; // unprotected on purpose: the queue must order the accesses
        long runs = 0;
        std::map<int, int> last; // submitter -> sequence
        std::map<int, int> self; // tasks submitted by tasks of the queue
        long expected = 0;
        int self_next = 0, self_last = -1;
    };
    const int nq = c.r.range(1, 3), nt = c.r.range(1, 5), per = c.r.range(1, 60);
    gate done, gone;
    struct obj {
        gate* g;
        explicit obj(gate* x) : g(x) {}
        obj(obj&& x) noexcept : g(std::exchange(x.g, nullptr)) {}
        ~obj() {
            if (g) g->add();
        }
    };
    std::deque<qstate> st(static_cast<std::size_t>(nq));
    std::vector<serial_queue_t> qs;
    int kinds[3], modes[3];
    for (int i = 0; i < nq; ++i) {
        kinds[i] = static_cast<int>(c.r.below(exec_kinds));
        const auto m = mode_of(c.r);
        modes[i] = m == schedule_mode::all;
        qs.emplace_back(make_exec(kinds[i], i), m);
    }
    const int self_rate = c.r.chance(40) ? 30 : 0, spin = c.r.chance(30) ? c.r.range(1, 30) : 0;
    std::atomic<long> total{0};
    auto enter = [&](qstate& s, int i) {
        VF_CHECK(s.inside.exchange(1, std::memory_order_relaxed) == 0, "overlap", "two tasks of one serial queue overlap");
        VF_CHECK(t_exec == i, "executor", "a task of a queue runs in executor %d instead of %d", t_exec, i);
        event();
        ++s.plain;
        ++s.runs;
    };
    auto leave = [&](qstate& s) {
        ++s.plain;
        s.inside.store(0, std::memory_order_relaxed);
        done.add();
    };
    start_line go(nt);
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t)
        ts.emplace_back([&, t, mine = qs, r = rng(c.r.next())]() mutable {
            std::map<int, int> seq;
            go.arrive();
            for (int k = 0; k < per; ++k) {
                const int q = static_cast<int>(r.below(static_cast<std::uint64_t>(nq)));
                auto& s = st[static_cast<std::size_t>(q)];
                const int n = seq[q]++;
                ++total;
                const bool more = r.chance(self_rate);
                auto work = [&, q, n, t, more, o = obj(&gone), h = more ? std::optional<serial_queue_t>(mine[static_cast<std::size_t>(q)]) : std::nullopt]() mutable noexcept {
                    enter(s, q);
                    auto [it, fresh] = s.last.insert({t, n});
                    VF_CHECK(fresh ? n == 0 : it->second + 1 == n, "order", "task %d of thread %d started after task %d", n, t,
                             fresh ? -1 : it->second);
                    it->second = n;
                    if (spin) spin_us(spin);
                    if (more) {
                        ++total;
                        const int x = s.self_next++;
                        h->executor()([&, x, q, o = obj(&gone)]() mutable noexcept {
                            enter(s, q);
                            VF_CHECK(s.self_last + 1 == x, "order", "task %d submitted by the queue itself started after %d", x,
                                     s.self_last);
                            s.self_last = x;
                            leave(s);
                        });
                    }
                    leave(s);
                };
                auto& h = mine[static_cast<std::size_t>(q)];
                switch (r.below(3)) {
                case 0: h.executor()(std::move(work)); break;
                case 1: {
                    auto copy = h;
                    copy.executor()(std::move(work));
                    break;
                }
                default: async(h.executor(), std::move(work)).detach();
                }
            }
        });
    qs.clear();
    for (auto& t : ts) t.join();
    done.wait(total.load()); // more may be added by tasks, which were counted before these were done
    done.wait(total.load());
    gone.wait(total.load());
    long runs = 0;
    for (auto& s : st) {
        runs += s.runs;
        VF_CHECK(s.plain == 2 * s.runs, "visible", "an effect of a task was not seen by the next one");
    }
    VF_CHECK(runs == total.load(), "runs", "%ld runs of %ld tasks", runs, total.load());
    c.nontrivial = true;
    c.see(static_cast<std::uint64_t>(runs));
    for (int i = 0; i < nq; ++i) c.see(static_cast<std::uint64_t>(kinds[i] * 2 + modes[i]));
    c.note = std::to_string(nt) + " threads, " + std::to_string(nq) + " queues, " + std::to_string(runs) + " tasks";
}

// submissions ordered by happens-before across threads start in that order
VF_SCENARIO(baton, 500, 4000) {
    perturb_level(static_cast<int>(c.r.below(4)));
    const int nt = c.r.range(2, 4), n = c.r.range(4, 80);
    serial_queue_t q(make_exec(static_cast<int>(c.r.below(exec_kinds)), 0), mode_of(c.r));
    std::mutex m;
    std::condition_variable cv;
    int turn = 0, got = 0;
    std::vector<int> who;
    for (int i = 0; i < n; ++i) who.push_back(static_cast<int>(c.r.below(static_cast<std::uint64_t>(nt))));
    gate done;
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t)
        ts.emplace_back([&, t] {
            for (int i = 0; i < n; ++i) {
                if (who[static_cast<std::size_t>(i)] != t) continue;
                {
                    quiet qq;
                    std::unique_lock<std::mutex> l(m);
                    cv.wait(l, [&] { return turn == i; });
                }
                q.executor()([&, i]() noexcept {
                    event();
                    VF_CHECK(got == i, "order", "task %d started where %d was due", i, got);
                    ++got;
                    done.add();
                });
                {
                    quiet qq;
                    std::lock_guard<std::mutex> l(m);
                    turn = i + 1;
                    cv.notify_all();
                }
            }
        });
    for (auto& t : ts) t.join();
    done.wait(n);
    c.nontrivial = true;
    for (int w : who) c.see(static_cast<std::uint64_t>(w));
}

// futures on a serial queue: cancelled tasks do not disturb the others, results and continuations are right
VF_SCENARIO(chains, 700, 4000) {
    perturb_level(static_cast<int>(c.r.below(4)));
    const int n = c.r.range(1, 40);
    serial_queue_t q(make_exec(static_cast<int>(c.r.below(exec_kinds)), 0), mode_of(c.r));
    std::atomic<int> inside{0};
    int plain = 0;
    gate done;
    int kept = 0, last = -1;
    std::vector<future<int>> fs;
    auto guard = [&](auto f) {
        return [&, f](auto... x) {
            VF_CHECK(inside.exchange(1, std::memory_order_relaxed) == 0, "overlap", "two tasks of one serial queue overlap");
            ++plain;
            event();
            clear o{inside};
            return f(std::move(x)...);
        };
    };
    for (int i = 0; i < n; ++i) {
        auto body = [&, i](int x) {
            VF_CHECK(last < i, "order", "task %d started after %d", i, last);
            last = i;
            if (x % 5 == 4) throw err{static_cast<std::uint64_t>(x)};
            return x;
        };
        auto f = c.r.chance(50) ? q(guard(body), i) :
                                  q(guard([body](std::unique_ptr<int> x, std::string) { return body(*x); }), std::make_unique<int>(i), std::string(30, 'x'));
        if (c.r.chance(30)) continue; // released
        ++kept;
        fs.push_back(std::move(f)
                         .then(q.executor(), guard([](int x) { return x + 1; }))
                         .recover(q.executor(), guard([](future<int> f) {
                             if (f.exception()) return 0;
                             return *f.get_try();
                         })));
    }
    for (std::size_t i = 0; i < fs.size(); ++i) {
        const int v = await(std::move(fs[i]));
        c.see(static_cast<std::uint64_t>(v));
    }
    q.executor()([&]() noexcept { done.add(); });
    done.wait(1); // released tasks may have been running
    c.nontrivial = kept > 0;
}
