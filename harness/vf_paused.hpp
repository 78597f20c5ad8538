// A thread is preempted in the middle of an operation on a handle while values flow.
#pragma once
#include "vf_chan.hpp"

namespace vf {

struct paused_state {
    int work = 0; // us per value
    std::atomic<int> busy{0};
    std::atomic<long> closes{0};
    std::atomic<bool> ready{false}; // the operation that may start the process was begun
    std::vector<long> next;         // per sender
    long seen = 0;
    void enter(const char* what) {
        if (busy.exchange(1, std::memory_order_relaxed)) fail("concurrent_process", "%s is run concurrently with itself", what);
        event();
    }
    void leave() { busy.store(0, std::memory_order_relaxed); }
    void see(long x) {
        const auto s = static_cast<std::size_t>(x / 1000);
        if (s >= next.size()) fail("value_made_up", "value %ld was not sent", x);
        if (x % 1000 != next[s]) fail("value_lost_or_reordered", "value %ld of sender %zu arrives when %ld is due", x % 1000, s, next[s]);
        ++next[s];
        ++seen;
    }
    void toil() {
        if (work) spin_us(work);
    }
};

// passes on what it gets
struct paused_process {
    paused_state* d;
    std::shared_ptr<void> life;
    std::optional<long> held;
    void await(long x) {
        d->enter("a process");
        if (!d->ready) fail("run_before_ready", "a process runs before its receiver is ready");
        d->see(x);
        held = x;
        d->toil();
        d->leave();
    }
    long yield() {
        d->enter("a process");
        const auto x = *held;
        held.reset();
        d->leave();
        return x;
    }
    void close() {
        d->enter("a process");
        ++d->closes;
        d->leave();
    }
    stlab::process_state_scheduled state() const { return held ? stlab::yield_immediate : stlab::await_forever; }
};

inline void no_pause() {
    pause_at(0, 0);
    pause_at_edge(0, 0);
}

inline void run_paused(ctx& c) {
    using stlab::operator&;
    static const int execs[] = {0, 1, 2, 4, 5, 6, 3};
    const auto some_exec = [&] { return make_exec(execs[c.r.below(7)], 1); };
    perturb_level(static_cast<int>(c.r.below(3)));
    c.nontrivial = true;
    static const int works[] = {0, 0, 20, 60, 200};
    const int senders = c.r.range(1, 3);
    const int values = c.r.range(2, 25);
    const int consumers = c.r.range(1, 2);
    const bool function = c.r.chance(40);
    const bool release_one = consumers == 2 && c.r.chance(50);
    gate gone;
    int lives = 0;
    std::vector<std::unique_ptr<paused_state>> ds;
    const auto data = [&] {
        ds.push_back(std::make_unique<paused_state>());
        ds.back()->work = works[c.r.below(5)];
        ds.back()->next.assign(static_cast<std::size_t>(senders), 0);
        return ds.back().get();
    };
    const auto life = [&] {
        ++lives;
        return std::shared_ptr<void>(&gone, [](void* p) { static_cast<gate*>(p)->add(); });
    };
    const auto pause = [](rng& r, int ops) {
        if (r.chance(50))
            pause_at(r.range(1, ops), r.range(100, 1500));
        else
            pause_at_edge(r.range(1, 25 * ops), r.range(100, 1500));
    };
    auto* d = data();
    gate got[2];
    {
        auto [first, r] = stlab::channel<long>(some_exec());
        stlab::receiver<long> p;
        const auto b = stlab::buffer_size{static_cast<std::size_t>(c.r.range(0, 4))};
        if (function)
            p = r | (stlab::executor{some_exec()} & b & [d, x = life()](long v) {
                    d->enter("a function");
                    if (!d->ready) fail("run_before_ready", "a function runs before its receiver is ready");
                    d->see(v);
                    d->toil();
                    d->leave();
                    return v;
                });
        else
            p = r | (stlab::executor{some_exec()} & b & paused_process{d, life(), {}});
        std::vector<stlab::receiver<void>> ends;
        for (int i = 0; i < consumers; ++i) {
            auto* e = data();
            ends.push_back(p | (stlab::executor{some_exec()} & stlab::buffer_size{static_cast<std::size_t>(c.r.range(0, 3))} &
                                [e, g = &got[i], x = life()](long v) {
                                    e->enter("a consumer");
                                    e->see(v);
                                    e->toil();
                                    e->leave();
                                    g->add();
                                }));
        }
        // the senders
        std::vector<stlab::sender<long>> ss;
        for (int i = 1; i < senders; ++i) ss.push_back(first);
        ss.push_back(std::move(first));
        start_line go(senders + 1);
        std::vector<std::thread> ts;
        for (int i = 0; i < senders; ++i)
            ts.emplace_back([&, i, s = std::move(ss[static_cast<std::size_t>(i)]), rr = rng(c.r.next())]() mutable {
                const int gap = rr.range(0, 80);
                go.arrive();
                for (int k = 0; k < values; ++k) {
                    if (rr.chance(10)) pause(rr, 3);
                    s(i * 1000L + k);
                    no_pause();
                    if (gap) spin_us(static_cast<int>(rr.below(static_cast<std::uint64_t>(gap))));
                }
                pause(rr, 4);
                s = {};
                no_pause();
            });
        go.arrive();
        // the receivers, either first
        const auto ready = [&](bool process) {
            if (c.r.chance(70)) spin_us(c.r.range(0, 300));
            if (process) d->ready = true;
            pause(c.r, process ? 3 : 4);
            if (process)
                p.set_ready();
            else
                r.set_ready();
            no_pause();
        };
        const bool order = c.r.chance(50);
        const bool by_release = c.r.chance(25);
        ready(order);
        if (by_release && order) {
            pause(c.r, 4); // the channel's own receiver is as good released as ready
            r = {};
            no_pause();
        } else
            ready(!order);
        if (release_one) {
            spin_us(c.r.range(0, 1000));
            pause(c.r, 4);
            ends[1] = {};
            no_pause();
        }
        const long total = static_cast<long>(senders) * values;
        got[0].wait(total);
        if (consumers == 2 && !release_one) got[1].wait(total);
        for (auto& t : ts) t.join();
        if (c.r.chance(50)) {
            for (auto& e : ends) {
                pause(c.r, 4);
                e = {};
                no_pause();
            }
            pause(c.r, 4);
            p = {};
            no_pause();
            r = {};
        } else {
            // all ends by itself, from the senders on
            gone.wait(lives);
            if (!function && d->closes != 1) fail("close_count", "a process was closed %ld times", d->closes.load());
        }
    }
    gone.wait(lives);
    c.see(static_cast<std::uint64_t>(senders * 100 + values));
    for (auto& x : ds) c.see(static_cast<std::uint64_t>(x->seen * 1000 + x->work));
    if (d->closes > 1) fail("close_count", "a process was closed %ld times", d->closes.load());
    perturb_level(0);
}

} // namespace vf
