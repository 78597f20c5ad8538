// Source processes: attached to a channel<void> they yield without awaiting anything.
#pragma once
#include "vf_chan.hpp"

namespace vf {

struct source_step {
    bool throws;
    long us; // < 0: immediately
};

struct source_error {
    std::size_t i;
};

struct source_data {
    std::vector<source_step> steps; // then await_forever
    std::size_t at = 0;
    mutable std::uint64_t asked = 0;
    mutable bool armed = false;
    std::atomic<int> busy{0};
    std::atomic<bool> gone{false};
};

struct source_process {
    source_data* d;
    std::shared_ptr<void> life;

    struct guard {
        source_data* d;
        explicit guard(source_data* x) : d(x) {
            if (d->busy.exchange(1, std::memory_order_relaxed)) fail("concurrent_process", "a source is run concurrently");
            if (d->gone) fail("run_after_release", "a source runs after it was destroyed");
            event();
        }
        ~guard() { d->busy.store(0, std::memory_order_relaxed); }
    };
    std::size_t yield() {
        guard g(d);
        const auto now = now_ns();
        if (d->at >= d->steps.size()) fail("unasked_yield", "a source that awaits is yielded");
        const auto& s = d->steps[d->at];
        if (s.us >= 0) {
            if (!d->armed) fail("unasked_yield", "a source is yielded before it was asked for its state");
            if (now < d->asked + static_cast<std::uint64_t>(s.us) * 1000)
                fail("early_yield", "a source is yielded after %llu us instead of %ld us", (unsigned long long)(now - d->asked) / 1000, s.us);
        }
        d->armed = false;
        perturb();
        const auto i = d->at++;
        if (s.throws) throw source_error{i};
        return i;
    }
    stlab::process_state_scheduled state() const {
        guard g(d);
        if (d->at >= d->steps.size()) return stlab::await_forever;
        const auto& s = d->steps[d->at];
        if (s.us < 0) return stlab::yield_immediate;
        if (!d->armed) {
            d->armed = true;
            d->asked = now_ns();
        }
        return {stlab::process_state::yield, std::chrono::microseconds(s.us)};
    }
};

struct source_log {
    const source_data* d;
    std::size_t n = 0;
    gate g;
    bool stuck = false;
    std::atomic<int> busy{0};

    void take(std::size_t i, bool error) {
        if (busy.exchange(1, std::memory_order_relaxed)) fail("concurrent_process", "a consumer is run concurrently");
        event();
        if (i != n) fail("value_lost_or_reordered", "yield %zu of a source arrives after %zu others", i, n);
        if (i >= d->steps.size()) fail("value_made_up", "there is no yield %zu", i);
        if (error != d->steps[i].throws) fail(error ? "error_made_up" : "error_lost", "yield %zu did%s throw", i, error ? " not" : "");
        ++n;
        busy.store(0, std::memory_order_relaxed);
        perturb();
        g.add();
    }
};

struct source_consumer {
    source_log* l;
    std::shared_ptr<void> life;
    bool have = false;
    void await(std::size_t i) {
        l->take(i, false);
        have = true;
    }
    void set_error(std::exception_ptr e) {
        try {
            std::rethrow_exception(e);
        } catch (const source_error& x) {
            l->take(x.i, true);
        } catch (...) {
            fail("wrong_error", "a consumer is given another exception");
        }
    }
    int yield() {
        have = false;
        return 0;
    }
    stlab::process_state_scheduled state() const { return have ? stlab::yield_immediate : stlab::await_forever; }
};

// The yields of a source arrive once, in order, in time, and not after its handles are released.
inline void run_source(ctx& c, int timed, int throwing) {
    using stlab::operator&;
    static const int execs[] = {0, 1, 2, 4, 5, 6, 3};
    const auto some_exec = [&] { return make_exec(execs[c.r.below(7)], 1); };
    perturb_level(static_cast<int>(c.r.below(4)));
    c.nontrivial = true;
    source_data d;
    gate gone;
    const int n = c.r.range(1, timed ? 12 : 40);
    for (int i = 0; i < n; ++i) {
        d.steps.push_back({static_cast<bool>(c.r.chance(throwing)), c.r.chance(timed) ? c.r.range(0, 700) : -1});
        c.see(static_cast<std::uint64_t>(d.steps.back().us + 1) * 2 + d.steps.back().throws);
    }
    const bool early = c.r.chance(25); // released before it ends
    const int consumers = c.r.chance(70) ? 1 : c.r.range(2, 3);
    int lives = 0;
    std::vector<std::unique_ptr<source_log>> logs;
    {
        const auto life = [&] {
            ++lives;
            return std::shared_ptr<void>(&gone, [](void* p) { static_cast<gate*>(p)->add(); });
        };
        const auto source_life = [&] {
            ++lives;
            return std::shared_ptr<void>(&gone, [&d](void* p) {
                d.gone = true;
                static_cast<gate*>(p)->add();
            });
        };
        stlab::receiver<void> r = stlab::channel<void>(some_exec());
        std::optional<stlab::receiver<std::size_t>> p;
        if (c.r.chance(50))
            p = r | source_process{&d, source_life()};
        else
            p = r | (stlab::executor{some_exec()} & source_process{&d, source_life()});
        std::vector<stlab::receiver<int>> t;
        std::vector<stlab::receiver<void>> tv;
        for (int i = 0; i < consumers; ++i) {
            logs.push_back(std::make_unique<source_log>());
            logs.back()->d = &d;
            auto* l = logs.back().get();
            const auto b = stlab::buffer_size{static_cast<std::size_t>(c.r.range(0, 4))};
            if (throwing || c.r.chance(50)) {
                if (c.r.chance(50))
                    t.push_back(*p | (b & source_consumer{l, life()}));
                else
                    t.push_back(*p | (stlab::executor{some_exec()} & b & source_consumer{l, life()}));
            } else if (c.r.chance(50))
                tv.push_back(*p | (b & [l, x = life()](std::size_t i) { l->take(i, false); }));
            else
                tv.push_back(*p | (stlab::executor{some_exec()} & b & [l, x = life()](std::size_t i) { l->take(i, false); }));
        }
        std::vector<std::function<void()>> ready;
        for (auto& x : t) ready.push_back([&x] { x.set_ready(); });
        ready.push_back([&] { p->set_ready(); });
        if (c.r.chance(80)) ready.push_back([&] { r.set_ready(); });
        c.r.shuffle(ready);
        for (auto& f : ready) f();
        const int until = early ? c.r.range(0, n) : n;
        for (auto& l : logs) l->g.wait(until);
        if (early && c.r.chance(50)) spin_us(c.r.range(0, 300));
        std::vector<std::function<void()>> release;
        for (auto& x : t) release.push_back([&x] { x = {}; });
        for (auto& x : tv) release.push_back([&x] { x = {}; });
        release.push_back([&] { p.reset(); });
        release.push_back([&] { r = {}; });
        c.r.shuffle(release);
        for (auto& f : release) f();
        gone.wait(lives);
    }
    for (auto& l : logs) {
        if (!early && l->n != static_cast<std::size_t>(n)) fail("value_lost", "%zu of %d yields arrived", l->n, n);
        c.see(l->n);
    }
    perturb_level(0);
}

} // namespace vf
