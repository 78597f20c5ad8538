// C09: timed processes yield no earlier than asked, and not at all once cancelled.
#include "vf_chan.hpp"
#include "vf_source.hpp"

using namespace vf;

#ifndef VF_PART
#define VF_PART 0
#endif

template <class T>
static void go(ctx& c, chan_opts o) {
    perturb_level(o.manual ? 0 : static_cast<int>(c.r.below(4)));
    {
        network<T> n(c, o);
        n.run();
    }
    perturb_level(0);
}
static void any(ctx& c, const chan_opts& o) {
    if (c.r.chance(60))
        go<cval>(c, o);
    else
        go<mval>(c, o);
}

#if VF_PART == 0
VF_SCENARIO(timed_networks, 500, 8000) {
    chan_opts o;
    o.nodes = c.r.range(1, 5);
    o.sources = 1;
    o.proc = 90;
    o.timed = c.r.range(60, 100);
    o.values = c.r.range(3, 25);
    o.split = c.r.range(0, 40);
    any(c, o);
}
#else
namespace {
// Awaits with a timeout; every event is logged with its time.
struct ev {
    char what; // a await, y yield, c close
    std::uint64_t t, v;
};
struct timed {
    struct data {
        std::vector<ev> log;
        std::vector<long> us; // timeouts to come, then await_forever
        std::size_t at = 0;
        mutable std::uint64_t asked = 0;
        mutable bool armed = false;
        bool yields = false; // {yield, t} instead of {await, t}
        bool per_value = false;
        int pend = 0;
        long timeouts = 0;
        gate g;
        std::mutex m;
        std::atomic<int> busy{0};
    };
    data* d;
    std::shared_ptr<void> life;

    struct guard {
        data* d;
        explicit guard(data* x) : d(x) {
            if (d->busy.exchange(1, std::memory_order_relaxed)) fail("concurrent_process", "a timed process is run concurrently");
            event();
        }
        ~guard() { d->busy.store(0, std::memory_order_relaxed); }
    };
    void await(cval v) {
        guard g(d);
        d->log.push_back({'a', now_ns(), v.get()});
        d->armed = false;
        if (d->per_value) ++d->pend;
        perturb();
    }
    cval yield() {
        guard g(d);
        const auto now = now_ns();
        d->log.push_back({'y', now, 0});
        if (d->per_value && d->pend && !d->yields) {
            // a value to pass on
            --d->pend;
            d->armed = false;
            return cval(1);
        }
        if (d->at >= d->us.size() || !d->armed) fail("unasked_yield", "the process was yielded without asking for it");
        if (now < d->asked + static_cast<std::uint64_t>(d->us[d->at]) * 1000)
            fail("early_yield", "yielded after %llu us instead of %ld us", (unsigned long long)(now - d->asked) / 1000, d->us[d->at]);
        ++d->at;
        ++d->timeouts;
        d->armed = false;
        if (d->yields && d->pend) --d->pend;
        d->g.add();
        return cval(2);
    }
    stlab::process_state_scheduled state() const {
        guard g(d);
        if (d->per_value && d->pend && !d->yields) return stlab::yield_immediate;
        if (d->at >= d->us.size() || (d->yields && !d->pend)) return stlab::await_forever;
        if (!d->armed) {
            d->armed = true;
            d->asked = now_ns();
        }
        return {d->yields ? stlab::process_state::yield : stlab::process_state::await, std::chrono::microseconds(d->us[d->at])};
    }
    void close() {
        guard g(d);
        d->log.push_back({'c', now_ns(), 0});
        d->armed = false;
        d->at = d->us.size();
    }
};
} // namespace

static executor_t some_exec(ctx& c) {
    static const int k[] = {0, 1, 2, 4, 5, 6, 3};
    return make_exec(k[c.r.below(7)], 1);
}

// a value, then nothing arrives: one yield after each timeout. (A timeout that yielded is not started again before
// the next value.)
VF_SCENARIO(timeouts, 300, 5000) {
    perturb_level(static_cast<int>(c.r.below(3)));
    c.nontrivial = true;
    timed::data d;
    gate gone;
    const int n = c.r.range(1, 6);
    for (int i = 0; i < n; ++i) d.us.push_back(c.r.range(0, 900));
    {
        auto [s, r] = stlab::channel<cval>(some_exec(c));
        auto life = std::shared_ptr<void>(&gone, [](void* p) { static_cast<gate*>(p)->add(); });
        long sunk = 0;
        gate sink;
        auto p = r | timed{&d, life};
        stlab::receiver<void> t = p | [&sunk, &sink](cval v) {
            event();
            if (v.get() != 2) fail("wrong_value", "a value nobody yielded");
            ++sunk;
            sink.add();
        };
        life.reset();
        p.set_ready();
        r.set_ready();
        for (int i = 0; i < n; ++i) {
            s(cval(static_cast<std::uint64_t>(i + 1)));
            sink.wait(i + 1);
            if (c.r.chance(30)) spin_us(c.r.range(0, 200));
        }
        if (d.timeouts != n) fail("extra_yield", "%ld yields for %d timeouts", d.timeouts, n);
        s.close();
        gone.wait(1);
        if (d.log.empty() || d.log.back().what != 'c') fail("not_closed", "the process was not closed last");
        c.see(static_cast<std::uint64_t>(n));
        for (auto u : d.us) c.see(static_cast<std::uint64_t>(u));
    }
    perturb_level(0);
}

// values that arrive long before the timeout are awaited at once and cancel it
VF_SCENARIO(cancelled, 300, 5000) {
    perturb_level(static_cast<int>(c.r.below(3)));
    c.nontrivial = true;
    timed::data d;
    gate gone;
    d.us = {30000000}; // far in the future
    d.per_value = c.r.chance(50);
    {
        auto [s, r] = stlab::channel<cval>(some_exec(c));
        auto life = std::shared_ptr<void>(&gone, [](void* p) { static_cast<gate*>(p)->add(); });
        auto p = r | timed{&d, life};
        life.reset();
        p.set_ready();
        r.set_ready();
        const int n = c.r.range(1, 12);
        const auto t0 = now_ns();
        for (int i = 0; i < n; ++i) {
            s(cval(static_cast<std::uint64_t>(i + 1)));
            if (c.r.chance(50)) spin_us(c.r.range(0, 300));
            if (c.r.chance(20)) perturb();
        }
        // the timeout delays neither values nor, once it is gone, closing
        const bool polite = c.r.chance(50);
        (void)polite;
        const auto wait = [&] {
            for (;;) {
                stlab::sender<cval> probe(s);
                if (probe.free_buffer().value_or(0) == 1) break;
                std::this_thread::yield();
                if (now_ns() - t0 > 15000000000ull)
                    fail("late_await", "a value was not awaited 15 s after it arrived (the timeout is 30 s)");
            }
        };
        wait();
        c.see(static_cast<std::uint64_t>(n));
        // releasing the last handle ends it, the timer finds nothing
        p = stlab::receiver<cval>();
        s.close();
        r = stlab::receiver<cval>();
        gone.wait(1);
        std::vector<std::uint64_t> got;
        for (auto& e : d.log) {
            if (e.what == 'a') got.push_back(e.v);
            if (e.what == 'y' && !d.per_value) fail("unasked_yield", "a timeout that was cancelled yields");
        }
        for (std::size_t i = 0; i < got.size(); ++i)
            if (got[i] != i + 1) fail("value_lost_or_reordered", "value %zu is %llu", i, (unsigned long long)got[i]);
        if (now_ns() - t0 > 20000000000ull) fail("late_await", "it took longer than 20 s");
    }
    perturb_level(0);
}

// values arrive around the timeout: all are awaited, in order, and each timeout yields once, or not
VF_SCENARIO(around, 300, 5000) {
    perturb_level(static_cast<int>(c.r.below(4)));
    c.nontrivial = true;
    timed::data d;
    gate gone;
    const int n = c.r.range(2, 12);
    const int us = c.r.range(100, 600);
    for (int i = 0; i < 3 * n; ++i) d.us.push_back(us);
    d.per_value = c.r.chance(50);
    d.yields = d.per_value && c.r.chance(50);
    {
        auto [s, r] = stlab::channel<cval>(some_exec(c));
        auto life = std::shared_ptr<void>(&gone, [](void* p) { static_cast<gate*>(p)->add(); });
        auto p = r | timed{&d, life};
        life.reset();
        p.set_ready();
        r.set_ready();
        for (int i = 0; i < n; ++i) {
            s(cval(static_cast<std::uint64_t>(i + 1)));
            spin_us(c.r.chance(30) ? c.r.range(0, 50) : us + c.r.range(-60, 60));
        }
        s.close();
        gone.wait(1);
        std::uint64_t k = 0;
        for (std::size_t i = 0; i < d.log.size(); ++i) {
            const auto& e = d.log[i];
            c.see(static_cast<std::uint64_t>(e.what));
            if (e.what == 'a' && e.v != ++k)
                fail("value_lost_or_reordered", "value %llu was awaited after %llu", (unsigned long long)e.v, (unsigned long long)(k - 1));
            if (e.what == 'c' && k != static_cast<std::uint64_t>(n)) fail("value_lost", "closed after %llu of %d values", (unsigned long long)k, n);
            c.note += e.what;
        }
        if (k != static_cast<std::uint64_t>(n)) fail("value_lost", "%llu of %d values were awaited", (unsigned long long)k, n);
        if (d.per_value && !d.yields) {
            long y = 0;
            for (auto& e : d.log) y += e.what == 'y';
            if (y != d.timeouts + n) fail("yields", "%ld yields for %d values and %ld timeouts", y, n, d.timeouts);
        }
    }
    perturb_level(0);
}

// processes that yield without awaiting anything
VF_SCENARIO(sources, 300, 5000) { run_source(c, c.r.range(30, 100), 0); }
#endif
