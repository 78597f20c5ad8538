// More values than small counters hold go through short pipelines and joins.
#pragma once
#include "vf_chan.hpp"

namespace vf {

struct long_process {
    gate* gone;
    std::atomic<long>* closes;
    std::deque<long> q;
    long next = 0;
    void await(long x) {
        if (x != next) fail("value_lost_or_reordered", "a process gets %ld when %ld is due", x, next);
        ++next;
        q.push_back(x);
    }
    long yield() {
        const auto x = q.front();
        q.pop_front();
        return x;
    }
    void close() { closes->fetch_add(1); }
    stlab::process_state_scheduled state() const { return q.size() > 0 ? stlab::yield_immediate : stlab::await_forever; }
};

inline void run_long(ctx& c, bool join) {
    using stlab::operator&;
    perturb_level(0);
    const long n = c.r.range(66000, 72000);
    auto some_exec = [&] { return make_exec(static_cast<int>(c.r.below(3)), 0); };
    const bool early = c.r.chance(50); // all are sent before anything runs
    std::atomic<long> closes{0};
    gate done, gone;
    long next = 0;
    const auto arrive = [&](long x, long due) {
        if (x != due) fail("value_lost_or_reordered", "%ld arrives when %ld is due", x, due);
        if ((next & 1023) == 0) event();
    };
    std::shared_ptr<void> life(&gone, [](void* p) { static_cast<gate*>(p)->add(); });
    const auto b = stlab::buffer_size{static_cast<std::size_t>(c.r.range(0, 4))};
    if (!join) {
        auto [s, r] = stlab::channel<long>(some_exec());
        auto p = r | (stlab::executor{some_exec()} & [](long x) { return x; });
        auto q = p | (stlab::executor{some_exec()} & b & long_process{&gone, &closes, {}, 0});
        auto h = q | [&, life](long x) {
            arrive(x, next);
            ++next;
            if (next == n) done.add();
        };
        life.reset();
        const auto ready = [&, &r = r] { q.set_ready(), p.set_ready(), r.set_ready(); };
        if (!early) ready();
        for (long i = 0; i < n; ++i) s(i);
        s = {};
        if (early) ready();
        done.wait(1);
        gone.wait(1);
        if (next != n) fail("value_made_up", "%ld values of %ld arrive", next, n);
        if (closes != 1) fail("close_count", "the process is closed %ld times", closes.load());
        c.see(static_cast<std::uint64_t>(n * 2 + early));
    } else {
        auto [s1, r1] = stlab::channel<long>(some_exec());
        auto [s2, r2] = stlab::channel<long>(some_exec());
        const int kind = c.r.range(0, 2);
        long a = 0, z = 0;
        stlab::receiver<void> h;
        stlab::receiver<long> m;
        if (kind == 0) {
            m = stlab::zip_with(some_exec(), [](long x, long y) { return x == -y ? x : -1000000L; }, r1, r2);
        } else if (kind == 1)
            m = stlab::merge_channel<stlab::round_robin_t>(some_exec(), [](long x) { return x; }, r1, r2);
        else
            m = stlab::merge_channel<stlab::unordered_t>(some_exec(), [](long x) { return x; }, r1, r2);
        h = m | [&, life](long x) {
            if (kind == 0)
                arrive(x, next);
            else if (kind == 1)
                arrive(x, next % 2 ? -(next / 2) : next / 2);
            else if (x > 0) // the sign tells the input
                arrive(x - 1, a++);
            else
                arrive(-x - 1, z++);
            ++next;
            if (next == (kind == 0 ? n : 2 * n)) done.add();
        };
        life.reset();
        const auto ready = [&, &r1 = r1, &r2 = r2] { m.set_ready(), r1.set_ready(), r2.set_ready(); };
        if (!early) ready();
        const bool apart = c.r.chance(50);
        for (long i = 0; i < n; ++i) {
            s1(i + (kind == 2));
            if (!apart) s2(-i - (kind == 2));
        }
        if (apart)
            for (long i = 0; i < n; ++i) s2(-i - (kind == 2));
        s1 = {};
        s2 = {};
        if (early) ready();
        done.wait(1);
        gone.wait(1);
        if (next != (kind == 0 ? n : 2 * n)) fail("value_made_up", "%ld values arrive of %ld twice", next, n);
        c.see(static_cast<std::uint64_t>(n * 12 + kind * 4 + apart * 2 + early));
    }
    c.nontrivial = true;
}

} // namespace vf
