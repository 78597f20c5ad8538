// C06: back-pressure bounds what is in flight, and never stops a working pipeline.
#include "vf_chan.hpp"

using namespace vf;

#ifndef VF_PART
#define VF_PART 0
#endif

template <class T>
static void go(ctx& c, chan_opts o) {
    perturb_level(o.manual ? 0 : static_cast<int>(c.r.below(4)));
    {
        network<T> n(c, o);
        n.run();
    }
    perturb_level(0);
}
static void any(ctx& c, const chan_opts& o) {
    if (c.r.chance(60))
        go<cval>(c, o);
    else
        go<mval>(c, o);
}

#if VF_PART == 0
VF_SCENARIO(progress, 1200, 20000) {
    chan_opts o;
    o.nodes = c.r.range(2, 10);
    o.sources = c.r.range(1, 2);
    o.values = c.r.range(10, 60);
    o.split = c.r.range(0, 60);
    o.join = c.r.chance(40) ? 30 : 0;
    o.drop = c.r.chance(30) ? 30 : 0;
    o.bounded = c.r.chance(50) ? c.r.range(1, 4) : 0;
    o.late_ready = 0;
    any(c, o);
}

// A generator runs ahead of its consumers by what their buffers hold, and no further; with threads, the
// count of what was taken can lag behind by the value that each consumer is just taking.
namespace {
struct ahead_gen {
    std::function<cval()> f;
    cval yield() { return f(); }
    stlab::process_state_scheduled state() const { return stlab::yield_immediate; }
};
} // namespace
VF_SCENARIO(ahead, 500, 8000) {
    perturb_level(static_cast<int>(c.r.below(4)));
    c.nontrivial = true;
    struct cons {
        std::atomic<long> taken{0};
        long buffer = 1;
        std::uint64_t next = 0;
    };
    const int k = c.r.range(1, 3);
    const long want = c.r.range(10, 200);
    auto cs = std::make_shared<std::deque<cons>>();
    gate done;
    auto produced = std::make_shared<std::atomic<long>>(0);
    auto leaving = std::make_shared<std::atomic<bool>>(false); // consumers do not hold it back any more
    std::vector<stlab::receiver<void>> keep;
    {
        auto g = stlab::channel<void>(make_exec(c.r.chance(50) ? 0 : 4, 1));
        auto p = g | ahead_gen{[cs, produced, leaving] {
            const long n = produced->fetch_add(1) + 1;
            for (auto& x : *cs)
                if (x.buffer) {
                    const long t = x.taken.load();
                    if (n - t > x.buffer + 1 && !leaving->load())
                        fail("over_buffer", "%ld values are sent, %ld were taken, the buffer holds %ld", n, t, x.buffer);
                }
            perturb();
            event();
            return cval(static_cast<std::uint64_t>(n));
        }};
        for (int i = 0; i < k; ++i) {
            cs->emplace_back();
            auto& x = cs->back();
            x.buffer = c.r.range(1, 5);
            auto f = [cs, &x, want, &done, slow = c.r.range(0, 20)](cval v) {
                if (v.get() != x.taken.load(std::memory_order_relaxed) + 1u)
                    fail("value_lost_or_reordered", "value %llu follows %ld", (unsigned long long)v.get(), x.taken.load());
                const long t = x.taken.fetch_add(1) + 1;
                event();
                if (slow > 10) spin_us(slow - 10);
                if (t == want) done.add();
            };
            const auto b = stlab::buffer_size{static_cast<std::size_t>(x.buffer)};
            using stlab::operator&;
            keep.push_back(p | (b & stlab::executor{make_exec(static_cast<int>(c.r.below(exec_kinds)) == 3 ? 4 : 0, 2 + i)} & std::move(f)));
        }
        p.set_ready();
        g.set_ready();
    }
    done.wait(k);
    *leaving = true;
    keep.clear();
    c.see(static_cast<std::uint64_t>(produced->load()));
    // the generator may be in its last turn
    std::weak_ptr<std::deque<cons>> w = cs;
    cs.reset();
    while (!w.expired()) std::this_thread::yield();
    perturb_level(0);
}
#else
VF_SCENARIO(chosen, 3000, 50000) {
    chan_opts o;
    o.manual = true;
    o.nodes = c.r.range(2, 12);
    o.sources = c.r.range(1, 2);
    o.values = c.r.range(5, 40);
    o.split = c.r.range(0, 60);
    o.join = c.r.chance(40) ? 30 : 0;
    o.drop = c.r.chance(30) ? 30 : 0;
    o.bounded = c.r.chance(50) ? c.r.range(1, 4) : 0;
    o.fail = c.r.chance(20) ? 30 : 0;
    any(c, o);
}

// What is in flight is exactly what the buffers of the consumers allow: the producer always runs as far
// ahead of the slowest one as its buffer allows, and resumes whenever there is room.
namespace {
struct producer {
    long& left;
    long& out;
    void await(cval v) {
        v.get();
    }
    cval yield() {
        --left;
        event();
        return cval(static_cast<std::uint64_t>(++out));
    }
    stlab::process_state_scheduled state() const { return left > 0 ? stlab::yield_immediate : stlab::await_forever; }
};
struct generator {
    long& left;
    long& out;
    cval yield() {
        event();
        --left;
        return cval(static_cast<std::uint64_t>(++out));
    }
    stlab::process_state_scheduled state() const { return left > 0 ? stlab::yield_immediate : stlab::await_forever; }
};
struct count {
    long& taken;
    void operator()(cval v) {
        event();
        if (static_cast<long>(v.get()) != ++taken)
            fail("value_lost_or_reordered", "value %llu is number %ld", (unsigned long long)v.get(), taken);
    }
};
struct taker {
    long& taken;
    void await(cval v) {
        event();
        if (static_cast<long>(v.get()) != ++taken)
            fail("value_lost_or_reordered", "value %llu is number %ld", (unsigned long long)v.get(), taken);
    }
    cval yield() { return cval(1); }
    stlab::process_state_scheduled state() const { return stlab::await_forever; }
};
struct echo {
    long& taken;
    bool full = false;
    void await(cval v) {
        event();
        if (static_cast<long>(v.get()) != ++taken)
            fail("value_lost_or_reordered", "value %llu is number %ld", (unsigned long long)v.get(), taken);
        full = true;
    }
    cval yield() {
        full = false;
        return cval(static_cast<std::uint64_t>(taken));
    }
    stlab::process_state_scheduled state() const { return full ? stlab::yield_immediate : stlab::await_forever; }
};
} // namespace

VF_SCENARIO(exact, 4000, 60000) {
    c.nontrivial = true;
    struct cons {
        manual_queue q;
        long buffer = 1, taken = 0;
        bool gone = false;
        std::shared_ptr<stlab::receiver<void>> a;
        std::shared_ptr<stlab::receiver<cval>> b;
    };
    manual_queue pq;
    long out = 0, left = 0;
    const long total = c.r.range(1, 40);
    const int k = c.r.range(1, 4);
    std::deque<cons> cs;
    stlab::receiver<cval> p;
    stlab::sender<cval> s;
    const int how = static_cast<int>(c.r.below(3));
    stlab::receiver<void> g;
    stlab::receiver<cval> r;
    if (how == 0) {
        // a function for each value sent
        std::tie(s, r) = stlab::channel<cval>(pq.executor());
        p = r | (stlab::buffer_size{0} & [&](cval v) {
                ++out;
                event();
                return v;
            });
    } else if (how == 1) {
        // one value starts it
        std::tie(s, r) = stlab::channel<cval>(pq.executor());
        left = total;
        p = r | producer{left, out};
    } else {
        g = stlab::channel<void>(pq.executor());
        left = 1000000;
        p = g | generator{left, out};
    }
    for (int i = 0; i < k; ++i) {
        cs.emplace_back();
        auto& x = cs.back();
        static const long sizes[] = {0, 1, 1, 2, 3, 4, 7};
        x.buffer = sizes[c.r.below(how == 2 ? 1 : 7)];
        if (how == 2) x.buffer = c.r.range(1, 5);
        const auto b = stlab::buffer_size{static_cast<std::size_t>(x.buffer)};
        const auto e = stlab::executor{x.q.executor()};
        using stlab::operator&;
        const bool dflt = how != 2 && c.r.chance(20);
        if (dflt) x.buffer = 1;
        switch (c.r.below(dflt ? 1 : 8)) {
        case 0:
            if (dflt || x.buffer == 1)
                x.a = std::make_shared<stlab::receiver<void>>(p | (e & count{x.taken}));
            else
                x.a = std::make_shared<stlab::receiver<void>>(p | (e & b & count{x.taken}));
            break;
        case 1: x.a = std::make_shared<stlab::receiver<void>>(p | (b & e & count{x.taken})); break;
        case 2: x.a = std::make_shared<stlab::receiver<void>>(p | (e & count{x.taken} & b)); break;
        case 3: x.a = std::make_shared<stlab::receiver<void>>(p | (b & (e & count{x.taken}))); break;
        case 4: x.a = std::make_shared<stlab::receiver<void>>(p | (count{x.taken} & e & b)); break;
        case 5: x.b = std::make_shared<stlab::receiver<cval>>(p | (b & e & taker{x.taken})); break;
        case 6: x.b = std::make_shared<stlab::receiver<cval>>(p | (b & echo{x.taken} & stlab::executor{x.q.executor()})); break;
        default: x.b = std::make_shared<stlab::receiver<cval>>(p | (e & b & echo{x.taken})); break;
        }
        if (x.b) x.b->set_ready();
    }
    p.set_ready();
    if (how == 2)
        g.set_ready();
    else
        r.set_ready();
    if (how == 0)
        for (long i = 0; i < total; ++i) s(cval(static_cast<std::uint64_t>(i + 1)));
    if (how == 1) s(cval(1));
    auto check = [&](const char* when) {
        long n = how == 2 ? 1000000 : total;
        bool live = false;
        for (auto& x : cs)
            if (!x.gone) {
                live = true;
                if (x.buffer) n = std::min(n, x.taken + x.buffer);
            }
        if (!live) return;
        if (out != n)
            fail(out > n ? "over_buffer" : "stalled", "%s: %ld values were sent instead of %ld", when, out, n);
        c.see(static_cast<std::uint64_t>(n));
    };
    auto run_producer = [&] {
        while (pq.front()) {}
    };
    run_producer();
    check("at the start");
    int live = k;
    for (int i = c.r.range(1, 120); i && live; --i) {
        auto& x = cs[c.r.below(cs.size())];
        if (c.r.chance(2) && !x.gone) {
            x.gone = true;
            --live;
            x.a.reset();
            x.b.reset();
        } else {
            const long t = x.taken;
            if (!x.q.front()) {
                if (!x.gone && x.taken < out)
                    fail("stalled", "a consumer has nothing to do, but took only %ld of %ld values", x.taken, out);
                continue;
            }
            if (x.a && x.taken > t + 1) fail("took_more", "one task of a consumer took %ld values", x.taken - t);
        }
        if (live && c.r.chance(70)) {
            run_producer();
            check("after a step");
        }
    }
    if (how != 2 && live) {
        for (bool any = true; any;) {
            any = pq.front();
            for (auto& x : cs) any = x.q.front() || any;
        }
        for (auto& x : cs)
            if (!x.gone && x.taken != total)
                fail("stalled", "everything is idle, but a consumer took only %ld of %ld values", x.taken, total);
    }
    c.note = std::to_string(k) + " consumers, " + std::to_string(out) + " values";
}
#endif
