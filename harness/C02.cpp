// C02: a process is never run concurrently with itself, and not before its receiver is ready.
#include "vf_chan.hpp"
#include "vf_paused.hpp"

using namespace vf;

#ifndef VF_PART
#define VF_PART 0
#endif

template <class T>
static void go(ctx& c, chan_opts o) {
    perturb_level(o.manual ? 0 : static_cast<int>(c.r.below(4)));
    {
        network<T> n(c, o);
        n.run();
    }
    perturb_level(0);
}
static void any(ctx& c, const chan_opts& o) {
    if (c.r.chance(60))
        go<cval>(c, o);
    else
        go<mval>(c, o);
}

#if VF_PART == 0
VF_SCENARIO(busy, 1200, 20000) {
    chan_opts o;
    o.nodes = c.r.range(1, 8);
    o.sources = c.r.range(1, 2);
    o.max_senders = 4;
    o.proc = c.r.range(20, 100);
    o.values = c.r.range(5, 60);
    o.fail = c.r.chance(20) ? 30 : 0;
    o.join = c.r.chance(30) ? 30 : 0;
    o.drop = c.r.chance(20) ? 20 : 0;
    any(c, o);
}
// a thread is preempted in the middle of an operation on a handle
VF_SCENARIO(paused, 1500, 25000) { run_paused(c); }
// values are sent just while the receivers are marked ready
VF_SCENARIO(becoming_ready, 3000, 50000) {
    chan_opts o;
    o.nodes = c.r.range(1, 2);
    o.sources = 1;
    o.max_senders = 2;
    o.proc = 50;
    o.values = c.r.range(4, 20);
    o.late_ready = 100;
    perturb_level(3);
    {
        network<cval> n(c, o);
        n.run();
    }
    perturb_level(0);
}
VF_SCENARIO(timers, 400, 6000) {
    chan_opts o;
    o.nodes = c.r.range(1, 5);
    o.sources = 1;
    o.proc = 90;
    o.timed = c.r.range(50, 100);
    o.values = c.r.range(3, 25);
    any(c, o);
}
#else
VF_SCENARIO(chosen, 3000, 40000) {
    chan_opts o;
    o.manual = true;
    o.nodes = c.r.range(1, 12);
    o.proc = c.r.range(20, 100);
    o.values = c.r.range(1, 20);
    o.fail = c.r.chance(30) ? 30 : 0;
    o.join = c.r.chance(40) ? 30 : 0;
    o.drop = c.r.chance(20) ? 20 : 0;
    any(c, o);
}
#endif
