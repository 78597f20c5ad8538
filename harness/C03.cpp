// C03: everything that was sent is processed, then close is seen exactly once.
#include "vf_chan.hpp"
#include "vf_paused.hpp"

using namespace vf;

#ifndef VF_PART
#define VF_PART 0
#endif

template <class T>
static void go(ctx& c, chan_opts o) {
    perturb_level(o.manual ? 0 : static_cast<int>(c.r.below(4)));
    {
        network<T> n(c, o);
        n.run();
    }
    perturb_level(0);
}
static void any(ctx& c, const chan_opts& o) {
    if (c.r.chance(60))
        go<cval>(c, o);
    else
        go<mval>(c, o);
}

#if VF_PART == 0
// a thread is preempted in the middle of an operation on a handle
VF_SCENARIO(paused, 1200, 20000) { run_paused(c); }
// many short pipelines: closing meets sending and running
VF_SCENARIO(closing, 2500, 40000) {
    chan_opts o;
    o.nodes = c.r.range(1, 7);
    o.sources = c.r.range(1, 2);
    o.max_senders = 4;
    o.proc = c.r.range(40, 100);
    o.values = c.r.range(0, 4);
    o.unequal = true;
    o.join = c.r.chance(30) ? 30 : 0;
    o.late_ready = c.r.range(0, 100);
    any(c, o);
}
VF_SCENARIO(draining, 600, 10000) {
    chan_opts o;
    o.nodes = c.r.range(2, 7);
    o.sources = 1;
    o.proc = 100;
    o.behaviour = c.r.chance(50) ? 1 : 2;
    o.values = c.r.range(10, 60);
    o.late_ready = 0;
    any(c, o);
}
#else
VF_SCENARIO(chosen, 2500, 40000) {
    chan_opts o;
    o.manual = true;
    o.nodes = c.r.range(1, 10);
    o.proc = c.r.range(40, 100);
    o.values = c.r.range(0, 12);
    o.unequal = c.r.chance(70);
    o.join = c.r.chance(30) ? 30 : 0;
    any(c, o);
}
VF_SCENARIO(held, 1500, 20000) {
    chan_opts o;
    o.manual = true;
    o.hold_last = true;
    o.sources = 1;
    o.senders = c.r.range(1, 5);
    o.pipe = 20;
    o.nodes = c.r.range(1, 8);
    o.proc = c.r.range(40, 100);
    o.values = c.r.range(0, 12);
    o.unequal = c.r.chance(70);
    any(c, o);
}
#endif
