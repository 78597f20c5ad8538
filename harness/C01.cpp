// C01: every value travels through a channel once, in order, through every process.
#include "vf_chan.hpp"
#include "vf_long.hpp"
#include "vf_paused.hpp"
#include "vf_source.hpp"

using namespace vf;

#ifndef VF_PART
#define VF_PART 0
#endif

template <class T>
static void go(ctx& c, chan_opts o) {
    perturb_level(o.manual ? 0 : static_cast<int>(c.r.below(4)));
    {
        network<T> n(c, o);
        n.run();
    }
    perturb_level(0);
}

#if VF_PART == 0
// more values than small counters hold
VF_SCENARIO(long_run, 1, 12) { run_long(c, false); }
// a thread is preempted in the middle of an operation on a handle
VF_SCENARIO(paused, 1200, 20000) { run_paused(c); }
// processes that yield without awaiting anything
VF_SCENARIO(sources, 1000, 15000) { run_source(c, 0, 0); }
VF_SCENARIO(copyable, 1500, 20000) {
    chan_opts o;
    o.nodes = c.r.range(1, 9);
    o.sources = c.r.range(1, 3);
    o.values = c.r.range(1, 40);
    o.unequal = c.r.chance(50);
    go<cval>(c, o);
}
VF_SCENARIO(move_only, 1500, 20000) {
    chan_opts o;
    o.nodes = c.r.range(1, 9);
    o.sources = c.r.range(1, 3);
    o.values = c.r.range(1, 60);
    o.unequal = c.r.chance(50);
    go<mval>(c, o);
}
#else
VF_SCENARIO(chosen, 4000, 60000) {
    chan_opts o;
    o.manual = true;
    o.nodes = c.r.range(1, 12);
    o.sources = c.r.range(1, 3);
    o.values = c.r.range(1, 20);
    o.unequal = c.r.chance(50);
    if (c.r.chance(50))
        go<cval>(c, o);
    else
        go<mval>(c, o);
}
#endif
