// C07: an exception thrown by a process goes downstream in sequence, or closes the consumer.
#include "vf_join.hpp"
#include "vf_source.hpp"

using namespace vf;

#ifndef VF_PART
#define VF_PART 0
#endif

template <class T>
static void go(ctx& c, chan_opts o) {
    perturb_level(o.manual ? 0 : static_cast<int>(c.r.below(4)));
    {
        network<T> n(c, o);
        n.run();
    }
    perturb_level(0);
}
static void any(ctx& c, const chan_opts& o) {
    if (c.r.chance(60))
        go<cval>(c, o);
    else
        go<mval>(c, o);
}

#if VF_PART == 0
VF_SCENARIO(throwing, 2500, 40000) {
    chan_opts o;
    o.nodes = c.r.range(2, 10);
    o.sources = c.r.range(1, 2);
    o.fail = c.r.range(20, 90);
    o.proc = c.r.range(20, 90);
    o.values = c.r.range(3, 40);
    o.split = c.r.range(0, 60);
    o.join = c.r.chance(40) ? 30 : 0;
    any(c, o);
}
VF_SCENARIO(one_join, 1500, 40000) { join_run(c, false, true); }
// errors of processes that await nothing
VF_SCENARIO(sources, 800, 10000) { run_source(c, c.r.chance(30) ? 30 : 0, c.r.range(20, 100)); }
#else
VF_SCENARIO(one_join_chosen, 4000, 100000) { join_run(c, true, true); }
VF_SCENARIO(chosen, 5000, 80000) {
    chan_opts o;
    o.manual = true;
    o.nodes = c.r.range(2, 12);
    o.sources = c.r.range(1, 2);
    o.fail = c.r.range(20, 90);
    o.proc = c.r.range(20, 90);
    o.values = c.r.range(1, 20);
    o.split = c.r.range(0, 60);
    o.join = c.r.chance(40) ? 30 : 0;
    any(c, o);
}
#endif
