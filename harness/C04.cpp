// C04: zip, zip_with, merge and join pair or interleave exactly as documented.
#include "vf_join.hpp"
#include "vf_long.hpp"

using namespace vf;

#ifndef VF_PART
#define VF_PART 0
#endif

template <class T>
static void go(ctx& c, chan_opts o) {
    perturb_level(o.manual ? 0 : static_cast<int>(c.r.below(4)));
    {
        network<T> n(c, o);
        n.run();
    }
    perturb_level(0);
}
static void any(ctx& c, const chan_opts& o) {
    if (c.r.chance(60))
        go<cval>(c, o);
    else
        go<mval>(c, o);
}

#if VF_PART == 0
// more values than small counters hold
VF_SCENARIO(long_run, 1, 12) { run_long(c, true); }
VF_SCENARIO(joining, 2500, 40000) {
    chan_opts o;
    o.nodes = c.r.range(2, 9);
    o.sources = c.r.range(2, 4);
    o.max_senders = c.r.chance(70) ? 1 : 2;
    o.join = c.r.range(40, 90);
    o.split = c.r.range(0, 40);
    o.proc = c.r.range(0, 30);
    o.values = c.r.range(1, 40);
    go<cval>(c, o);
}
VF_SCENARIO(one_join, 1500, 40000) { join_run(c, false, false); }
#else
VF_SCENARIO(one_join_chosen, 4000, 100000) { join_run(c, true, false); }
VF_SCENARIO(chosen, 5000, 80000) {
    chan_opts o;
    o.manual = true;
    o.nodes = c.r.range(2, 10);
    o.sources = c.r.range(2, 4);
    o.max_senders = c.r.chance(70) ? 1 : 2;
    o.join = c.r.range(40, 90);
    o.split = c.r.range(0, 40);
    o.proc = c.r.range(0, 30);
    o.values = c.r.range(1, 25);
    go<cval>(c, o);
}
#endif
