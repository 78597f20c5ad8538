// C05: a split receiver broadcasts every value to every attached process.
#include "vf_chan.hpp"

using namespace vf;

#ifndef VF_PART
#define VF_PART 0
#endif

template <class T>
static void go(ctx& c, chan_opts o) {
    perturb_level(o.manual ? 0 : static_cast<int>(c.r.below(4)));
    {
        network<T> n(c, o);
        n.run();
    }
    perturb_level(0);
}
static void any(ctx& c, const chan_opts& o) {
    if (c.r.chance(60))
        go<cval>(c, o);
    else
        go<mval>(c, o);
}

#if VF_PART == 0
VF_SCENARIO(fan_out, 1000, 15000) {
    chan_opts o;
    o.nodes = c.r.range(2, 10);
    o.sources = 1;
    o.split = c.r.range(50, 100);
    o.pipe = 5;
    o.proc = c.r.range(0, 60);
    o.values = c.r.range(1, 40);
    go<cval>(c, o);
}
VF_SCENARIO(branches_leave, 1500, 25000) {
    chan_opts o;
    o.nodes = c.r.range(2, 8);
    o.sources = 1;
    o.split = c.r.range(50, 100);
    o.pipe = 5;
    o.drop = c.r.range(20, 60);
    o.proc = c.r.range(0, 60);
    o.values = c.r.range(5, 60);
    go<cval>(c, o);
}
#else
VF_SCENARIO(chosen, 4000, 60000) {
    chan_opts o;
    o.manual = true;
    o.nodes = c.r.range(2, 12);
    o.sources = 1;
    o.split = c.r.range(50, 100);
    o.drop = c.r.chance(70) ? c.r.range(10, 60) : 0;
    o.proc = c.r.range(0, 60);
    o.values = c.r.range(1, 30);
    go<cval>(c, o);
}
#endif
