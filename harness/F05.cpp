// F05: when_all fires once, after all arguments, with the values in argument order.
#include "vf_when.hpp"
using namespace vf;
#if VF_PART == 0
VF_SCENARIO(manual, 12000, 200000) { when_manual(c, true, static_cast<int>(c.r.below(12))); }
VF_SCENARIO(many, 2, 40) { when_many(c, true); }
VF_SCENARIO(copies_throw, 4000, 100000) { when_sharing(c, true); }
#else
VF_SCENARIO(race, 1600, 24000) { when_race(c, true, static_cast<int>(c.r.below(12))); }
#endif
