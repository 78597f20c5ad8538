// F06: when_any fires once with the first success, and fails only if all fail.
#include "vf_when.hpp"
using namespace vf;
#if VF_PART == 0
VF_SCENARIO(manual, 12000, 200000) { when_manual(c, false, static_cast<int>(c.r.below(12))); }
VF_SCENARIO(many, 2, 40) { when_many(c, false); }
VF_SCENARIO(copies_throw, 4000, 100000) { when_sharing(c, false); }
#else
VF_SCENARIO(race, 1600, 24000) { when_race(c, false, static_cast<int>(c.r.below(12))); }
#endif
