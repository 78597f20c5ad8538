// Pre-included in the ThreadSanitizer build only. ThreadSanitizer does not model fences, and
// stlab::detail::unique_usage() is `use_count() == 1` followed by an acquire fence. Turn the relaxed
// load in libstdc++'s use_count() into an acquire load, which is what the pair amounts to. Relaxed
// read-modify-writes of libstdc++'s reference counts become acquire with it, never release: what
// orders a decrement before a later use_count() is libstdc++'s own acq_rel decrement.
#pragma once
#pragma push_macro("__ATOMIC_RELAXED")
#undef __ATOMIC_RELAXED
#define __ATOMIC_RELAXED __ATOMIC_ACQUIRE
#include <memory>
#pragma pop_macro("__ATOMIC_RELAXED")
