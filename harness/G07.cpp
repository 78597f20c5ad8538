// G07: threads which read one forest at the same time.
#include "vf.hpp"

#include <iterator>
#include <string>

#include <stlab/forest.hpp>
#include <stlab/forest_algorithms.hpp>
using namespace vf;
using namespace stlab;

namespace {
constexpr auto T = forest_edge::trailing;
using F = forest<std::string>;
using seen = std::vector<std::pair<std::string, forest_edge>>;

seen read(const F& f) {
    seen v;
    for (auto i = f.begin(); i != f.end(); ++i) v.emplace_back(*i, i.edge());
    return v;
}
void grow(rng& r, F& f, int n, seen& want) {
    std::vector<F::iterator> at;
    for (int i = 0; i < n; ++i) {
        auto p = f.end();
        if (!at.empty() && r.chance(80)) {
            p = r.pick(at);
            if (r.chance(60)) p.edge() = T;
        }
        at.push_back(f.insert(p, "element " + std::to_string(r.range(0, 50))));
    }
    // operations after which the size is not known
    switch (r.below(4)) {
    case 0: break; // known
    case 1: {
        F g;
        g.push_back("a"), g.push_back("b");
        f.splice(f.end(), g, child_begin(g.root()), child_end(g.root()));
        break;
    }
    case 2: {
        F g;
        if (!at.empty()) {
            auto i = r.pick(at);
            g.splice(g.end(), f, i);
        } else {
            g.push_back("c");
        }
        f.splice(r.chance(50) ? f.begin() : f.end(), g);
        break;
    }
    default: {
        F g, h;
        g.push_back("d"), h.push_back("e");
        h.splice(h.end(), g, child_begin(g.root()), child_end(g.root())); // unknown
        f.splice(f.end(), h);
        if (r.chance(50)) f = F(std::move(f));
    }
    }
    want = read(f);
}
} // namespace

VF_SCENARIO(readers, 4000, 100000) {
    F a, b;
    seen va, vb;
    grow(c.r, a, c.r.chance(8) ? 0 : c.r.range(1, 60), va);
    if (c.r.chance(50)) {
        grow(c.r, b, c.r.range(0, 60), vb);
    } else {
        b = a; // equal
        vb = va;
    }
    const bool unknown = !a.size_valid();
    const F& ca = a;
    const F& cb = b;
    const bool equal = va == vb;
    bool same_shape = va.size() == vb.size();
    for (std::size_t i = 0; same_shape && i < va.size(); ++i) same_shape = va[i].second == vb[i].second;
    const int n = c.r.range(2, 6);
    std::vector<std::uint64_t> seeds(static_cast<std::size_t>(n));
    for (auto& x : seeds) x = c.r.next();
    start_line go(n);
    std::vector<std::thread> t;
    perturb_level(c.r.range(0, 1));
    for (int k = 0; k < n; ++k)
        t.emplace_back([&, k] {
            rng r(seeds[static_cast<std::size_t>(k)]);
            go.arrive();
            for (int q = r.range(1, 4); q > 0; --q) {
                switch (r.below(9)) {
                case 0:
                case 1: {
                    auto s = ca.size();
                    VF_CHECK(s == va.size() / 2, "size", "size() is %zu of %zu", s, va.size() / 2);
                    break;
                }
                case 2: VF_CHECK(read(ca) == va, "traversal", "another traversal"); break;
                case 3: VF_CHECK((ca == cb) == equal && (cb != ca) == !equal, "equal", "== is %d", int(!equal)); break;
                case 4: {
                    F copy(ca);
                    VF_CHECK(read(copy) == va, "copy", "another copy");
                    VF_CHECK(copy.size() == va.size() / 2, "copy", "size of a copy");
                    break;
                }
                case 5: VF_CHECK(ca.empty() == va.empty() && (ca.empty() || (ca.front() == va.front().first && ca.back() == va.back().first)), "ends", "empty, front or back"); break;
                case 6: {
                    auto p = preorder_range(ca);
                    auto d = static_cast<std::size_t>(std::distance(p.begin(), p.end()));
                    VF_CHECK(d == va.size() / 2, "preorder", "%zu elements in preorder of %zu", d, va.size() / 2);
                    break;
                }
                case 7: VF_CHECK(forests::equal_shape(ca, cb) == same_shape, "shape", "equal_shape is %d", int(!same_shape)); break;
                default: {
                    std::size_t d = 0;
                    for (auto i = ca.rbegin(); i != ca.rend(); ++i, ++d) VF_CHECK(*i == va[va.size() - 1 - d].first, "reverse", "another reverse traversal");
                    VF_CHECK(!ca.size_valid() || ca.size() == va.size() / 2, "size", "size() is wrong");
                }
                }
                event();
            }
        });
    for (auto& x : t) x.join();
    VF_CHECK(ca.size() == va.size() / 2 && cb.size() == vb.size() / 2, "size", "size afterwards");
    c.nontrivial = va.size() > 0;
    c.see(unknown), c.see(va.size()), c.see(vb.size()), c.see(static_cast<std::uint64_t>(n)), c.see(equal), c.see(seeds[0]);
}
