// G03: iterators and elements across operations.
#include "vf_forest.hpp"
using namespace vf;

namespace {
void held(forests_machine& m) {
    for (auto& [id, n] : m.nodes) {
        auto i = m.at.at(id);
        VF_CHECK(&*i == m.addr.at(id), "address", "after %s: an iterator held for element %d denotes another object", m.op, id);
        i->check();
        VF_CHECK(i->id == id && i->valid, "value", "after %s: an iterator held for element %d denotes %d", m.op, id, i->id);
        VF_CHECK(i.edge() == L, "edge", "after %s: an iterator held for element %d has another edge", m.op, id);
        // it is at the position of its element
        auto check = [&](forests_machine::I j, mpos want, const char* what) {
            mpos got = m.where(n->tree, j);
            VF_CHECK(got == want, "position", "after %s: from an iterator held for element %d, %s is the %s instead of the %s", m.op, id, what,
                     m.show(got).c_str(), m.show(want).c_str());
        };
        check(std::next(i), mnext({n.get(), L}), "the next position");
        check(std::prev(i), mprev({n.get(), L}), "the prior position");
        i.edge() = T;
        check(std::next(i), mnext({n.get(), T}), "the position after the trailing edge");
        check(std::prev(i), mprev({n.get(), T}), "the position before the trailing edge");
        event(4);
    }
}
} // namespace

static void history(ctx& c, int n) {
    long before = elem::live;
    {
        forests_machine m(c);
        for (int i = 0; i < n; ++i) {
            auto nodes = static_cast<long>(m.nodes.size());
            auto copies = elem::copies, moves = elem::moves, destroyed = elem::destroyed;
            m.op = "nothing";
            m.step();
            if (m.relinks)
                VF_CHECK(copies == elem::copies && moves == elem::moves && destroyed == elem::destroyed, "touched",
                         "%s copied %ld, moved %ld and destroyed %ld elements", m.op, elem::copies - copies, elem::moves - moves, elem::destroyed - destroyed);
            VF_CHECK(static_cast<long>(m.nodes.size()) == nodes + m.made - m.gone, "harness", "%s: the model has %zu nodes", m.op, m.nodes.size());
            VF_CHECK(elem::live - before == static_cast<long>(m.nodes.size()), "live", "after %s: %ld elements are alive, %zu are in the forests", m.op,
                     elem::live - before, m.nodes.size());
            held(m);
        }
        m.finish();
    }
    VF_CHECK(elem::live == before, "live", "%ld elements are left when the forests are gone", elem::live - before);
}
VF_SCENARIO(short_, 30000, 1000000) { history(c, c.r.range(3, 25)); }
VF_SCENARIO(long_, 4000, 100000) { history(c, c.r.range(40, 120)); }

// elements which cannot be copied
VF_SCENARIO(move_only, 10000, 300000) {
    using F = stlab::forest<std::unique_ptr<int>>;
    static long live;
    live = 0;
    F a, b;
    std::map<int, std::pair<F::iterator, int*>> at;
    int next = 0;
    std::set<int> in_a, in_b;
    for (int i = c.r.range(5, 60); i > 0; --i) {
        switch (c.r.below(6)) {
        case 0:
        case 1:
        case 2: {
            const bool to_a = c.r.chance(50);
            auto& in = to_a ? in_a : in_b;
            auto pos = to_a ? a.end() : b.end();
            if (!in.empty() && c.r.chance(70)) {
                auto k = in.begin();
                std::advance(k, c.r.below(in.size()));
                pos = at.at(*k).first;
                if (c.r.chance(50)) pos.edge() = T;
            }
            int id = next++;
            auto p = std::make_unique<int>(id);
            auto raw = p.get();
            auto it = (to_a ? a : b).insert(pos, std::move(p));
            at.emplace(id, std::make_pair(it, raw));
            in.insert(id);
        } break;
        case 3: {
            auto& in = c.r.chance(50) ? in_a : in_b;
            if (in.empty()) break;
            auto k = in.begin();
            std::advance(k, c.r.below(in.size()));
            (&in == &in_a ? a : b).erase(at.at(*k).first);
            at.erase(*k);
            in.erase(k);
        } break;
        case 4:
            a.splice(a.end(), b);
            in_a.insert(in_b.begin(), in_b.end());
            in_b.clear();
            break;
        default:
            if (c.r.chance(50)) {
                a.swap(b);
            } else {
                F t(std::move(a));
                a = std::move(b);
                b = std::move(t);
            }
            std::swap(in_a, in_b);
        }
        for (auto& [id, x] : at) VF_CHECK(x.first->get() == x.second && **x.first == id, "value", "element %d is in another place", id);
        VF_CHECK(a.size() == in_a.size() && b.size() == in_b.size(), "size", "sizes %zu, %zu instead of %zu, %zu", a.size(), b.size(), in_a.size(), in_b.size());
        event(at.size());
    }
    c.see(in_a.size() * 1000 + in_b.size());
    c.see(static_cast<std::uint64_t>(next));
    c.nontrivial = next > 2;
}
