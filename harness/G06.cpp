// G06: elements whose copy or move constructor throws, and memory that runs out.
#include "vf_forest.hpp"
using namespace vf;

// memory: every allocation between arm() and disarm() is one of the points at which to throw
namespace {
thread_local bool armed = false;
struct arm {
    arm() { armed = elem::throw_moves = true; }
    ~arm() { armed = elem::throw_moves = false; }
};
} // namespace
void* operator new(std::size_t n) {
    if (armed && elem::throw_after >= 0 && elem::throw_after-- == 0) throw 42;
    if (void* p = std::malloc(n ? n : 1)) return p;
    std::abort();
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }

namespace {
using F = forests_machine::F;
// ids and edges
std::vector<std::pair<int, edge_t>> read(const F& f) {
    std::vector<std::pair<int, edge_t>> v;
    for (auto i = f.begin(); i != f.end(); ++i) {
        (*i).check();
        VF_CHECK((*i).valid, "moved", "an element is moved from");
        v.emplace_back((*i).id, i.edge());
        VF_CHECK(v.size() < 2000, "endless", "a forest does not end");
    }
    std::size_t k = v.size();
    for (auto i = f.end(); k > 0;) {
        --i, --k;
        VF_CHECK((v[k] == std::pair<int, edge_t>((*i).id, i.edge())), "order_back", "the way back differs");
    }
    VF_CHECK(f.size() == v.size() / 2, "size", "size() is %zu of %zu elements", f.size(), v.size() / 2);
    event(2 * v.size() + 1);
    return v;
}
} // namespace

VF_SCENARIO(history, 20000, 600000) {
    const long before = elem::live;
    {
        forests_machine m(c);
        int thrown = 0;
        bool known = true;
        for (int n = c.r.range(3, 30); n > 0; --n) {
            m.step();
            if (!c.r.chance(40)) continue;
            const int t = c.r.range(0, m.K - 1), u = c.r.range(0, m.K - 1);
            auto& x = *m.f[t];
            auto& y = *m.f[u];
            if (c.r.chance(50)) (void)x.size();
            std::vector<std::vector<std::pair<int, edge_t>>> was;
            // reading x would make its size known
            for (int k = 0; k < m.K; ++k) {
                F* f = m.f[k].get();
                std::vector<std::pair<int, edge_t>> v;
                for (auto i = f->begin(); i != f->end(); ++i) v.emplace_back((*i).id, i.edge());
                was.push_back(v);
            }
            elem e(100000);
            const long live = elem::live;
            const int kind = c.r.range(0, 8);
            auto p = m.any_position(t);
            auto g = m.any_range(u);
            std::vector<mnode*> what(g.parent->kids.begin() + static_cast<long>(g.i), g.parent->kids.begin() + static_cast<long>(g.j));
            const auto fits = [&] {
                for (auto k : what)
                    if (p.n->inside(k)) return false;
                return u != t;
            };
            if (kind == 3 && !fits()) continue;
            if (kind == 5 && t == u) continue;
            mnode* child_of = m.any_node(t);
            if (kind >= 7 && !child_of) continue;
            auto gt = m.any_range(t);
            const bool lead = c.r.chance(50);
            const auto perform = [&](F& to, bool real) {
                const auto pos = real ? m.it(p) : to.end();
                auto parent = real && kind >= 7 ? m.it({child_of, lead ? L : T}) : to.begin();
                const auto first = real ? m.first_of(gt) : to.begin(), last = real ? m.last_of(gt) : to.end();
                const F& from = y;
                arm a;
                switch (kind) {
                case 0: to.insert(pos, e); break;
                case 1: to.push_front(e); break;
                case 2: to.push_back(e); break;
                case 3: to.insert(pos, F::const_child_iterator(m.first_of(g)), F::const_child_iterator(m.last_of(g))); break;
                case 4: { F copy(from); } break;
                case 5: to = from; break;
                case 6: to.insert_parent(F::child_iterator(first), F::child_iterator(last), e); break;
                case 7: stlab::child_adaptor<F>(to, parent).push_back(e); break;
                default: stlab::child_adaptor<F>(to, parent).push_front(e);
                }
            };
            std::size_t points = 0, done = 0; // points at which it can throw
            {
                F rehearsal;
                if (kind != 3 && kind != 5) rehearsal.insert(rehearsal.end(), elem(100001));
                elem::throw_after = 1 << 30;
                perform(rehearsal, false);
                points = static_cast<std::size_t>((1 << 30) - elem::throw_after);
                elem::throw_after = -1;
            }
            if (points == 0) continue;
            elem::throw_after = static_cast<long>(done = c.r.below(points));
            bool caught = false;
            auto pos = m.it(p);
            auto before_pos = p == mpos{m.root[t].get(), L} ? mpos{} : mprev(p);
            try {
                perform(x, true);
            } catch (int) {
                caught = true;
            }
            const bool threw = elem::throw_after < 0;
            const std::size_t copies = points;
            elem::throw_after = -1;
            if (!threw) { // it took another way than it did in the rehearsal: the model does not know
                VF_CHECK(!caught, "stray_exception", "an exception nobody threw");
                known = false;
                break;
            }
            VF_CHECK(caught, "swallowed", "the exception of copy %zu of %zu was lost (operation %d)", done + 1, copies, kind);
            ++thrown;
            if (kind == 3) {
                // a prefix of the copies may be there: the elements that were there before are unchanged
                // and what was added is well formed; it is removed again
                std::size_t extra = static_cast<std::size_t>(elem::live - live);
                VF_CHECK(extra <= done, "live", "%zu elements more after %zu copies", extra, done);
                auto i = m.it(before_pos);
                for (++i; i != pos && extra > 0;) {
                    VF_CHECK(i.edge() == L || std::prev(i) == stlab::leading_of(i), "prefix", "the inserted prefix is not well formed");
                    auto j = i;
                    ++i;
                    if (j.edge() == T) {
                        i = x.erase(j);
                        --extra;
                    } else if (i.equal_node(j)) {
                        i = x.erase(i);
                        --extra;
                    }
                }
            }
            VF_CHECK(elem::live == live, "live", "operation %d left %ld elements behind when copy %zu of %zu threw", kind, elem::live - live, done + 1, copies);
            for (int k = 0; k < m.K; ++k) VF_CHECK(read(*m.f[k]) == was[static_cast<std::size_t>(k)], "changed", "operation %d changed forest %d although it threw (target %d, source %d)", kind, k, t, u);
            for (auto& [id, nn] : m.nodes) VF_CHECK(&*m.at.at(id) == m.addr.at(id) && m.at.at(id)->id == id, "address", "an iterator does not denote its element any more");
            c.see(static_cast<std::uint64_t>(kind * 100) + done);
        }
        if (known) m.finish();
        c.nontrivial = thrown > 0;
    }
    VF_CHECK(elem::live == before, "live", "%ld elements are left when the forests are gone", elem::live - before);
}
