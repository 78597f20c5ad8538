// G02: moving through a forest in both directions from every position.
#include "vf_forest.hpp"
using namespace vf;
using namespace stlab;

namespace {
template <class X, class J>
void at_position(forests_machine& m, int t, X& x, J i, mpos p) {
    const auto self = i;
    VF_CHECK(m.where(t, i) == p, "position", "after %s: an iterator is at the wrong position", m.op);
    const bool is_root = !p.n->parent;
    // in both directions, all spellings
    if (!(is_root && p.e == T)) {
        mpos n = mnext(p);
        J j = i;
        ++j;
        VF_CHECK(m.where(t, j) == n, "next", "after %s: ++ from the %s is the %s instead of the %s", m.op, m.show(p).c_str(), m.show(m.where(t, j)).c_str(), m.show(n).c_str());
        --j;
        VF_CHECK(j == self, "inverse", "after %s: -- after ++ from the %s", m.op, m.show(p).c_str());
        J k = j++;
        VF_CHECK(k == self && m.where(t, j) == n, "postfix", "it++ at the %s", m.show(p).c_str());
        k = j--;
        VF_CHECK(j == self && m.where(t, k) == n, "postfix", "it-- at the %s", m.show(p).c_str());
        VF_CHECK(std::next(i) != i && (j == i) && !(j != i), "equality", "equality at the %s", m.show(p).c_str());
    }
    if (!(is_root && p.e == L)) {
        mpos n = mprev(p);
        J j = i;
        --j;
        VF_CHECK(m.where(t, j) == n, "prior", "after %s: -- from the %s is the %s instead of the %s", m.op, m.show(p).c_str(), m.show(m.where(t, j)).c_str(), m.show(n).c_str());
        ++j;
        VF_CHECK(j == self, "inverse", "after %s: ++ after -- from the %s", m.op, m.show(p).c_str());
    }
    // edges
    auto l = leading_of(i), tr = trailing_of(i);
    VF_CHECK(l.edge() == L && tr.edge() == T && l.equal_node(i) && tr.equal_node(i) && l != tr, "edges", "leading_of, trailing_of");
    VF_CHECK(is_leading(l) && !is_leading(tr) && is_trailing(tr) && !is_trailing(l), "edges", "is_leading, is_trailing");
    VF_CHECK(pivot_of(l) == tr && pivot_of(tr) == l && pivot_of(pivot_of(i)) == self, "edges", "pivot_of");
    J q = i;
    pivot(q);
    VF_CHECK(q == (p.e == L ? tr : l), "edges", "pivot");
    VF_CHECK(has_children(i) == !p.n->kids.empty(), "has_children", "after %s: has_children of the %s", m.op, m.show(p).c_str());
    // from the leading edge one reaches the trailing edge after the subtree, and not before
    if (p.e == L) {
        std::size_t n = 0;
        for (J j = l; j != tr; ++j) ++n;
        VF_CHECK(n == 2 * p.n->count() - 1, "nesting", "after %s: there are %zu edges from the leading to the trailing edge of %d, of %zu elements", m.op, n, p.n->id, p.n->count());
    }
    if (!is_root) {
        J j = find_parent(i);
        VF_CHECK((m.where(t, j) == mpos{p.n->parent, T}), "parent", "after %s: find_parent of the %s is the %s instead of the %s", m.op, m.show(p).c_str(),
                 m.show(m.where(t, j)).c_str(), m.show({p.n->parent, T}).c_str());
        for (auto e : {L, T}) {
            mpos a = p;
            while (a.e != e && !(a.n->parent == nullptr)) a = mnext(a);
            if (a.e == e) VF_CHECK((m.where(t, find_edge(i, e)) == a), "find_edge", "after %s: find_edge from the %s", m.op, m.show(p).c_str());
            a = p;
            while (a.e != e && !(a.n->parent == nullptr)) a = mprev(a);
            if (a.e == e) VF_CHECK((m.where(t, find_edge_reverse(i, e)) == a), "find_edge", "after %s: find_edge_reverse from the %s", m.op, m.show(p).c_str());
        }
        VF_CHECK(&*i == m.addr.at(p.n->id) && i->id == p.n->id, "dereference", "after %s: the %s denotes another element", m.op, m.show(p).c_str());
    }
    VF_CHECK(i == self, "changed", "an iterator was changed");
    event(8);
}
} // namespace

static void history(ctx& c, int n, int percent) {
    forests_machine m(c);
    for (int i = 0; i < n; ++i) {
        m.step();
        if (i + 1 < n && !c.r.chance(percent)) continue;
        for (int t = 0; t < m.K; ++t) {
            auto& x = *m.f[t];
            auto v = m.positions(t);
            v.insert(v.begin(), {m.root[t].get(), L});
            auto it = x.root();
            for (std::size_t k = 0; k < v.size(); ++k) {
                at_position(m, t, x, it, v[k]);
                at_position(m, t, x, forests_machine::F::const_iterator(it), v[k]);
                if (k + 1 < v.size()) ++it;
            }
            VF_CHECK(it == x.end(), "end", "after %s: the end is not reached", m.op);
        }
    }
    m.finish();
}
VF_SCENARIO(short_, 20000, 800000) { history(c, c.r.range(3, 25), 25); }
VF_SCENARIO(long_, 3000, 100000) { history(c, c.r.range(40, 120), 4); }
