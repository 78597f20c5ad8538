// G04: iterator adaptors against the model of the tree.
#include "vf_forest.hpp"
using namespace vf;
using namespace stlab;

namespace {
using F = forests_machine::F;
using I = F::iterator;
using CI = F::const_iterator;

// the sequence of ids (and edges) seen between two iterators is the expected one, in both directions
template <class J, class See, class W>
void both_ways(const char* what, J first, J last, const std::vector<W>& want, See see) {
    std::size_t k = 0;
    std::vector<J> stops;
    for (J i = first; i != last; ++i, ++k) {
        VF_CHECK(k < want.size(), "longer", "%s: more than %zu elements", what, want.size());
        VF_CHECK(see(i) == want[k], "order", "%s: element %zu is another one", what, k);
        VF_CHECK(!(i == last) && i == i && !(i != i), "equality", "%s: equality", what);
        stops.push_back(i);
    }
    VF_CHECK(k == want.size(), "shorter", "%s: %zu elements instead of %zu", what, k, want.size());
    J i = last;
    while (k > 0) {
        --i;
        --k;
        VF_CHECK(see(i) == want[k], "order_back", "%s: going back, element %zu is another one", what, k);
        VF_CHECK(i == stops[k], "inverse", "%s: going back to element %zu gives another iterator", what, k);
    }
    VF_CHECK(i == first, "inverse", "%s: the way back does not end at the beginning", what);
    // postfix, and there and back at each
    for (std::size_t n = 0; n < want.size(); ++n) {
        J j = i++;
        VF_CHECK(j == stops[n], "postfix", "%s: i++", what);
        j = i--;
        VF_CHECK(i == stops[n], "postfix", "%s: i--", what);
        ++i;
    }
    event(2 * want.size() + 1);
}
template <class J>
int id_of(J& i) {
    (*i).check();
    VF_CHECK(&*i == i.operator->(), "arrow", "-> and * differ");
    return (*i).id;
}
using edged = std::pair<int, edge_t>;
using deep = std::tuple<int, edge_t, long>;

void pre(mnode* n, std::vector<int>& v) {
    for (auto k : n->kids) v.push_back(k->id), pre(k, v);
}
void post(mnode* n, std::vector<int>& v) {
    for (auto k : n->kids) post(k, v), v.push_back(k->id);
}
template <class P>
void filtered(mnode* n, P p, std::vector<edged>& v) {
    for (auto k : n->kids)
        if (p(k->id)) {
            v.push_back({k->id, L});
            filtered(k, p, v);
            v.push_back({k->id, T});
        }
}
struct keep {
    int m = 3, k = 0;
    bool operator()(const elem& e) const { return e.id % m != k; }
};
struct keep_default {
    bool operator()(const elem& e) const { return e.id % 4 != 1; }
};
std::vector<edged> reversed(std::vector<edged> v) {
    std::reverse(v.begin(), v.end());
    for (auto& x : v) x.second = pivot(x.second);
    return v;
}
auto see_id = [](auto& i) { return id_of(i); };
auto see_edge = [](auto& i) { return edged{id_of(i), i.edge()}; };

template <class X, class J>
void whole(forests_machine& m, int t, X& x, J) {
    mnode* root = m.root[t].get();
    std::vector<int> a, b;
    pre(root, a), post(root, b);
    std::vector<mpos> v;
    mwalk(root, v);
    std::vector<edged> full;
    for (auto p : v) full.push_back({p.n->id, p.e});

    auto r1 = preorder_range(x);
    both_ways("preorder_range", r1.begin(), r1.end(), a, see_id);
    auto r2 = postorder_range(x);
    both_ways("postorder_range", r2.begin(), r2.end(), b, see_id);
    auto r3 = reverse_fullorder_range(x);
    both_ways("reverse_fullorder_range", r3.begin(), r3.end(), reversed(full), see_edge);
    both_ways("rbegin, rend", x.rbegin(), x.rend(), reversed(full), see_edge);
    VF_CHECK(x.rbegin().base() == x.end() && x.rend().base() == x.begin(), "base", "base of rbegin or rend");

    // the base of the k-th reverse iterator is the position k edges before the end
    {
        J e = x.end();
        for (auto i = r3.begin(); i != r3.end(); ++i, --e) {
            VF_CHECK(i.base() == e, "base", "base of a reverse iterator");
            // edges can be set
            auto l = leading_of(i), tr = trailing_of(i);
            VF_CHECK(pivot_of(l) == tr && l.equal_node(i) && tr.equal_node(i) && (i.edge() == L ? l : tr) == i, "edges", "edges of a reverse iterator");
            // the reverse of a subtree begins at its leading (here: trailing in x) edge
            mpos p{m.nodes.at((*i).id).get(), i.edge()};
            std::size_t n = 0;
            for (auto j = l; j != tr; ++j) {
                ++n;
                VF_CHECK(n < 2 * p.n->count(), "nesting", "the trailing edge of a reverse iterator is not reached from its leading edge");
            }
            VF_CHECK(n == 2 * p.n->count() - 1, "nesting", "%zu edges in a reversed subtree of %zu", n, p.n->count());
            VF_CHECK(l.base() == std::next(trailing_of(m.it(p))) && tr.base() == std::next(leading_of(m.it(p))), "base", "base of an edge of a reverse iterator");
            VF_CHECK(has_children(i) == !p.n->kids.empty(), "has_children", "has_children of a reverse iterator");
            std::vector<int> kids;
            for (auto k : p.n->kids) kids.insert(kids.begin(), k->id);
            auto cr = child_range(i);
            both_ways("child_range of a reverse iterator", cr.begin(), cr.end(), kids, see_id);
            if (p.n->parent->parent) VF_CHECK((*find_parent(i)).id == p.n->parent->id, "parent", "find_parent of a reverse iterator");
        }
    }

    std::vector<deep> d;
    for (auto p : v) d.push_back({p.n->id, p.e, p.n->depth()});
    auto r4 = depth_range(x);
    // the depth of the end of a range is not that of its position, so start the way back elsewhere
    auto d_end = r4.begin();
    for (std::size_t k = 0; k < d.size(); ++k) ++d_end;
    VF_CHECK(d_end == r4.end(), "shorter", "depth_range: end");
    both_ways("depth_range", r4.begin(), d_end, d, [](auto& i) { return deep{id_of(i), i.edge(), i.depth()}; });
    const long off = m.r.range(-5, 5);
    for (auto& q : d) std::get<2>(q) += off;
    using D = depth_fullorder_iterator<J>;
    D last(x.end()), first(x.begin(), off);
    {
        std::size_t k = 0;
        D i = first;
        for (; i != last; ++i, ++k) VF_CHECK((deep{id_of(i), i.edge(), i.depth()} == d[k]), "depth", "depth is %ld instead of %ld", long(i.depth()), std::get<2>(d[k]));
        if (!d.empty()) VF_CHECK(i.depth() == off - 1, "depth", "depth of the end is %ld", long(i.depth() - off));
        while (i != first) {
            --i, --k;
            VF_CHECK((deep{id_of(i), i.edge(), i.depth()} == d[k]), "depth_back", "going back, depth is %ld instead of %ld", long(i.depth()), std::get<2>(d[k]));
            VF_CHECK(i.base() == m.it(v[k]), "base", "base of a depth iterator");
        }
    }
    // the depth along the reverse traversal
    {
        using R = reverse_fullorder_iterator<J>;
        using DR = depth_fullorder_iterator<R>;
        auto e = reversed(full);
        std::size_t k = 0;
        DR l{R(x.begin())};
        for (DR i{R(x.end())}; i != l; ++i, ++k) {
            VF_CHECK(k < e.size() && (edged{id_of(i), i.edge()} == e[k]), "order", "depth of the reverse: element %zu", k);
            VF_CHECK(i.depth() == m.nodes.at(id_of(i))->depth(), "depth", "depth in the reverse is %ld", long(i.depth()));
        }
        VF_CHECK(k == e.size(), "shorter", "depth of the reverse");
    }
    // filters leave out whole subtrees
    keep p{m.r.range(1, 5), 0};
    p.k = m.r.range(0, p.m - 1);
    auto pid = [&](int id) { return id % p.m != p.k; };
    std::vector<edged> g;
    filtered(root, pid, g);
    auto r5 = filter_fullorder_range(x, p);
    both_ways("filter_fullorder_range", r5.begin(), r5.end(), g, see_edge);
    for (auto i = r5.begin(); i != r5.end(); ++i)
        VF_CHECK((i.base() == m.it({m.nodes.at(id_of(i)).get(), i.edge()})) && i.predicate()(*i), "base", "base or predicate of a filter iterator");
    {
        std::size_t k = 0;
        using FI = decltype(r5.begin());
        depth_fullorder_iterator<FI> i(r5.begin()), l(r5.end());
        for (; i != l; ++i, ++k) {
            VF_CHECK(k < g.size() && (edged{id_of(i), i.edge()} == g[k]), "order", "depth of a filter: element %zu", k);
            VF_CHECK(i.depth() == m.nodes.at(id_of(i))->depth(), "depth", "depth in a filtered range is %ld", long(i.depth()));
        }
        VF_CHECK(k == g.size(), "shorter", "depth of a filter");
    }
    g.clear();
    filtered(root, [](int id) { return id % 4 != 1; }, g);
    {
        std::size_t k = 0;
        using K = filter_fullorder_iterator<J, keep_default>;
        K i(x.begin(), x.end()), l(x.end(), x.end()); // the way back starts from i
        for (; i != l; ++i, ++k) VF_CHECK(k < g.size() && (edged{id_of(i), i.edge()} == g[k]), "order", "filter with a default predicate: element %zu", k);
        VF_CHECK(k == g.size(), "shorter", "filter with a default predicate");
        while (k > 0) {
            --i, --k;
            VF_CHECK((edged{id_of(i), i.edge()} == g[k]), "order_back", "filter with a default predicate, going back: element %zu", k);
        }
    }
}

template <class X, class J>
void nodes(forests_machine& m, int t, X& x, J) {
    std::vector<mnode*> all{m.root[t].get()};
    {
        std::vector<mpos> v;
        mwalk(m.root[t].get(), v);
        for (auto p : v)
            if (p.e == L) all.push_back(p.n);
    }
    m.r.shuffle(all);
    if (all.size() > 12) all.resize(12);
    for (auto n : all) {
        J i = m.it({n, m.r.chance(50) ? L : T});
        std::vector<int> kids, a, b;
        for (auto k : n->kids) kids.push_back(k->id);
        auto r1 = child_range(i);
        both_ways("child_range", r1.begin(), r1.end(), kids, see_id);
        VF_CHECK(r1.begin() == child_begin(i) && r1.end() == child_end(i), "child_range", "child_begin, child_end");
        if (!kids.empty()) VF_CHECK((m.where(t, child_begin(i).base()) == mpos{n->kids.front(), L}), "base", "base of child_begin");
        VF_CHECK((m.where(t, child_end(i).base()) == mpos{n, T}), "base", "base of child_end");
        {
            using R = std::reverse_iterator<child_iterator<J>>;
            std::size_t k = kids.size();
            for (R q(child_end(i)), e(child_begin(i)); q != e; ++q) {
                VF_CHECK(k > 0 && (*q).id == kids[--k], "order", "reverse child iterator");
                event();
            }
            VF_CHECK(k == 0, "shorter", "reverse child iterator");
        }
        if (!n->parent) continue;
        // of the subtree
        pre(n, a), post(n, b);
        a.insert(a.begin(), n->id);
        b.push_back(n->id);
        using P = edge_iterator<J, forest_edge::leading>;
        using Q = edge_iterator<J, forest_edge::trailing>;
        both_ways("preorder of a subtree", P(leading_of(i)), P(trailing_of(i)), a, see_id);
        both_ways("postorder of a subtree", Q(leading_of(i)), Q(std::next(trailing_of(i))), b, see_id);
        std::vector<mpos> v;
        mwalk(n, v);
        std::vector<edged> full;
        for (auto p : v) full.push_back({p.n->id, p.e});
        using R = reverse_fullorder_iterator<J>;
        both_ways("reverse of a subtree", R(trailing_of(i)), R(std::next(leading_of(i))), reversed(full), see_edge);
        keep p{m.r.range(2, 4), 0};
        std::vector<edged> g;
        filtered(n, [&](int id) { return id % p.m != 0; }, g);
        using K = filter_fullorder_iterator<J, keep>;
        J f = std::next(leading_of(i)), l = trailing_of(i);
        std::size_t k = 0;
        K j(f, l, p), e(l, l, p);
        for (; j != e; ++j, ++k) VF_CHECK(k < g.size() && see_edge(j) == g[k], "order", "filter of a subtree: element %zu", k);
        VF_CHECK(k == g.size(), "shorter", "filter of a subtree");
        while (k > 0) {
            --j, --k;
            VF_CHECK(see_edge(j) == g[k], "order_back", "filter of a subtree, going back: element %zu", k);
        }
        event(2 * g.size());
        // some siblings of it filtered, walked with what is around them: nothing is left out there
        auto& sib = n->parent->kids;
        std::size_t at = std::find(sib.begin(), sib.end(), n) - sib.begin();
        if (n->id % p.m == 0 || at + 1 >= sib.size()) continue;
        mnode* stop = sib[at + 1 + m.r.below(sib.size() - at - 1)];
        std::vector<edged> whole, path;
        {
            std::vector<mpos> w;
            mnode* top = n; while (top->parent) top = top->parent; mwalk(top, w);
            for (auto q : w) whole.push_back({q.n->id, q.e});
        }
        std::size_t pf = std::find(whole.begin(), whole.end(), edged{n->id, L}) - whole.begin(),
                    pl = std::find(whole.begin(), whole.end(), edged{stop->id, L}) - whole.begin();
        std::size_t lo = pf > 4 ? pf - 4 : 0, hi = std::min(whole.size(), pl + 5);
        path.assign(whole.begin() + lo, whole.begin() + pf);
        for (; sib[at] != stop; ++at)
            if (sib[at]->id % p.m != 0) {
                path.push_back({sib[at]->id, L});
                filtered(sib[at], [&](int id) { return id % p.m != 0; }, path);
                path.push_back({sib[at]->id, T});
            }
        path.insert(path.end(), whole.begin() + pl, whole.begin() + hi);
        k = pf - lo;
        K w(leading_of(i), leading_of(m.it({stop, L})), p);
        auto here = [&] { VF_CHECK(see_edge(w) == path[k], "around", "a filtered range and what is around it: position %zu of %zu", k, path.size()); };
        here();
        for (int round = 0; round < 4; ++round) {
            std::size_t to = round == 0 ? path.size() - 1 : round == 1 ? 0 : m.r.below(path.size());
            while (k < to) ++w, ++k, here();
            while (k > to) --w, --k, here();
            event(1);
        }
    }
}
} // namespace

static void history(ctx& c, int n) {
    forests_machine m(c);
    for (int i = 0; i < n; ++i) m.step();
    for (int t = 0; t < m.K; ++t) {
        auto& x = *m.f[t];
        whole(m, t, x, I());
        whole(m, t, static_cast<const F&>(x), CI());
        nodes(m, t, x, I());
        nodes(m, t, static_cast<const F&>(x), CI());
        // conversions
        if (!x.empty()) {
            F::const_iterator ci = x.begin();
            F::const_child_iterator cc = child_begin(x.root());
            F::const_preorder_iterator cp = F::preorder_iterator(x.begin());
            F::const_postorder_iterator cq = F::postorder_iterator(x.begin());
            F::const_reverse_iterator cr = x.rbegin();
            const F& y = x;
            VF_CHECK(ci == y.begin() && cc == child_begin(y.root()) && cp == preorder_range(y).begin() && cq == postorder_range(y).begin() && cr == y.rbegin(),
                     "convert", "a converted iterator is elsewhere");
            const auto k = c.r.below(2 * (m.root[t]->count() - 1));
            auto ri = x.rbegin();
            auto rc = y.rbegin();
            for (std::size_t q = 0; q < k; ++q) ++ri, ++rc;
            cr = ri;
            VF_CHECK(cr == rc && cr.base() == rc.base(), "convert", "a converted reverse iterator is elsewhere");
        }
    }
    m.finish();
}
VF_SCENARIO(short_, 15000, 500000) { history(c, c.r.range(3, 25)); }
VF_SCENARIO(long_, 3000, 80000) { history(c, c.r.range(30, 100)); }
