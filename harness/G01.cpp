// G01: forests against a model of ordered trees.
#include "vf_forest.hpp"
using namespace vf;

static void history(ctx& c, int n, int keep) {
    long before = elem::live;
    {
        forests_machine m(c);
        for (int i = 0; i < n; ++i) {
            m.step();
            // the size stays unknown for a while
            for (int t = 0; t < m.K; ++t) {
                m.traverse(t);
                if (c.r.chance(keep)) m.sizes(t);
            }
            VF_CHECK(elem::live - before == static_cast<long>(m.nodes.size()), "live", "after %s: %ld elements are alive, %zu are in the forests", m.op,
                     elem::live - before, m.nodes.size());
        }
        for (int t = 0; t < m.K; ++t) m.op = "everything", m.sizes(t);
        for (int a = 0; a < m.K; ++a)
            for (int b = 0; b < m.K; ++b) {
                const bool both_empty = m.root[a]->kids.empty() && m.root[b]->kids.empty();
                VF_CHECK((*m.f[a] == *m.f[b]) == (a == b || both_empty), "equal", "== of forests %d and %d", a, b);
                VF_CHECK((*m.f[a] != *m.f[b]) != (*m.f[a] == *m.f[b]), "equal", "!= of forests %d and %d", a, b);
            }
        m.finish();
    }
    VF_CHECK(elem::live == before, "live", "%ld elements are left when the forests are gone", elem::live - before);
}
VF_SCENARIO(short_, 40000, 1500000) { history(c, c.r.range(3, 20), 60); }
VF_SCENARIO(long_, 5000, 150000) { history(c, c.r.range(40, 120), c.r.chance(50) ? 10 : 80); }

// more nodes than small counters or the stack hold: nested, side by side, or at random
VF_SCENARIO(large, 3, 60) {
    using F = stlab::forest<elem>;
    const long before = elem::live;
    {
        const int n = c.r.range(66000, 80000), kind = c.r.range(0, 2);
        std::vector<int> v; // -1: a trailing edge
        int open = 0, todo = n;
        while (todo > 0 || open > 0) {
            const bool down = todo > 0 && (open == 0 || (kind == 0 ? true : kind == 1 ? false : c.r.chance(50)));
            if (down)
                v.push_back(n - todo), ++open, --todo;
            else
                v.push_back(-1), --open;
        }
        F f;
        {
            auto p = f.end();
            for (int x : v) {
                if (x >= 0)
                    p = stlab::trailing_of(f.insert(p, elem(x)));
                else
                    ++p;
            }
        }
        const auto check = [&](const F& x, std::size_t from, std::size_t to, const char* op) {
            std::size_t k = from;
            auto i = x.begin();
            for (; i != x.end(); ++i, ++k) {
                if (k >= to) fail("endless", "a large forest is longer than it should be after %s", op);
                const bool lead = stlab::is_leading(i);
                if (lead != (v[k] >= 0) || (lead && (*i).id != v[k])) fail("order", "position %zu of a large forest differs after %s", k, op);
            }
            VF_CHECK(k == to, "order", "a large forest ends after %zu of %zu after %s", k - from, to - from, op);
            while (k-- > from) {
                --i;
                if (stlab::is_leading(i) != (v[k] >= 0)) fail("order_back", "position %zu of a large forest differs on the way back after %s", k, op);
            }
            VF_CHECK(i == x.begin(), "order_back", "the way back through a large forest is longer after %s", op);
            VF_CHECK(x.size() == (to - from) / 2 && x.empty() == (to == from), "size", "size() is %zu of %zu after %s", x.size(), (to - from) / 2, op);
            event(to - from);
        };
        const auto live = [&](long want, const char* op) {
            VF_CHECK(elem::live - before == want, "live", "%ld elements of %ld are alive after %s", elem::live - before, want, op);
        };
        check(f, 0, v.size(), "insertion");
        live(n, "insertion");
        {
            F g(f);
            check(g, 0, v.size(), "a copy");
            live(2L * n, "a copy");
            VF_CHECK(g == f && !(g != f), "equal", "a copy of a large forest differs");
            // some of the trees move to another forest
            std::size_t cut = 0;
            int depth = 0;
            auto last = stlab::child_begin(g.root());
            const auto upto = c.r.below(v.size() + 1);
            for (std::size_t k = 0; k < v.size(); ++k) {
                depth += v[k] >= 0 ? 1 : -1;
                if (depth == 0 && k < upto) cut = k + 1, ++last;
            }
            F h;
            h.splice(h.end(), g, stlab::child_begin(g.root()), last);
            check(h, 0, cut, "splicing into it");
            check(g, cut, v.size(), "splicing from it");
            live(2L * n, "splicing");
            F moved(std::move(h));
            check(moved, 0, cut, "a move");
            g.splice(g.begin(), moved);
            check(g, 0, v.size(), "splicing back");
            VF_CHECK(moved.empty() && moved.size() == 0, "size", "a forest is not empty after splicing it");
            g.clear();
            check(g, 0, 0, "clear()");
            live(n, "clear()");
            g = f;
            check(g, 0, v.size(), "copy assignment");
            g.erase(g.begin(), g.end());
            check(g, 0, 0, "erase");
            live(n, "erase");
            g = f; // destroyed as it is
        }
        live(n, "destruction");
        check(f, 0, v.size(), "everything");
        c.see(static_cast<std::uint64_t>(n * 3 + kind));
        c.nontrivial = true;
    }
    VF_CHECK(elem::live == before, "live", "%ld elements are left when the forests are gone", elem::live - before);
}
