// Random histories of operations on several forests, applied to a model of ordered trees as well.
#pragma once
#include "vf.hpp"

#include <algorithm>
#include <iterator>

#include <stlab/forest.hpp>
#include <stlab/forest_algorithms.hpp>

namespace vf {

// elements -----------------------------------------------------------------------------------------
struct elem {
    static inline long live = 0, copies = 0, moves = 0, destroyed = 0;
    static inline long throw_after = -1;   // the copy (or move, or allocation) at which to throw
    static inline bool throw_moves = false; // moves count, too
    const elem* self;
    int id;
    bool valid = true;
    explicit elem(int i = 0) : self(this), id(i) { ++live; }
    elem(const elem& x) : self(this), id(x.id), valid(x.valid) {
        x.check();
        if (throw_after >= 0 && throw_after-- == 0) throw 42;
        ++live;
        ++copies;
    }
    elem(elem&& x) noexcept(false) : self(this), id(x.id), valid(x.valid) {
        x.check();
        if (throw_moves && throw_after >= 0 && throw_after-- == 0) throw 42;
        x.valid = false;
        ++live;
        ++moves;
    }
    elem& operator=(const elem& x) {
        check(), x.check();
        if (throw_after >= 0 && throw_after-- == 0) throw 42;
        id = x.id;
        valid = x.valid;
        ++copies;
        return *this;
    }
    elem& operator=(elem&& x) noexcept {
        check(), x.check();
        id = x.id;
        valid = x.valid;
        if (this != &x) x.valid = false;
        ++moves;
        return *this;
    }
    ~elem() {
        check();
        self = nullptr;
        --live;
        ++destroyed;
    }
    void check() const { VF_CHECK(self == this, "element", "an element was torn, moved bytewise or is destroyed"); }
    friend bool operator==(const elem& a, const elem& b) {
        a.check(), b.check();
        return a.id == b.id;
    }
    friend bool operator!=(const elem& a, const elem& b) { return !(a == b); }
};

// model --------------------------------------------------------------------------------------------
struct mnode {
    int id = -1; // -1: root
    mnode* parent = nullptr;
    std::vector<mnode*> kids;
    int tree = 0;
    std::size_t index() const {
        return static_cast<std::size_t>(std::find(parent->kids.begin(), parent->kids.end(), this) - parent->kids.begin());
    }
    bool inside(const mnode* a) const { // of the subtree of a
        for (auto p = this; p; p = p->parent)
            if (p == a) return true;
        return false;
    }
    std::size_t count() const {
        std::size_t n = 1;
        for (auto k : kids) n += k->count();
        return n;
    }
    int depth() const { // children of the root have depth 0
        int d = -1;
        for (auto p = parent; p; p = p->parent) ++d;
        return d;
    }
};

using edge_t = stlab::forest_edge;
constexpr auto L = edge_t::leading;
constexpr auto T = edge_t::trailing;

struct mpos {
    mnode* n = nullptr;
    edge_t e = L;
    friend bool operator==(const mpos& a, const mpos& b) { return a.n == b.n && a.e == b.e; }
    friend bool operator!=(const mpos& a, const mpos& b) { return !(a == b); }
};

inline mpos mnext(mpos p) {
    if (p.e == L) return p.n->kids.empty() ? mpos{p.n, T} : mpos{p.n->kids.front(), L};
    auto i = p.n->index() + 1;
    return i < p.n->parent->kids.size() ? mpos{p.n->parent->kids[i], L} : mpos{p.n->parent, T};
}
inline mpos mprev(mpos p) {
    if (p.e == T) return p.n->kids.empty() ? mpos{p.n, L} : mpos{p.n->kids.back(), T};
    auto i = p.n->index();
    return i > 0 ? mpos{p.n->parent->kids[i - 1], T} : mpos{p.n->parent, L};
}
inline void mwalk(mnode* n, std::vector<mpos>& out) { // edges below n
    for (auto k : n->kids) {
        out.push_back({k, L});
        mwalk(k, out);
        out.push_back({k, T});
    }
}

// machine ------------------------------------------------------------------------------------------
struct forests_machine {
    using F = stlab::forest<elem>;
    using I = F::iterator;
    using C = F::child_iterator;
    using CC = F::const_child_iterator;
    static constexpr int K = 3;

    ctx& c;
    rng& r;
    std::vector<std::unique_ptr<F>> f;
    std::vector<std::unique_ptr<mnode>> root;
    std::map<int, std::unique_ptr<mnode>> nodes;
    std::map<int, I> at;            // an iterator of every element, obtained when it was inserted
    std::map<int, const elem*> addr; // and its address
    int next_id = 0;
    std::string trace;

    explicit forests_machine(ctx& x) : c(x), r(x.r) {
        for (int i = 0; i < K; ++i) {
            f.push_back(std::make_unique<F>());
            root.push_back(std::make_unique<mnode>());
            root.back()->tree = i;
        }
    }
    ~forests_machine() { f.clear(); }

    // positions
    I it(mpos p) {
        if (!p.n->parent) {
            I i = f[p.n->tree]->root();
            return p.e == L ? i : f[p.n->tree]->end();
        }
        I i = at.at(p.n->id);
        i.edge() = p.e;
        return i;
    }
    template <class J>
    mpos where(int t, J i) { // of any iterator of forest t
        auto& x = *f[t];
        if (i.equal_node(x.end())) return {root[t].get(), i.edge()};
        (*i).check();
        auto n = nodes.find((*i).id);
        VF_CHECK(n != nodes.end(), "stray", "an element that should not exist: %d", (*i).id);
        return {n->second.get(), i.edge()};
    }
    static std::string show(mpos p) {
        return (p.e == L ? "leading " : "trailing ") + (p.n->parent ? std::to_string(p.n->id) : std::string("root"));
    }
    std::vector<mpos> positions(int t) { // where one can insert
        std::vector<mpos> v;
        mwalk(root[t].get(), v);
        v.push_back({root[t].get(), T});
        return v;
    }
    mpos any_position(int t) {
        auto v = positions(t);
        return r.pick(v);
    }
    mnode* any_node(int t) { // or null
        std::vector<mpos> v;
        mwalk(root[t].get(), v);
        return v.empty() ? nullptr : r.pick(v).n;
    }
    struct range {
        mnode* parent;
        std::size_t i, j;
    };
    range any_range(int t) {
        mnode* p = root[t].get();
        if (r.chance(60))
            if (auto n = any_node(t)) p = n;
        std::size_t i = r.below(p->kids.size() + 1), j = i + r.below(p->kids.size() - i + 1);
        return {p, i, j};
    }
    I first_of(range g) { return g.i < g.parent->kids.size() ? it({g.parent->kids[g.i], L}) : it({g.parent, T}); }
    I last_of(range g) { return g.j < g.parent->kids.size() ? it({g.parent->kids[g.j], L}) : it({g.parent, T}); }
    mpos mfirst_of(range g) { return g.i < g.parent->kids.size() ? mpos{g.parent->kids[g.i], L} : mpos{g.parent, T}; }

    // model operations
    mnode* m_insert(mpos p, int id) {
        auto n = std::make_unique<mnode>();
        n->id = id;
        mnode* x = n.get();
        nodes[id] = std::move(n);
        m_link(p, {x});
        return x;
    }
    void m_link(mpos p, std::vector<mnode*> what) {
        mnode* parent = p.e == L ? p.n->parent : p.n;
        auto where = p.e == L ? parent->kids.begin() + static_cast<long>(p.n->index()) : parent->kids.end();
        parent->kids.insert(where, what.begin(), what.end());
        for (auto x : what) x->parent = parent, m_tree(x, parent->tree);
    }
    static void m_tree(mnode* x, int t) {
        x->tree = t;
        for (auto k : x->kids) m_tree(k, t);
    }
    void m_forget(mnode* x) {
        at.erase(x->id);
        addr.erase(x->id);
        nodes.erase(x->id);
    }
    void m_erase(mnode* x) { // the children take its place
        auto p = x->parent;
        auto i = static_cast<long>(x->index());
        p->kids.erase(p->kids.begin() + i);
        p->kids.insert(p->kids.begin() + i, x->kids.begin(), x->kids.end());
        for (auto k : x->kids) k->parent = p;
        m_forget(x);
    }
    void m_clear(int t) {
        std::vector<mpos> v;
        mwalk(root[t].get(), v);
        root[t]->kids.clear();
        for (auto p : v)
            if (p.e == L) at.erase(p.n->id), addr.erase(p.n->id);
        std::vector<int> ids;
        for (auto p : v)
            if (p.e == L) ids.push_back(p.n->id);
        for (auto i : ids) nodes.erase(i);
    }
    // the elements of a copied subtree get new identities
    void adopt(I i, mnode* n) {
        at.emplace(n->id, i);
        (*i).id = n->id;
        addr[n->id] = &*i;
    }
    mnode* m_copy(const mnode* x) {
        auto n = std::make_unique<mnode>();
        n->id = next_id++;
        mnode* y = n.get();
        nodes[y->id] = std::move(n);
        for (auto k : x->kids) {
            auto z = m_copy(k);
            z->parent = y;
            y->kids.push_back(z);
        }
        return y;
    }
    // after copying subtrees `from` to `to` (model), whose first real position is i: check the copied
    // values and rename them
    I adopt_copy(I i, const std::vector<mnode*>& from, const std::vector<mnode*>& to, int t) {
        std::vector<mpos> a, b;
        for (auto x : from) a.push_back({x, L}), mwalk(x, a), a.push_back({x, T});
        for (auto x : to) b.push_back({x, L}), mwalk(x, b), b.push_back({x, T});
        for (std::size_t k = 0; k < a.size(); ++k, ++i) {
            VF_CHECK(!i.equal_node(f[t]->end()), "copy", "a copy ends after %zu of %zu edges", k, a.size());
            VF_CHECK(i.edge() == b[k].e, "copy", "a copy has the wrong edge at %zu of %zu", k, a.size());
            VF_CHECK((*i).valid, "copy", "a copied element is moved from");
            if (a[k].e == L) {
                VF_CHECK((*i).id == a[k].n->id, "copy", "a copied element is %d instead of %d", (*i).id, a[k].n->id);
                adopt(i, b[k].n);
            } else {
                VF_CHECK((*i).id == b[k].n->id, "copy", "a copied subtree is not closed where it should be");
            }
        }
        return i;
    }

    // what the last operation did, for those that observe
    const char* op = "";
    bool relinks = false; // only relinks nodes: no element is copied, moved or destroyed
    long made = 0, gone = 0; // change of the number of elements

    void say(const std::string& s) {
        trace += s;
        trace += "; ";
        static const bool show = std::getenv("VF_TRACE");
        if (show) std::fprintf(stderr, "%s\n", s.c_str());
    }

    void step() {
        const int t = r.range(0, K - 1);
        auto& x = *f[t];
        relinks = false;
        made = gone = 0;
        switch (r.below(26)) {
        case 0:
        case 1:
        case 2:
        case 3: {
            op = "insert";
            mpos p = any_position(t);
            int id = next_id++;
            say("insert " + std::to_string(id) + " before " + show(p));
            I i;
            if (r.chance(50)) {
                i = x.insert(it(p), elem(id));
            } else {
                elem e(id);
                i = x.insert(it(p), e);
                VF_CHECK(e.valid, "stolen", "insert moved from an lvalue");
            }
            adopt(i, m_insert(p, id));
            VF_CHECK(i.edge() == L, "result", "insert returned a trailing edge");
            made = 1;
        } break;
        case 4: {
            op = "push_front";
            elem e(next_id++);
            say("push_front to " + std::to_string(t));
            mpos p = mnext({root[t].get(), L});
            x.push_front(e);
            adopt(x.begin(), m_insert(p, e.id));
            made = 1;
        } break;
        case 5: {
            op = "push_back";
            elem e(next_id++);
            say("push_back to " + std::to_string(t));
            x.push_back(e);
            I i = x.end();
            --i;
            i.edge() = L;
            adopt(i, m_insert({root[t].get(), T}, e.id));
            made = 1;
        } break;
        case 6: {
            op = "pop_front";
            if (root[t]->kids.empty()) return;
            say("pop_front of " + std::to_string(t));
            x.pop_front();
            m_erase(root[t]->kids.front());
            gone = 1;
        } break;
        case 7: {
            op = "pop_back";
            if (root[t]->kids.empty()) return;
            say("pop_back of " + std::to_string(t));
            x.pop_back();
            m_erase(root[t]->kids.back());
            gone = 1;
        } break;
        case 8:
        case 9: {
            op = "erase";
            auto n = any_node(t);
            if (!n) return;
            mpos p{n, r.chance(50) ? L : T};
            say("erase " + show(p));
            mpos want = p.e == L ? mprev({n, L}) : mnext({n, T});
            I i = x.erase(it(p));
            m_erase(n);
            if (p.e == L) want = mnext(want);
            mpos got = where(t, i);
            VF_CHECK(got == want, "result", "erase of the %s returned the %s instead of the %s", show({p.n, p.e}).c_str(),
                     show(got).c_str(), show(want).c_str());
            gone = 1;
        } break;
        case 10: {
            op = "erase of a range";
            std::vector<mpos> v;
            mwalk(root[t].get(), v);
            v.push_back({root[t].get(), T});
            std::size_t a = r.below(v.size()), b = a + r.below(std::min<std::size_t>(v.size() - a, 14));
            say("erase [" + show(v[a]) + ", " + show(v[b]) + ")");
            I i = x.erase(it(v[a]), it(v[b]));
            mpos got = where(t, i);
            VF_CHECK(got == v[b], "result", "erase of a range returned the %s instead of the %s", show(got).c_str(), show(v[b]).c_str());
            std::set<mnode*> open;
            std::vector<mnode*> die;
            for (std::size_t k = a; k < b; ++k)
                if (v[k].e == L)
                    open.insert(v[k].n);
                else if (open.count(v[k].n))
                    die.push_back(v[k].n);
            for (auto n : die) m_erase(n);
            gone = static_cast<long>(die.size());
        } break;
        case 11: {
            op = "clear";
            if (!r.chance(20)) return;
            say("clear " + std::to_string(t));
            gone = static_cast<long>(root[t]->count()) - 1;
            x.clear();
            m_clear(t);
        } break;
        case 12: {
            op = "splice of a forest";
            int u = r.range(0, K - 1);
            if (u == t || !r.chance(50)) return;
            mpos p = any_position(t);
            say("splice forest " + std::to_string(u) + " before " + show(p));
            relinks = true;
            auto kids = root[u]->kids;
            I i = x.splice(it(p), *f[u]);
            mpos want = kids.empty() ? p : mpos{kids.front(), L};
            root[u]->kids.clear();
            m_link(p, kids);
            mpos got = where(t, i);
            VF_CHECK(got == want, "result", "splice returned the %s instead of the %s", show(got).c_str(), show(want).c_str());
        } break;
        case 13:
        case 14: {
            op = "splice of a node";
            int u = r.range(0, K - 1);
            auto n = any_node(u);
            if (!n) return;
            mpos p = any_position(t);
            if (p.n->inside(n) && p != mpos{n, L}) return;
            say("splice " + std::to_string(n->id) + " before " + show(p));
            relinks = true;
            I i = x.splice(it(p), *f[u], it({n, r.chance(50) ? L : T}));
            if (p != mpos{n, L}) {
                n->parent->kids.erase(n->parent->kids.begin() + static_cast<long>(n->index()));
                m_link(p, {n});
            }
            mpos got = where(t, i), want{n, L};
            VF_CHECK(got == want, "result", "splice returned the %s instead of the %s", show(got).c_str(), show(want).c_str());
        } break;
        case 15:
        case 16:
        case 17: {
            op = "splice of a range";
            int u = r.range(0, K - 1);
            range g = any_range(u);
            mpos p = any_position(t);
            std::vector<mnode*> what(g.parent->kids.begin() + static_cast<long>(g.i), g.parent->kids.begin() + static_cast<long>(g.j));
            bool noop = what.empty() || mfirst_of(g) == p;
            for (auto n : what)
                if (p.n->inside(n) && p != mpos{what.front(), L}) return;
            std::size_t n = 0;
            for (auto k : what) n += k->count();
            say("splice " + std::to_string(what.size()) + " children from " + show(mfirst_of(g)) + " before " + show(p));
            relinks = true;
            I i = r.chance(50) ? x.splice(it(p), *f[u], C(first_of(g)), C(last_of(g)), n) :
                                 x.splice(it(p), *f[u], C(first_of(g)), C(last_of(g)));
            mpos want = what.empty() ? p : mpos{what.front(), L};
            if (!noop) {
                // the position may be the one which follows the range
                g.parent->kids.erase(g.parent->kids.begin() + static_cast<long>(g.i), g.parent->kids.begin() + static_cast<long>(g.j));
                m_link(p, what);
            }
            mpos got = where(t, i);
            VF_CHECK(got == want, "result", "splice returned the %s instead of the %s", show(got).c_str(), show(want).c_str());
        } break;
        case 18: {
            op = "insert_parent";
            range g = any_range(t);
            elem e(next_id++);
            say("insert_parent " + std::to_string(e.id) + " of " + std::to_string(g.j - g.i) + " children from " + show(mfirst_of(g)));
            I i = x.insert_parent(C(first_of(g)), C(last_of(g)), e);
            std::vector<mnode*> what(g.parent->kids.begin() + static_cast<long>(g.i), g.parent->kids.begin() + static_cast<long>(g.j));
            mpos p = g.j < g.parent->kids.size() ? mpos{g.parent->kids[g.j], L} : mpos{g.parent, T};
            auto n = m_insert(p, e.id);
            g.parent->kids.erase(g.parent->kids.begin() + static_cast<long>(g.i), g.parent->kids.begin() + static_cast<long>(g.j));
            m_link({n, T}, what);
            adopt(i, n);
            VF_CHECK(i.edge() == L, "result", "insert_parent returned a trailing edge");
            made = 1;
        } break;
        case 19: {
            op = "reverse";
            range g = any_range(t);
            say("reverse " + std::to_string(g.j - g.i) + " children from " + show(mfirst_of(g)));
            relinks = true;
            x.reverse(C(first_of(g)), C(last_of(g)));
            std::reverse(g.parent->kids.begin() + static_cast<long>(g.i), g.parent->kids.begin() + static_cast<long>(g.j));
        } break;
        case 20:
        case 21: {
            op = "insert of a range";
            int u = r.range(0, K - 1);
            range g = any_range(u);
            std::vector<mnode*> what(g.parent->kids.begin() + static_cast<long>(g.i), g.parent->kids.begin() + static_cast<long>(g.j));
            mpos p = any_position(t);
            for (auto n : what)
                if (p.n->inside(n) && p != mpos{what.front(), L}) return;
            if (!what.empty() && mnext({what.back(), T}) == p) return; // would copy the copies
            std::size_t total = 0;
            for (auto n : what) total += n->count();
            if (total > 40) return;
            say("insert copies of " + std::to_string(what.size()) + " children from " + show(mfirst_of(g)) + " before " + show(p));
            mpos before = mprev(p);
            I b = it(before);
            I i = x.insert(it(p), CC(first_of(g)), CC(last_of(g)));
            std::vector<mnode*> to;
            for (auto n : what) to.push_back(m_copy(n));
            m_link(p, to);
            ++b;
            I e = adopt_copy(b, what, to, t);
            VF_CHECK(e == i && e == it(p), "result", "insert of a range returned another position");
            made = static_cast<long>(total);
        } break;
        case 22: {
            op = "copy";
            int u = r.range(0, K - 1);
            if (u == t || root[u]->count() > 60) return;
            say("forest " + std::to_string(t) + " = copy of " + std::to_string(u));
            gone = static_cast<long>(root[t]->count()) - 1;
            made = static_cast<long>(root[u]->count()) - 1;
            if (r.chance(50)) {
                *f[t] = *static_cast<const F*>(f[u].get());
            } else {
                auto y = std::make_unique<F>(*static_cast<const F*>(f[u].get()));
                f[t] = std::move(y);
            }
            m_clear(t);
            std::vector<mnode*> to;
            for (auto n : root[u]->kids) to.push_back(m_copy(n));
            m_link({root[t].get(), T}, to);
            I e = adopt_copy(f[t]->begin(), root[u]->kids, to, t);
            VF_CHECK(e == f[t]->end(), "copy", "a copied forest is longer than the original");
        } break;
        case 23: {
            op = "move";
            int u = r.range(0, K - 1);
            if (u == t) return;
            say("forest " + std::to_string(t) + " = moved " + std::to_string(u));
            gone = static_cast<long>(root[t]->count()) - 1;
            relinks = gone == 0;
            if (r.chance(50)) {
                *f[t] = std::move(*f[u]);
            } else {
                auto y = std::make_unique<F>(std::move(*f[u]));
                f[t] = std::move(y);
            }
            m_clear(t);
            auto kids = root[u]->kids;
            root[u]->kids.clear();
            m_link({root[t].get(), T}, kids);
        } break;
        case 24: {
            op = "swap";
            int u = r.range(0, K - 1);
            if (u == t) return;
            say("swap " + std::to_string(t) + " and " + std::to_string(u));
            relinks = true;
            if (r.chance(50))
                f[t]->swap(*f[u]);
            else
                std::swap(*f[t], *f[u]);
            auto a = root[t]->kids, b = root[u]->kids;
            root[t]->kids.clear(), root[u]->kids.clear();
            m_link({root[t].get(), T}, b);
            m_link({root[u].get(), T}, a);
        } break;
        default: {
            op = "child_adaptor";
            auto n = any_node(t);
            if (!n) return;
            I i = it({n, r.chance(50) ? L : T});
            stlab::child_adaptor<F> a(x, i);
            switch (r.below(4)) {
            case 0: {
                elem e(next_id++);
                say("push_back child " + std::to_string(e.id) + " of " + std::to_string(n->id));
                a.push_back(e);
                I j = it({n, T});
                --j;
                j.edge() = L;
                adopt(j, m_insert({n, T}, e.id));
                made = 1;
                break;
            }
            case 1: {
                elem e(next_id++);
                say("push_front child " + std::to_string(e.id) + " of " + std::to_string(n->id));
                mpos p = mnext({n, L});
                a.push_front(e);
                I j = it({n, L});
                ++j;
                adopt(j, m_insert(p, e.id));
                made = 1;
                break;
            }
            case 2:
                if (n->kids.empty()) return;
                say("pop_back child of " + std::to_string(n->id));
                VF_CHECK(a.back().id == n->kids.back()->id && a.front().id == n->kids.front()->id, "children", "front or back of the children of %d", n->id);
                a.pop_back();
                m_erase(n->kids.back());
                gone = 1;
                break;
            default:
                if (n->kids.empty()) return;
                say("pop_front child of " + std::to_string(n->id));
                VF_CHECK(a.back().id == n->kids.back()->id && a.front().id == n->kids.front()->id, "children", "front or back of the children of %d", n->id);
                a.pop_front();
                m_erase(n->kids.front());
                gone = 1;
            }
        }
        }
        event();
        c.see(static_cast<std::uint64_t>(op[0]) * 131 + static_cast<std::uint64_t>(op[4]));
    }

    // the traversal of every forest is that of the model
    void traverse(int t) {
        auto& x = *f[t];
        std::vector<mpos> v;
        mwalk(root[t].get(), v);
        std::size_t k = 0;
        const F& cx = x;
        for (auto i = cx.begin(); i != cx.end(); ++i, ++k) {
            VF_CHECK(k < v.size(), "longer", "after %s: the forest has more than the %zu edges of the model", op, v.size());
            mpos p = where(t, i);
            VF_CHECK(p == v[k], "order", "after %s: edge %zu is the %s instead of the %s", op, k, show(p).c_str(), show(v[k]).c_str());
            VF_CHECK((*i).valid, "moved", "after %s: an element is moved from", op);
        }
        VF_CHECK(k == v.size(), "shorter", "after %s: the forest has %zu of the %zu edges of the model", op, k, v.size());
        for (I i = x.end(); k > 0;) {
            --i;
            --k;
            mpos p = where(t, i);
            VF_CHECK(p == v[k], "order_back", "after %s: going back, edge %zu is the %s instead of the %s", op, k, show(p).c_str(), show(v[k]).c_str());
        }
        event(2 * v.size());
    }
    void sizes(int t) {
        const F& x = *f[t];
        std::size_t n = root[t]->count() - 1;
        VF_CHECK(x.empty() == (n == 0), "empty", "after %s: empty() is %d of %zu elements", op, int(x.empty()), n);
        if (r.chance(50)) {
            VF_CHECK(x.size() == n, "size", "after %s: size() is %zu of %zu elements", op, x.size(), n);
            VF_CHECK(x.size_valid(), "size", "after %s and size(), the size is unknown", op);
        }
        if (n) {
            VF_CHECK(x.front().id == root[t]->kids.front()->id && x.back().id == root[t]->kids.back()->id, "ends",
                     "after %s: front() is %d and back() is %d instead of %d and %d", op, x.front().id, x.back().id,
                     root[t]->kids.front()->id, root[t]->kids.back()->id);
            VF_CHECK(&f[t]->front() == &x.front() && &f[t]->back() == &x.back(), "ends", "front or back differ if not const");
        }
        VF_CHECK(std::next(x.root()) == x.begin() && x.root().edge() == L && f[t]->root().equal_node(f[t]->end()), "root", "after %s: root", op);
        event();
    }
    void finish() {
        c.nontrivial = next_id > 3;
        c.note = trace.substr(0, 400);
    }
};

} // namespace vf
