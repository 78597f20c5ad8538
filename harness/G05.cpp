// G05: algorithms over forests and node ranges, against definitions on flat sequences.
#include "vf.hpp"

#include <algorithm>
#include <forward_list>
#include <iterator>
#include <list>
#include <string>
#include <vector>

#include <stlab/algorithm/reverse.hpp>
#include <stlab/forest.hpp>
#include <stlab/forest_algorithms.hpp>
#include <stlab/iterator/set_next.hpp>
using namespace vf;
using namespace stlab;

namespace {
constexpr auto L = forest_edge::leading;
constexpr auto T = forest_edge::trailing;
using flat = std::vector<std::optional<int>>; // value: leading edge, none: trailing edge
using FI = forest<int>;

flat random_flat(rng& r, int n, int values = 1000) { // n nodes
    flat v;
    int open = 0, todo = n, deep = r.range(20, 80);
    while (todo > 0 || open > 0) {
        if (todo > 0 && (open == 0 || r.chance(deep))) {
            v.push_back(r.range(0, values));
            ++open, --todo;
        } else {
            v.push_back(std::nullopt);
            --open;
        }
    }
    return v;
}
// builds it node by node in one of several ways, with known or unknown size
template <class X = int, class M>
void build(rng& r, const flat& v, forest<X>& f, M m) {
    switch (r.below(3)) {
    case 0: { // in order
        auto p = f.end();
        for (auto& x : v) {
            if (x)
                p = trailing_of(f.insert(p, m(*x)));
            else
                ++p;
        }
    } break;
    case 1: { // from the end
        auto p = f.end();
        std::vector<std::size_t> open;
        std::vector<int> value(v.size()); // of the node that a trailing edge closes
        for (std::size_t i = 0; i < v.size(); ++i) {
            if (v[i])
                open.push_back(i);
            else
                value[i] = *v[open.back()], open.pop_back();
        }
        std::vector<typename forest<X>::iterator> nodes;
        for (std::size_t i = v.size(); i-- > 0;) {
            if (!v[i]) {
                nodes.push_back(f.insert(p, m(value[i])));
                p = trailing_of(nodes.back());
            } else {
                p = nodes.back();
                nodes.pop_back();
            }
        }
    } break;
    default: { // trees are built apart and spliced: the size is unknown
        std::size_t i = 0;
        while (i < v.size()) {
            forest<X> g;
            auto p = g.end();
            int depth = 0;
            do {
                if (v[i])
                    p = trailing_of(g.insert(p, m(*v[i]))), ++depth;
                else
                    ++p, --depth;
                ++i;
            } while (depth > 0);
            f.splice(f.end(), g, child_begin(g.root()), child_end(g.root()));
        }
    }
    }
}
void build(rng& r, const flat& v, FI& f) { build(r, v, f, [](int x) { return x; }); }

template <class Q>
flat read(const Q& f) {
    flat v;
    for (auto i = f.begin(); i != f.end(); ++i) {
        if (is_leading(i))
            v.push_back(*i);
        else
            v.push_back(std::nullopt);
    }
    return v;
}
std::string show(const flat& v) {
    std::string s;
    for (auto& x : v) s += x ? "(" + std::to_string(*x) : std::string(")");
    return s.substr(0, 150);
}
#define SAME(got, want, key, ...)                                                                                           \
    do {                                                                                                                    \
        const flat g_ = (got), w_ = (want);                                                                                 \
        if (g_ != w_) {                                                                                                     \
            char b_[200];                                                                                                   \
            std::snprintf(b_, sizeof b_, __VA_ARGS__);                                                                      \
            vf::fail(key, "%s: %s instead of %s", b_, show(g_).c_str(), show(w_).c_str());                                  \
        }                                                                                                                   \
        event(w_.size() + 1);                                                                                               \
    } while (0)

flat shape(flat v) {
    for (auto& x : v)
        if (x) x = 0;
    return v;
}
// another forest which differs little, or not
flat vary(rng& r, flat v) {
    switch (r.below(8)) {
    case 0: return v;
    case 1: // another value
        for (int i = 0; i < 5 && !v.empty(); ++i) {
            auto& x = r.pick(v);
            if (x) {
                ++*x;
                break;
            }
        }
        return v;
    case 2: // one more node
    {
        auto i = r.below(v.size() + 1);
        v.insert(v.begin() + static_cast<long>(i), {std::optional<int>(7), std::nullopt});
        return v;
    }
    case 3: // one leaf less
        for (std::size_t i = v.size(); i-- > 1;)
            if (v[i - 1] && !v[i] && r.chance(40)) {
                v.erase(v.begin() + static_cast<long>(i) - 1, v.begin() + static_cast<long>(i) + 1);
                break;
            }
        return v;
    case 4: // the same nodes, another shape: )( becomes ()... a sibling becomes a child
        for (std::size_t i = 1; i < v.size(); ++i)
            if (!v[i - 1] && v[i] && r.chance(40)) {
                // "( ) (x )" to "( (x ) )": move the closing edge behind the sibling
                int d = 0;
                std::size_t j = i;
                do {
                    d += v[j] ? 1 : -1;
                    ++j;
                } while (d > 0);
                v.insert(v.begin() + static_cast<long>(j), std::nullopt);
                v.erase(v.begin() + static_cast<long>(i) - 1);
                break;
            }
        return v;
    case 5: { // a prefix
        int d = 0;
        std::vector<std::size_t> ends{0};
        for (std::size_t i = 0; i < v.size(); ++i) {
            d += v[i] ? 1 : -1;
            if (d == 0) ends.push_back(i + 1);
        }
        v.resize(r.pick(ends));
        return v;
    }
    case 6: // more at the end
        v.push_back(9);
        v.push_back(std::nullopt);
        return v;
    default: return flat();
    }
}
} // namespace

VF_SCENARIO(compare, 50000, 2000000) {
    const flat a = random_flat(c.r, c.r.chance(15) ? 0 : c.r.range(1, 25), 20), b = vary(c.r, a);
    FI x, y;
    build(c.r, a, x), build(c.r, b, y);
    if (c.r.chance(30)) (void)x.size();
    if (c.r.chance(30)) (void)y.size();
    SAME(read(x), a, "build", "a built forest");
    SAME(read(y), b, "build", "a built forest");
    for (int k = 0; k < 2; ++k) {
        const bool s = shape(a) == shape(b), e = a == b;
        const bool vx = x.size_valid(), vy = y.size_valid();
        VF_CHECK(forests::equal_shape(x, y) == s, "equal_shape", "equal_shape of %s and %s is %d (sizes known: %d, %d)", show(a).c_str(), show(b).c_str(), int(!s), int(vx), int(vy));
        VF_CHECK(forests::equal_shape(y, x) == s, "equal_shape", "equal_shape of %s and %s is %d (sizes known: %d, %d)", show(b).c_str(), show(a).c_str(), int(!s), int(vy), int(vx));
        VF_CHECK((x == y) == e && (y == x) == e && (x != y) == !e, "equal", "%s == %s is %d", show(a).c_str(), show(b).c_str(), int(!e));
        event(4);
        c.see(vx * 8 + vy * 4 + s * 2 + e);
    }
    forest<std::string> z; // other elements
    build(c.r, b, z, [](int v) { return std::to_string(v); });
    VF_CHECK(forests::equal_shape(x, z) == (shape(a) == shape(b)), "equal_shape", "equal_shape of forests of different types");
    VF_CHECK(forests::equal_shape(x, x) && x == x, "equal", "a forest differs from itself");
    c.see(a.size()), c.see(b.size());
    c.nontrivial = !a.empty() && !b.empty();
    c.note = show(a) + " and " + show(b);
}

// nested, side by side or random, more nodes than small counters or the stack hold
VF_SCENARIO(large, 3, 60) {
    const int n = c.r.range(66000, 80000), kind = c.r.range(0, 2);
    flat a;
    if (kind == 0) {
        for (int i = 0; i < n; ++i) a.push_back(c.r.range(0, 9));
        a.resize(2 * a.size());
    } else if (kind == 1) {
        for (int i = 0; i < n; ++i) a.push_back(c.r.range(0, 9)), a.push_back(std::nullopt);
    } else
        a = random_flat(c.r, n, 9);
    FI x, y;
    build(c.r, a, x);
    if (c.r.chance(50)) (void)x.size();
    SAME(read(x), a, "build", "a large forest");
    flat v;
    forests::flatten(x.begin(), x.end(), std::back_inserter(v));
    SAME(v, a, "flatten", "flatten of a large forest");
    forests::unflatten(v.begin(), v.end(), y);
    SAME(read(y), a, "unflatten", "unflatten of a large forest");
    VF_CHECK(x == y && forests::equal_shape(x, y) && y.size() == a.size() / 2, "unflatten", "unflatten of a large forest differs from the original");
    // one value, or one edge, far behind
    flat b = a;
    const auto k = b.size() - 1 - c.r.below(20);
    const bool value = b[k].has_value();
    if (value)
        b[k] = *b[k] + 100;
    else
        b.insert(b.begin() + static_cast<long>(k), {5, std::nullopt});
    FI z;
    build(c.r, b, z);
    if (c.r.chance(50)) (void)z.size();
    VF_CHECK(!(x == z) && x != z, "equal", "large forests that differ at %zu of %zu are equal", k, a.size());
    VF_CHECK(forests::equal_shape(x, z) == value, "equal_shape", "equal_shape of large forests that differ at %zu of %zu", k, a.size());
    forest<long> w;
    forests::transcribe(x, forests::transcriber(w), [](const int& q) { return q + 7L; });
    VF_CHECK(w.size() == a.size() / 2 && forests::equal_shape(x, w), "transcribe", "transcribe of a large forest changes its shape");
    auto j = w.begin();
    for (auto i = x.begin(); i != x.end(); ++i, ++j)
        if (is_leading(i)) VF_CHECK(*j == *i + 7, "transcribe", "transcribe of a large forest gives other values");
    c.see(static_cast<std::uint64_t>(n * 3 + kind));
    c.nontrivial = true;
}

VF_SCENARIO(flatten, 20000, 800000) {
    const flat a = random_flat(c.r, c.r.chance(10) ? 0 : c.r.range(1, 40));
    FI x;
    build(c.r, a, x);
    const FI& cx = x;
    flat v;
    auto o = forests::flatten(cx.begin(), cx.end(), std::back_inserter(v));
    SAME(v, a, "flatten", "flatten");
    *o++ = 5; // the result continues the output
    VF_CHECK(v.size() == a.size() + 1 && v.back() == 5, "result", "the result of flatten");
    v.pop_back();
    flat w(a.size() + 3, 77);
    auto e = forests::flatten(x.begin(), x.end(), w.begin());
    VF_CHECK(e == w.begin() + static_cast<long>(a.size()), "result", "the result of flatten into an array");
    VF_CHECK(std::count(e, w.end(), std::optional<int>(77)) == 3, "overrun", "flatten wrote behind its end");
    SAME(flat(w.begin(), e), a, "flatten", "flatten into an array");
    // back
    FI y;
    forests::unflatten(v.begin(), v.end(), y);
    SAME(read(y), a, "unflatten", "unflatten");
    VF_CHECK(x == y && forests::equal_shape(x, y) && y.size() == a.size() / 2, "unflatten", "unflatten of flatten differs from the original");
    // before what is there
    const flat b = random_flat(c.r, c.r.range(0, 10));
    FI z;
    build(c.r, b, z);
    forests::unflatten(v.begin(), v.end(), z);
    flat ab = a;
    ab.insert(ab.end(), b.begin(), b.end());
    SAME(read(z), ab, "unflatten", "unflatten into %s", show(b).c_str());
    VF_CHECK(z.size() == ab.size() / 2, "size", "size after unflatten");
    // a subtree
    if (!a.empty()) {
        auto i = cx.begin();
        auto k = c.r.below(a.size());
        for (std::size_t j = 0; j < k; ++j) ++i;
        i = leading_of(i);
        flat s;
        forests::flatten(i, std::next(trailing_of(i)), std::back_inserter(s));
        FI t;
        forests::unflatten(s.begin(), s.end(), t);
        SAME(read(t), s, "unflatten", "unflatten of a subtree");
        FI t2;
        t2.insert(t2.end(), child_iterator<FI::const_iterator>(i), ++child_iterator<FI::const_iterator>(i));
        VF_CHECK(t == t2, "subtree", "flatten of a subtree");
    }
    c.see(a.size()), c.see(b.size()), c.see(static_cast<std::uint64_t>(c.r.s));
    c.nontrivial = a.size() > 2;
    c.note = show(a);
}

VF_SCENARIO(transcribe, 20000, 800000) {
    const flat a = random_flat(c.r, c.r.chance(10) ? 0 : c.r.range(1, 40));
    FI x;
    build(c.r, a, x);
    const int add = c.r.range(1, 50);
    // to another type
    forest<std::string> s;
    long calls = 0;
    if (c.r.chance(50))
        forests::transcribe(x, forests::transcriber(s), [&](const int& v) { return ++calls, std::to_string(v + add); });
    else
        forests::transcribe(x.begin(), x.end(), forests::transcriber(s), [&](const int& v) { return ++calls, std::to_string(v + add); });
    flat g;
    for (auto i = s.begin(); i != s.end(); ++i)
        if (is_leading(i))
            g.push_back(std::stoi(*i) - add);
        else
            g.push_back(std::nullopt);
    SAME(g, a, "transcribe", "transcribe to strings");
    VF_CHECK(calls == long(a.size() / 2), "calls", "the projection was called %ld times for %zu elements", calls, a.size() / 2);
    VF_CHECK(forests::equal_shape(x, s), "shape", "transcribe changed the shape");
    // results which are references, and must not be moved from
    {
        forest<std::string> t;
        if (c.r.chance(50))
            forests::transcribe(s, forests::transcriber(t), [](const std::string& v) -> const std::string& { return v; });
        else
            forests::transcribe(s.begin(), s.end(), forests::transcriber(t), [](std::string& v) -> std::string& { return v; });
        VF_CHECK(s == t && forests::equal_shape(s, t), "transcribe", "transcribe of references");
        for (auto i = s.begin(); i != s.end(); ++i) VF_CHECK(!i->empty(), "source", "transcribe changed its source");
    }
    // a filtered range
    {
        int m = c.r.range(2, 4);
        auto pass = [&](int v) { return v % m != 0; };
        flat want;
        int skip = 0;
        std::vector<bool> open;
        for (auto& v : a) {
            if (v) {
                bool k = skip == 0 && pass(*v);
                open.push_back(k);
                if (k)
                    want.push_back(*v + add);
                else
                    ++skip;
            } else {
                if (open.back())
                    want.push_back(std::nullopt);
                else
                    --skip;
                open.pop_back();
            }
        }
        FI y;
        auto f = filter_fullorder_range(x, pass);
        forests::transcribe(f.begin(), f.end(), forests::transcriber(y), [&](int v) { return v + add; });
        SAME(read(y), want, "filter", "transcribe of a filtered range");
    }
    // a reversed range is the mirror image
    {
        flat want;
        std::vector<int> open;
        std::vector<int> close(a.size());
        for (std::size_t i = 0; i < a.size(); ++i) {
            if (a[i])
                open.push_back(*a[i]);
            else
                close[i] = open.back(), open.pop_back();
        }
        for (std::size_t i = a.size(); i-- > 0;)
            if (a[i])
                want.push_back(std::nullopt);
            else
                want.push_back(close[i]);
        FI y;
        auto f = reverse_fullorder_range(x);
        forests::transcribe(f.begin(), f.end(), forests::transcriber(y), [&](int v) { return v; });
        SAME(read(y), want, "mirror", "transcribe of a reversed range");
    }
    // with a predicate of one's own, over any sequence
    {
        std::vector<std::pair<bool, int>> in;
        for (auto& v : a) in.emplace_back(bool(v), v ? *v : -1);
        FI y;
        forests::transcribe(in.begin(), in.end(), forests::transcriber(y), [&](const auto& p) { return p.second + add; },
                            [](const auto& i) { return i->first; });
        flat want = a;
        for (auto& v : want)
            if (v) *v += add;
        SAME(read(y), want, "predicate", "transcribe with a predicate");
    }
    c.see(a.size()), c.see(static_cast<std::uint64_t>(add)), c.see(static_cast<std::uint64_t>(c.r.s));
    c.nontrivial = a.size() > 2;
    c.note = show(a);
}

// sequences and node ranges -----------------------------------------------------------------------
namespace {
struct lnode {
    int v;
    lnode *next = nullptr, *prior = nullptr;
};
struct fwd { // a forward node iterator
    using value_type = int;
    using difference_type = std::ptrdiff_t;
    using reference = int&;
    using pointer = int*;
    using iterator_category = std::forward_iterator_tag;
    lnode* n = nullptr;
    int& operator*() const { return n->v; }
    fwd& operator++() {
        n = n->next;
        return *this;
    }
    fwd operator++(int) {
        auto r = *this;
        n = n->next;
        return r;
    }
    friend bool operator==(const fwd& a, const fwd& b) { return a.n == b.n; }
    friend bool operator!=(const fwd& a, const fwd& b) { return a.n != b.n; }
};
struct bidi : fwd {
    using iterator_category = std::bidirectional_iterator_tag;
    bidi() = default;
    explicit bidi(lnode* x) { n = x; }
    bidi& operator++() {
        n = n->next;
        return *this;
    }
    bidi operator++(int) {
        auto r = *this;
        n = n->next;
        return r;
    }
    bidi& operator--() {
        n = n->prior;
        return *this;
    }
    bidi operator--(int) {
        auto r = *this;
        n = n->prior;
        return r;
    }
};
template <class It>
struct chain {
    using iterator = It;
    std::vector<lnode> s; // the last one is the end
    It f, l;
    It begin() { return f; }
    It end() { return l; }
};
} // namespace
namespace stlab {
inline namespace STLAB_VERSION_NAMESPACE() {
namespace unsafe {
template <>
struct set_next_fn<fwd> {
    void operator()(const fwd& x, const fwd& y) const { x.n->next = y.n; }
};
template <>
struct set_next_fn<bidi> {
    void operator()(const bidi& x, const bidi& y) const {
        x.n->next = y.n;
        y.n->prior = x.n;
    }
};
} // namespace unsafe
} // namespace STLAB_VERSION_NAMESPACE()
} // namespace stlab

namespace {
template <class It>
std::vector<int> values(It f, It l) {
    std::vector<int> v;
    for (int guard = 0; f != l; ++f) {
        VF_CHECK(f.n && ++guard < 1000, "chain", "a chain of nodes does not reach its end");
        v.push_back(*f);
    }
    return v;
}
template <class It>
void node_ranges(ctx& c) {
    // head, n nodes, end
    const int n = c.r.range(0, 12);
    std::vector<lnode> s(static_cast<std::size_t>(n) + 2);
    for (std::size_t i = 0; i < s.size(); ++i) {
        s[i].v = static_cast<int>(i);
        s[i].next = i + 1 < s.size() ? &s[i + 1] : nullptr;
        s[i].prior = i ? &s[i - 1] : nullptr;
    }
    auto at = [&](int i) {
        It x;
        x.n = &s[static_cast<std::size_t>(i)];
        return x;
    };
    auto prior_ok = [&](It f, It l) {
        if constexpr (std::is_same_v<It, bidi>)
            for (; f != l; ++f) VF_CHECK(f.n->next->prior == f.n, "prior", "a prior link is wrong");
    };
    const int a = c.r.range(1, n + 1), b = c.r.range(a, n + 1);
    std::vector<int> want;
    for (int i = a; i < b; ++i) want.insert(want.begin(), i);
    const int kind = c.r.range(0, 5);
    switch (kind) {
    case 0: {
        It r = unsafe::reverse_nodes(at(a), at(b));
        VF_CHECK(values(r, at(b)) == want, "reverse_nodes", "reverse_nodes of [%d, %d) of %d", a, b, n);
        prior_ok(r, at(b));
        break;
    }
    case 1: { // the reversed range followed by another one
        lnode e1{100}, e2{101};
        e1.next = &e2;
        e2.prior = &e1;
        It x, y;
        x.n = &e1, y.n = &e2;
        It r = unsafe::reverse_append(at(a), at(b), x);
        auto w = want;
        w.push_back(100);
        VF_CHECK(values(r, y) == w, "reverse_append", "reverse_append of [%d, %d) of %d", a, b, n);
        prior_ok(r, x);
        VF_CHECK(s[static_cast<std::size_t>(b)].v == b, "reverse_append", "the end was changed");
        break;
    }
    case 2: {
        chain<It> ch;
        ch.f = at(a), ch.l = at(b);
        It r = unsafe::reverse_nodes(ch);
        VF_CHECK(values(r, at(b)) == want, "reverse_nodes", "reverse_nodes of a range");
        lnode e1{100};
        break;
    }
    case 3: { // [f, l] is put behind location
        std::vector<lnode> o(static_cast<std::size_t>(c.r.range(1, 4)));
        for (std::size_t i = 0; i < o.size(); ++i) {
            o[i].v = 200 + static_cast<int>(i);
            o[i].next = i + 1 < o.size() ? &o[i + 1] : nullptr;
            o[i].prior = i ? &o[i - 1] : nullptr;
        }
        It f, l;
        f.n = &o.front(), l.n = &o.back();
        int k = c.r.range(0, n);
        unsafe::splice_node_range(at(k), f, l);
        std::vector<int> w;
        for (int i = 0; i <= k; ++i) w.push_back(i);
        for (auto& x : o) w.push_back(x.v);
        for (int i = k + 1; i <= n; ++i) w.push_back(i);
        VF_CHECK(values(at(0), at(n + 1)) == w, "splice_node_range", "splice_node_range after %d of %d", k, n);
        prior_ok(at(0), at(n + 1));
        break;
    }
    case 4: {
        if (n == 0) break;
        int k = c.r.range(0, n - 1);
        unsafe::skip_next_node(at(k));
        std::vector<int> w;
        for (int i = 0; i <= n; ++i)
            if (i != k + 1) w.push_back(i);
        VF_CHECK(values(at(0), at(n + 1)) == w, "skip_next_node", "skip_next_node of %d of %d", k, n);
        prior_ok(at(0), at(n + 1));
        break;
    }
    default:
        if constexpr (std::is_same_v<It, bidi>) {
            if (n == 0) break;
            int k = c.r.range(1, n);
            unsafe::skip_node(at(k));
            std::vector<int> w;
            for (int i = 0; i <= n; ++i)
                if (i != k) w.push_back(i);
            VF_CHECK(values(at(0), at(n + 1)) == w, "skip_node", "skip_node of %d of %d", k, n);
            prior_ok(at(0), at(n + 1));
        }
    }
    event(static_cast<std::uint64_t>(n) + 1);
    c.see(static_cast<std::uint64_t>(kind * 10000 + n * 400 + a * 20 + b));
    c.nontrivial = n > 0;
}
template <class V>
void sequences(ctx& c) {
    V v;
    const int n = c.r.range(0, 15);
    for (int i = 0; i < n; ++i) v.push_back(c.r.range(0, 99));
    std::vector<int> o(v.begin(), v.end());
    const int m = c.r.range(0, n);
    V u = v;
    auto f = u.begin(), l = u.end(), mid = std::next(u.begin(), m);
    auto p = reverse_until(f, mid, l);
    // the outer min(m, n - m) pairs are exchanged, the rest is unchanged, and one end of it is m
    const int k = std::min(m, n - m);
    std::vector<int> w = o;
    for (int i = 0; i < k; ++i) std::swap(w[static_cast<std::size_t>(i)], w[static_cast<std::size_t>(n - 1 - i)]);
    VF_CHECK(std::vector<int>(u.begin(), u.end()) == w, "reverse_until", "reverse_until of %d elements until %d", n, m);
    VF_CHECK(p.first == mid || p.second == mid, "reverse_until", "reverse_until of %d elements until %d: neither end is the middle", n, m);
    VF_CHECK(std::distance(u.begin(), p.first) == k && std::distance(p.second, u.end()) == k, "reverse_until", "reverse_until of %d elements until %d: another range remains", n, m);
    // reversing what remains completes it
    std::reverse(p.first, p.second);
    std::vector<int> rv(o.rbegin(), o.rend());
    VF_CHECK(std::vector<int>(u.begin(), u.end()) == rv, "reverse_until", "reverse_until is not the first part of reversing");
    u = v;
    stlab::reverse(u);
    VF_CHECK(std::vector<int>(u.begin(), u.end()) == rv, "reverse", "reverse of %d elements", n);
    std::vector<int> out;
    stlab::reverse_copy(v, std::back_inserter(out));
    VF_CHECK(out == rv && std::vector<int>(v.begin(), v.end()) == o, "reverse_copy", "reverse_copy of %d elements", n);
    out.clear();
    stlab::reverse_copy(static_cast<const V&>(v), std::back_inserter(out));
    VF_CHECK(out == rv, "reverse_copy", "reverse_copy of %d elements", n);
    event(4);
    c.see(static_cast<std::uint64_t>(n * 100 + m));
    c.nontrivial = n > 1;
}
} // namespace

VF_SCENARIO(node_range, 4000, 40000) {
    if (c.r.chance(50))
        node_ranges<fwd>(c);
    else
        node_ranges<bidi>(c);
}
VF_SCENARIO(sequence, 4000, 40000) {
    if (c.r.chance(50))
        sequences<std::vector<int>>(c);
    else
        sequences<std::list<int>>(c);
}
