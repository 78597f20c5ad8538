// T01: task<> against a reference model over random histories.
#include <cstring>
#include "vf.hpp"

#include <stlab/concurrency/task.hpp>
#include <array>
#include <string>
#include <typeinfo>
using namespace vf;
using namespace stlab;

namespace {
// Functors which know their address, their identity, and whether they are valid.
std::map<int, int> g_valid; // id -> number of valid instances
long g_live = 0;            // all instances, also moved-from ones
bool g_throw_copy = false;
int g_last = -1;            // id of the last functor invoked
int g_calls = 0;

// a value without alignment: only callables which have none are stored within a task
template <class X>
struct bytes {
    unsigned char b[sizeof(X)];
    bytes(X x) { std::memcpy(b, &x, sizeof x); }
    operator X() const {
        X x;
        std::memcpy(&x, b, sizeof x);
        return x;
    }
    bytes& operator++() { return *this = X(*this) + 1; }
};
template <bool P, class X>
using maybe_bytes = std::conditional_t<P, bytes<X>, X>;

template <bool P>
struct core_ {
    maybe_bytes<P, const core_*> self;
    maybe_bytes<P, int> id;
    bool valid = true;
    explicit core_(int i) : self(this), id(i) {
        ++g_live;
        ++g_valid[int(id)];
    }
    core_(const core_& x) : self(this), id(x.id), valid(x.valid) {
        x.check();
        if (g_throw_copy) throw 42;
        ++g_live;
        if (valid) ++g_valid[int(id)];
    }
    core_(core_&& x) noexcept : self(this), id(x.id), valid(x.valid) {
        x.check();
        x.valid = false;
        ++g_live;
    }
    core_& operator=(const core_&) = delete;
    ~core_() {
        check();
        --g_live;
        if (valid) --g_valid[int(id)];
        self = nullptr;
    }
    void check() const { VF_CHECK(self == this, "relocated", "a callable was destroyed, torn or moved without its constructor"); }
    void use() const {
        check();
        VF_CHECK(valid, "moved", "callable %d was invoked after it had been moved from", id);
        event();
        g_last = id;
        ++g_calls;
    }
};
using core = core_<false>;
using byte_core = core_<true>;
template <class Core>
struct move_only_ : Core {
    explicit move_only_(int i) : Core(i) {}
    move_only_(move_only_&&) noexcept = default;
};
using move_only_core = move_only_<core>;
using move_only_byte_core = move_only_<byte_core>;

// N bytes on top of the base, A alignment, S signature index
template <int N, int A, class Base, class Sig>
struct fn;
#define VF_FN(NOEX)                                                                                        \
    template <int N, int A, class Base, class R, class... Args>                                            \
    struct alignas(A) fn<N, A, Base, R(Args...) NOEX> {                                                    \
        Base b;                                                                                            \
        std::array<unsigned char, N> fill;                                                                 \
        maybe_bytes<A == 1, int> calls = 0;                                                                                     \
        explicit fn(int id) : b(id) { fill.fill(static_cast<unsigned char>(id * 7 + 1)); }                 \
        R operator()(Args... a) NOEX {                                                                     \
            VF_CHECK(reinterpret_cast<std::uintptr_t>(this) % A == 0, "align", "a callable is misaligned"); \
            for (auto x : fill)                                                                            \
                VF_CHECK(x == static_cast<unsigned char>(int(b.id) * 7 + 1), "torn", "a callable changed");     \
            b.use();                                                                                       \
            ++calls;                                                                                       \
            return act<R>(b.id, calls, std::forward<Args>(a)...);                                          \
        }                                                                                                  \
    };
// what an invocation does
template <class R, class... Args>
R act(int id, int calls, Args&&... a);
template <>
int act<int>(int id, int calls, int&& x) {
    if (x == 13) throw std::string("thirteen");
    return id * 1000 + calls * 10 + x % 10;
}
template <>
void act<void>(int, int) {}
template <>
std::unique_ptr<int> act<std::unique_ptr<int>>(int id, int, std::unique_ptr<int>&& p, int& n) {
    n += id;
    *p += id;
    return std::move(p);
}
template <>
int& act<int&>(int id, int, int& x) {
    x = id;
    return x;
}
template <>
const std::string& act<const std::string&>(int, int, const std::string& s) { return s; }
VF_FN()
VF_FN(noexcept)

// all the types of functor for a signature
template <class Sig, int K>
struct kind;
template <class Sig>
struct kind<Sig, 0> { using type = fn<1, 8, core, Sig>; };
template <class Sig>
struct kind<Sig, 1> { using type = fn<16, 8, core, Sig>; };  // just fits or not
template <class Sig>
struct kind<Sig, 2> { using type = fn<28, 8, core, Sig>; };
template <class Sig>
struct kind<Sig, 3> { using type = fn<500, 8, core, Sig>; };
template <class Sig>
struct kind<Sig, 4> { using type = fn<4, 64, core, Sig>; };
template <class Sig>
struct kind<Sig, 5> { using type = fn<4, 8, move_only_core, Sig>; };
template <class Sig>
struct kind<Sig, 6> { using type = fn<200, 32, move_only_core, Sig>; };
template <class Sig>
struct kind<Sig, 7> { using type = fn<20, 16, core, Sig>; };
template <class Sig>
struct kind<Sig, 8> { using type = fn<1, 1, byte_core, Sig>; };
template <class Sig>
struct kind<Sig, 9> { using type = fn<31, 1, byte_core, Sig>; };  // just fits
template <class Sig>
struct kind<Sig, 10> { using type = fn<32, 1, byte_core, Sig>; }; // just does not
template <class Sig>
struct kind<Sig, 11> { using type = fn<9, 1, move_only_byte_core, Sig>; };
constexpr int n_kinds = 12;
template <class Sig, class F>
void with_kind(int k, F&& f) {
    switch (k) {
    case 0: f.template operator()<typename kind<Sig, 0>::type>(); break;
    case 1: f.template operator()<typename kind<Sig, 1>::type>(); break;
    case 2: f.template operator()<typename kind<Sig, 2>::type>(); break;
    case 3: f.template operator()<typename kind<Sig, 3>::type>(); break;
    case 4: f.template operator()<typename kind<Sig, 4>::type>(); break;
    case 5: f.template operator()<typename kind<Sig, 5>::type>(); break;
    case 6: f.template operator()<typename kind<Sig, 6>::type>(); break;
    case 7: f.template operator()<typename kind<Sig, 7>::type>(); break;
    case 8: f.template operator()<typename kind<Sig, 8>::type>(); break;
    case 9: f.template operator()<typename kind<Sig, 9>::type>(); break;
    case 10: f.template operator()<typename kind<Sig, 10>::type>(); break;
    default: f.template operator()<typename kind<Sig, 11>::type>(); break;
    }
}

int fp_int(int x) {
    g_last = -2;
    ++g_calls;
    return x + 1;
}
void fp_void() {
    g_last = -2;
    ++g_calls;
}
void fp_void_nx() noexcept { fp_void(); }
std::unique_ptr<int> fp_up(std::unique_ptr<int> p, int&) {
    g_last = -2;
    ++g_calls;
    return p;
}
int& fp_ref(int& x) {
    g_last = -2;
    ++g_calls;
    return x;
}
const std::string& fp_cs(const std::string& s) {
    g_last = -2;
    ++g_calls;
    return s;
}
template <class Sig>
struct tr;
template <>
struct tr<int(int)> { static constexpr auto fp = &fp_int; static constexpr bool nx = false; using fun = int(int); };
template <>
struct tr<void()> { static constexpr auto fp = &fp_void; static constexpr bool nx = false; using fun = void(); };
template <>
struct tr<void() noexcept> { static constexpr auto fp = &fp_void_nx; static constexpr bool nx = true; using fun = void(); };
template <>
struct tr<std::unique_ptr<int>(std::unique_ptr<int>, int&)> { static constexpr auto fp = &fp_up; static constexpr bool nx = false; using fun = std::unique_ptr<int>(std::unique_ptr<int>, int&); };
template <>
struct tr<int&(int&)> { static constexpr auto fp = &fp_ref; static constexpr bool nx = false; using fun = int&(int&); };
template <>
struct tr<const std::string&(const std::string&)> { static constexpr auto fp = &fp_cs; static constexpr bool nx = false; using fun = const std::string&(const std::string&); };

// what a task holds
struct held {
    int id = -1;    // functor id; -1 nothing, -2 function pointer
    int kind = -1;
    int calls = 0;
    bool moved = false; // moved from, unspecified
};

template <class Sig>
struct machine {
    using T = task<Sig>;
    ctx& c;
    rng& r;
    std::vector<std::optional<T>> t;
    std::vector<held> h;
    int next = 0;
    machine(ctx& x) : c(x), r(x.r), t(5), h(5) {
        for (auto& x : t) x.emplace();
    }
    std::size_t slot() { return r.below(t.size()); }
    void invoke(std::size_t i) {
        auto& x = *t[i];
        auto& m = h[i];
        g_last = -1;
        const int before = g_calls;
        bool empty = false;
        auto expect = [&] {
            if (m.id == -1) {
                VF_CHECK(empty, "empty", "invoking an empty task did not throw bad_function_call");
                VF_CHECK(g_calls == before, "empty", "invoking an empty task invoked a callable");
            } else {
                VF_CHECK(!empty, "empty", "a task that holds callable %d threw bad_function_call", m.id);
                VF_CHECK(g_last == m.id && g_calls == before + 1, "wrong", "a task that holds callable %d invoked %d, %d times", m.id,
                         g_last, g_calls - before);
            }
        };
        if constexpr (std::is_same_v<Sig, int(int)>) {
            const int a = r.chance(10) ? 13 : static_cast<int>(r.below(1000)) * 100 + 7;
            try {
                const int v = x(a);
                if (m.id >= 0) ++m.calls;
                expect();
                const int w = m.id == -2 ? a + 1 : m.id * 1000 + m.calls * 10 + a % 10;
                VF_CHECK(v == w, "result", "a task returned %d instead of %d", v, w);
            } catch (const std::string& s) {
                if (m.id >= 0) ++m.calls;
                expect();
                VF_CHECK(a == 13 && m.id >= 0 && s == "thirteen", "exception", "unexpected exception");
            } catch (const std::bad_function_call&) {
                empty = true;
                expect();
            }
        } else if constexpr (std::is_same_v<Sig, std::unique_ptr<int>(std::unique_ptr<int>, int&)>) {
            auto p = std::make_unique<int>(5);
            int* raw = p.get();
            int n = 1;
            try {
                auto q = x(std::move(p), n);
                expect();
                VF_CHECK(q.get() == raw && *q == (m.id == -2 ? 5 : 5 + m.id) && n == (m.id == -2 ? 1 : 1 + m.id), "result",
                         "a move-only argument or a reference was not passed on");
            } catch (const std::bad_function_call&) {
                empty = true;
                expect();
            }
        } else if constexpr (std::is_same_v<Sig, int&(int&)>) {
            int n = 4711;
            try {
                static_assert(std::is_same_v<decltype(x(n)), int&>, "the result of a task is passed on as it is");
                int& v = x(n);
                expect();
                VF_CHECK(&v == &n && n == (m.id == -2 ? 4711 : m.id), "result", "a reference was not passed on");
            } catch (const std::bad_function_call&) {
                empty = true;
                expect();
            }
        } else if constexpr (std::is_same_v<Sig, const std::string&(const std::string&)>) {
            const std::string s(40, 'x');
            try {
                const std::string& v = x(s);
                expect();
                VF_CHECK(&v == &s, "result", "a reference was not passed on");
            } catch (const std::bad_function_call&) {
                empty = true;
                expect();
            }
        } else if constexpr (std::is_same_v<Sig, void()>) {
            try {
                x();
                expect();
            } catch (const std::bad_function_call&) {
                empty = true;
                expect();
            }
        } else {
            static_assert(noexcept(x()));
            if (m.id != -1) {
                x();
                expect();
            }
        }
    }
    void look(std::size_t i) {
        auto& x = *t[i];
        const auto& m = h[i];
        if (m.moved) return;
        const bool on = m.id != -1;
        const auto& cx = x;
        VF_CHECK(static_cast<bool>(x) == on && (x == nullptr) == !on && (nullptr == x) == !on && (x != nullptr) == on &&
                     (nullptr != x) == on,
                 "bool", "a task that holds %s says otherwise", on ? "something" : "nothing");
        if (!on) {
            VF_CHECK(x.target_type() == typeid(void), "type", "an empty task has a target type");
            VF_CHECK(x.template target<int>() == nullptr, "target", "an empty task has a target");
        } else if (m.id == -2) {
            using P = std::decay_t<decltype(tr<Sig>::fp)>;
            using S = std::function<typename tr<Sig>::fun>;
            const bool p = x.target_type() == typeid(P) && x.template target<P>() && *x.template target<P>() == tr<Sig>::fp;
            const bool s = x.target_type() == typeid(S) && x.template target<S>() != nullptr;
            VF_CHECK(p || s, "target", "the target of a task is not the function it holds");
            VF_CHECK((x.template target<typename kind<Sig, 0>::type>() == nullptr), "target", "a task has a target of a wrong type");
        } else {
            with_kind<Sig>(m.kind, [&]<class F>() {
                VF_CHECK(x.target_type() == typeid(F), "type", "the target type of a task is wrong");
                auto* p = x.template target<F>();
                auto* q = cx.template target<F>();
                VF_CHECK(p && p == q && p->b.id == m.id && p->b.valid && p->b.self == &p->b, "target",
                         "the target of a task is not the callable it holds");
                VF_CHECK(x.template target<int>() == nullptr, "target", "a task has a target of a wrong type");
            });
        }
    }
    void fresh(std::size_t i) {
        auto& x = *t[i];
        const int how = static_cast<int>(r.below(10));
        if (how == 0) {
            if (r.chance(50))
                x = nullptr;
            else
                x = T{nullptr};
            h[i] = held{};
        } else if (how == 1) {
            std::decay_t<decltype(tr<Sig>::fp)> none = nullptr;
            if (r.chance(50))
                x = none;
            else
                x = T(none);
            h[i] = held{};
        } else if (how == 2) {
            if (r.chance(50))
                x = tr<Sig>::fp;
            else
                t[i].emplace(tr<Sig>::fp);
            h[i] = held{-2};
        } else if (how == 3) {
            if constexpr (!tr<Sig>::nx) {
                using S = std::function<typename tr<Sig>::fun>;
                if (r.chance(50)) {
                    x = S{};
                    h[i] = held{};
                } else {
                    x = S{tr<Sig>::fp};
                    h[i] = held{-2};
                }
            }
        } else {
            const int k = static_cast<int>(r.below(n_kinds)), id = next++;
            with_kind<Sig>(k, [&]<class F>() {
                const int way = static_cast<int>(r.below(4));
                F f(id);
                if constexpr (std::is_copy_constructible_v<F>) {
                    if (way == 0) {
                        const bool thr = r.chance(40);
                        if (thr) {
                            g_throw_copy = true;
                            bool threw = false;
                            try {
                                if (r.chance(50))
                                    x = f;
                                else
                                    T y(f);
                            } catch (int) {
                                threw = true;
                            }
                            g_throw_copy = false;
                            VF_CHECK(threw, "throw", "the exception of a copy constructor was lost");
                            return; // x is as it was
                        }
                        x = f; // copied
                        VF_CHECK(f.b.valid, "stolen", "a task moved from an lvalue");
                        h[i] = held{id, k};
                        return;
                    }
                }
                switch (way) {
                case 1: x = std::move(f); break;
                case 2: t[i].emplace(std::move(f)); break;
                default: x = T(std::move(f));
                }
                h[i] = held{id, k};
            });
        }
    }
    void verify() {
        event(t.size());
        std::map<int, int> want;
        for (auto& m : h)
            if (m.id >= 0 && !m.moved) ++want[m.id];
        for (auto& [id, n] : g_valid) {
            auto it = want.find(id);
            VF_CHECK(n == (it == want.end() ? 0 : it->second), "alive", "%d valid instances of callable %d instead of %d", n, id,
                     it == want.end() ? 0 : it->second);
        }
        long need = 0;
        for (auto& m : h)
            if (m.id >= 0 && !m.moved) ++need;
        VF_CHECK(g_live >= need && g_live <= static_cast<long>(t.size()), "live", "%ld callables are alive in %zu tasks", g_live, t.size());
    }
    void step() {
        const auto i = slot();
        switch (r.below(9)) {
        case 0:
        case 1:
        case 2: fresh(i); break;
        case 3: { // move assignment
            const auto j = slot();
            if (i == j) break;
            *t[i] = std::move(*t[j]);
            h[i] = h[j];
            if (h[j].id != -1) h[j].moved = true;
            break;
        }
        case 4: { // move construction
            const auto j = slot();
            if (i == j) break;
            T x(std::move(*t[j]));
            h[i] = h[j];
            if (h[j].id != -1) h[j].moved = true;
            t[i].emplace(std::move(x));
            break;
        }
        case 5: { // swap
            const auto j = slot();
            if (i == j) break;
            using std::swap;
            switch (r.below(3)) {
            case 0: t[i]->swap(*t[j]); break;
            case 1: swap(*t[i], *t[j]); break;
            default: std::swap(*t[i], *t[j]);
            }
            std::swap(h[i], h[j]);
            break;
        }
        case 6:
            t[i].emplace();
            h[i] = held{};
            break;
        default:
            if (!h[i].moved) invoke(i);
        }
        for (std::size_t k = 0; k < t.size(); ++k) look(k);
        verify();
    }
    void run(int n) {
        g_valid.clear();
        VF_CHECK(g_live == 0, "live", "%ld callables are left from the previous case", g_live);
        while (n--) {
            step();
            c.see(static_cast<std::uint64_t>(g_last + 3));
        }
        t.clear();
        for (auto& [id, k] : g_valid) VF_CHECK(k == 0, "alive", "callable %d is alive after all tasks are gone", id);
        VF_CHECK(g_live == 0, "live", "%ld callables are alive after all tasks are gone", g_live);
        c.nontrivial = true;
        c.note = std::to_string(next) + " callables in 5 tasks";
    }
};
} // namespace

#ifndef VF_PART
#define VF_PART 0
#endif
#if VF_PART == 0
VF_SCENARIO(by_value, 4000, 200000) { machine<int(int)>(c).run(c.r.range(5, 60)); }
VF_SCENARIO(move_only, 3000, 150000) { machine<std::unique_ptr<int>(std::unique_ptr<int>, int&)>(c).run(c.r.range(5, 60)); }
#elif VF_PART == 1
VF_SCENARIO(reference, 3000, 150000) { machine<int&(int&)>(c).run(c.r.range(5, 60)); }
VF_SCENARIO(const_reference, 3000, 150000) { machine<const std::string&(const std::string&)>(c).run(c.r.range(5, 60)); }
#else
VF_SCENARIO(nothing, 3000, 150000) { machine<void()>(c).run(c.r.range(5, 60)); }
VF_SCENARIO(noexcept_, 3000, 150000) { machine<void() noexcept>(c).run(c.r.range(5, 60)); }
#endif
