// Trees of tasks on the default executor, with exact accounting of runs and of live callables.
#pragma once
#include "vf.hpp"

#include <stlab/concurrency/await.hpp>
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/concurrency/future.hpp>
#include <stlab/concurrency/immediate_executor.hpp>
#include <stlab/pre_exit.hpp>

namespace vf {

inline thread_local int t_submitting = 0; // this thread is inside a submitting call

struct pool_case;
struct node {
    pool_case* c = nullptr;
    int priority = 1, size = 0, spin = 0, nap_us = 0;
    bool awaits = false; // waits for its last child
    bool later = false;  // submits its children from a new thread of its own, which it joins
    std::vector<node*> children;
    node* parent = nullptr;
    std::atomic<int> runs{0}, live{0}, made{0};
};

struct pool_case {
    std::deque<node> nodes;
    std::vector<node*> roots;
    gate ran, gone;
    std::atomic<int> early{0};
    node* make(rng& r, int depth, int& budget, int& awaits) {
        node& n = nodes.emplace_back();
        n.c = this;
        n.priority = static_cast<int>(r.below(3));
        n.size = static_cast<int>(r.below(4));
        if (r.chance(15)) n.spin = r.range(1, 60);
        if (r.chance(4)) n.nap_us = r.range(1, 200);
        n.later = r.chance(3);
        --budget;
        if (depth > 0)
            for (int k = r.range(0, 4); k > 0 && budget > 0; --k) {
                node* x = make(r, depth - 1, budget, awaits);
                x->parent = &n;
                n.children.push_back(x);
            }
        if (!n.children.empty() && awaits > 0 && r.chance(15)) {
            --awaits;
            n.awaits = true;
        }
        return &n;
    }
};

struct token {
    node* n;
    explicit token(node* x) : n(x) {
        n->live.fetch_add(1, std::memory_order_relaxed);
        n->made.fetch_add(1, std::memory_order_relaxed);
    }
    token(token&& x) noexcept : n(std::exchange(x.n, nullptr)) {}
    token(const token& x) = delete;
    ~token() {
        if (n) {
            auto* c = n->c;
            n->live.fetch_sub(1, std::memory_order_relaxed);
            c->gone.add();
        }
    }
};

void run_node(node& n);

template <int N>
struct body {
    token t;
    unsigned char fill[N ? N : 1];
    explicit body(node* n) : t(n) { memset(fill, static_cast<int>(reinterpret_cast<std::uintptr_t>(n) >> 4) & 255, sizeof fill); }
    body(body&&) noexcept = default;
    void operator()() noexcept {
        VF_CHECK(t.n != nullptr, "moved", "the executor invoked a task that had been moved from");
        const auto x = static_cast<unsigned char>((reinterpret_cast<std::uintptr_t>(t.n) >> 4) & 255);
        for (auto ch : fill) VF_CHECK(ch == x, "corrupt", "the callable of a task changed");
        run_node(*t.n);
    }
};

template <class E>
void submit_on(E e, node& n) {
    ++t_submitting;
    switch (n.size) {
    case 0: e(body<0>(&n)); break;
    case 1: e(body<40>(&n)); break;
    case 2: e(body<500>(&n)); break;
    default: e(stlab::task<void() noexcept>(body<100>(&n)));
    }
    --t_submitting;
}
inline void submit(node& n) {
    if (n.priority == 0)
        submit_on(stlab::high_executor, n);
    else if (n.priority == 1)
        submit_on(stlab::default_executor, n);
    else
        submit_on(stlab::low_executor, n);
}
template <class E>
stlab::future<int> submit_async(E e, node& n) {
    ++t_submitting;
    auto f = stlab::async(e, [b = body<8>(&n)]() mutable {
        b();
        return 5;
    });
    --t_submitting;
    return f;
}

inline void run_node(node& n) {
    VF_CHECK(t_submitting == 0, "in submit", "a task ran inside the call that submits one");
    const int k = n.runs.fetch_add(1, std::memory_order_relaxed);
    VF_CHECK(k == 0, "twice", "a task ran twice");
    event();
    if (n.spin) spin_us(n.spin);
    auto kids = [&n] {
        for (std::size_t i = 0; i < n.children.size(); ++i) {
            if (n.awaits && i + 1 == n.children.size()) continue;
            submit(*n.children[i]);
        }
    };
    if (n.later)
        std::thread(kids).join();
    else
        kids();
    if (n.awaits) {
        auto& x = *n.children.back();
        auto f = x.priority == 0 ? submit_async(stlab::high_executor, x) :
                 x.priority == 1 ? submit_async(stlab::default_executor, x) :
                                   submit_async(stlab::low_executor, x);
        const int v = stlab::await(std::move(f));
        VF_CHECK(v == 5 && x.runs.load() == 1, "await", "await returned %d while its task ran %d times", v,
                 x.runs.load());
    }
    if (n.nap_us) std::this_thread::sleep_for(std::chrono::microseconds(n.nap_us));
    n.c->ran.add();
}

} // namespace vf
