// E02: order of the tasks that wait for one worker (built with a pool of one).
#include "vf.hpp"

#include <stlab/concurrency/default_executor.hpp>
#include <stlab/concurrency/future.hpp>
#include <stlab/concurrency/immediate_executor.hpp>
#include <stlab/concurrency/ready_future.hpp>
using namespace vf;
using namespace stlab;

namespace {
template <class F>
void submit(int prio, F f) {
    switch (prio) {
    case 0: high_executor(std::move(f)); break;
    case 1: default_executor(std::move(f)); break;
    default: low_executor(std::move(f));
    }
}
// occupies the worker until released
struct plug {
    gate in, out;
    void push() {
        default_executor([this]() noexcept {
            in.add();
            out.wait(1);
        });
        in.wait(1);
    }
};
// a task, what it submits, in submission order
struct spec {
    int id, prio;
    std::vector<spec> kids;
};
spec gen(rng& r, int depth, int& budget, int& id, int skew) {
    --budget;
    spec s{id++, skew == 0 ? static_cast<int>(r.below(3)) : skew == 1 ? static_cast<int>(r.below(2)) * 2 : 1, {}};
    if (depth > 0)
        for (int k = r.range(0, 3); k > 0 && budget > 0; --k) s.kids.push_back(gen(r, depth - 1, budget, id, skew));
    return s;
}
} // namespace

// one submitter at a time: the order is exactly known
VF_SCENARIO(exact, 600, 20000) {
    perturb_level(static_cast<int>(c.r.below(3)));
    int budget = c.r.range(2, c.r.chance(10) ? 2000 : 120), id = 0;
    const int skew = static_cast<int>(c.r.below(4));
    const int depth = c.r.range(0, 5);
    std::vector<spec> roots;
    while (budget > 0) roots.push_back(gen(c.r, depth, budget, id, skew));
    std::vector<int> want, got;
    {
        // model: the oldest of the most urgent
        std::deque<const spec*> q[3];
        for (auto& s : roots) q[s.prio].push_back(&s);
        for (;;) {
            auto* w = !q[0].empty() ? &q[0] : !q[1].empty() ? &q[1] : !q[2].empty() ? &q[2] : nullptr;
            if (!w) break;
            const spec* s = w->front();
            w->pop_front();
            want.push_back(s->id);
            for (auto& k : s->kids) q[k.prio].push_back(&k);
        }
    }
    gate done;
    std::function<void(const spec&)> put = [&](const spec& s) {
        submit(s.prio, [&]() noexcept {
            event();
            got.push_back(s.id);
            for (auto& k : s.kids) put(k);
            done.add();
        });
    };
    plug p;
    p.push();
    for (auto& s : roots) put(s);
    p.out.add();
    done.wait(id);
    VF_CHECK(got.size() == want.size(), "count", "%zu of %zu tasks ran", got.size(), want.size());
    for (std::size_t i = 0; i < got.size(); ++i)
        VF_CHECK(got[i] == want[i], "order", "position %zu of %zu: task %d started where %d was due", i, got.size(), got[i],
                 want[i]);
    c.nontrivial = id > 2 && skew < 2;
    for (auto x : got) c.see(static_cast<std::uint64_t>(x));
    c.note = std::to_string(id) + " tasks, " + std::to_string(roots.size()) + " waiting at the start";
}

// several submitters while the worker runs: nothing may start before what is known to wait
VF_SCENARIO(racing, 150, 5000) {
    perturb_level(static_cast<int>(c.r.below(4)));
    const int nt = c.r.range(1, 4), per = c.r.range(5, 150);
    struct rec {
        int who, prio, seq;
        std::atomic<std::uint64_t> submitted{0}; // stamp after the submitting call
        std::uint64_t begin = 0, end = 0;
        int pos = -1;
    };
    std::deque<rec> rs;
    gate done;
    int pos = 0;
    std::vector<std::vector<rec*>> mine(static_cast<std::size_t>(nt));
    for (int t = 0; t < nt; ++t)
        for (int i = 0; i < per; ++i) {
            auto& x = rs.emplace_back();
            x.who = t;
            x.seq = i;
            x.prio = static_cast<int>(c.r.below(3));
            mine[static_cast<std::size_t>(t)].push_back(&x);
        }
    start_line go(nt);
    std::vector<std::thread> ts;
    const int slow = c.r.range(0, 30);
    for (int t = 0; t < nt; ++t)
        ts.emplace_back([&, t, r = rng(c.r.next())]() mutable {
            go.arrive();
            for (auto* x : mine[static_cast<std::size_t>(t)]) {
                submit(x->prio, [x, &pos, &done, slow]() noexcept {
                    event();
                    x->begin = stamp();
                    x->pos = pos++;
                    if (slow && x->seq % 3 == 0) spin_us(slow);
                    x->end = stamp();
                    done.add();
                });
                x->submitted = stamp();
                if (r.chance(10)) spin_us(r.range(0, 20));
            }
        });
    for (auto& t : ts) t.join();
    done.wait(nt * per);
    std::vector<rec*> by(rs.size(), nullptr);
    for (auto& x : rs) {
        VF_CHECK(x.pos >= 0 && x.pos < static_cast<int>(rs.size()) && !by[static_cast<std::size_t>(x.pos)], "count",
                 "a task did not run once");
        by[static_cast<std::size_t>(x.pos)] = &x;
    }
    // last position of each submitter and priority
    std::map<std::pair<int, int>, int> last;
    // earliest submitted not yet started, per priority
    std::set<std::pair<std::uint64_t, rec*>> wait[3];
    for (auto& x : rs) wait[x.prio].insert({x.submitted.load(), &x});
    for (std::size_t i = 0; i < by.size(); ++i) {
        rec* x = by[i];
        auto [it, fresh] = last.insert({{x->who, x->prio}, x->seq});
        if (!fresh) {
            VF_CHECK(it->second < x->seq, "fifo", "task %d of priority %d of submitter %d started after task %d", x->seq, x->prio,
                     x->who, it->second);
            it->second = x->seq;
        }
        wait[x->prio].erase({x->submitted.load(), x});
        if (i > 0) {
            const auto e = by[i - 1]->end;
            for (int p = 0; p < x->prio; ++p)
                if (!wait[p].empty()) {
                    VF_CHECK(wait[p].begin()->first > e, "priority",
                             "a task of priority %d started although one of priority %d was waiting", x->prio, p);
                }
        }
    }
    c.nontrivial = true;
    for (std::size_t i = 0; i < by.size(); ++i) c.see(static_cast<std::uint64_t>(by[i]->who * 3 + by[i]->prio));
    c.note = std::to_string(nt) + " submitters of " + std::to_string(per) + " tasks";
}

// futures: continuations and results of async keep the order of their priorities too
VF_SCENARIO(futures, 200, 6000) {
    perturb_level(static_cast<int>(c.r.below(3)));
    const int n = c.r.range(2, 40);
    std::vector<int> want[3], order;
    std::vector<future<void>> fs;
    gate done;
    plug p;
    p.push();
    for (int i = 0; i < n; ++i) {
        const int prio = static_cast<int>(c.r.below(3));
        want[prio].push_back(i);
        auto f = [&, i] {
            event();
            order.push_back(i);
            done.add();
        };
        if (c.r.chance(50)) {
            fs.push_back(prio == 0 ? async(high_executor, f) : prio == 1 ? async(default_executor, f) : async(low_executor, f));
        } else {
            auto r = make_ready_future(i, immediate_executor);
            auto g = [f](int) { f(); };
            fs.push_back(prio == 0 ? std::move(r).then(high_executor, g) :
                         prio == 1 ? std::move(r).then(default_executor, g) :
                                     std::move(r).then(low_executor, g));
        }
    }
    p.out.add();
    done.wait(n);
    std::vector<int> w;
    for (auto& x : want) w.insert(w.end(), x.begin(), x.end());
    VF_CHECK(order == w, "order", "asynchronous tasks did not start in the order of priority and submission");
    c.nontrivial = true;
    for (int x : order) c.see(static_cast<std::uint64_t>(x));
}
