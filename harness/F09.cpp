// F09: shared results are never stolen, duplicated or torn.
#include "vf_fut.hpp"
using namespace vf;
using namespace stlab;

namespace {
// A large copyable value, every consumer destroys what it got.
void consume(cval v, std::uint64_t want) {
    event();
    if (v.get() != want) fail("wrong_value", "a holder saw %llx instead of %llx", (unsigned long long)v.id, (unsigned long long)want);
    *v.heap = ~want;
    v.id = 0;
}
void read(const cval& v, std::uint64_t want) {
    event();
    if (v.get() != want) fail("wrong_value", "a holder saw %llx instead of %llx", (unsigned long long)v.id, (unsigned long long)want);
}

// Threads consume copies of one future in all ways while it is completed.
void holders(ctx& c) {
    perturb_level(1 + static_cast<int>(c.r.below(3)));
    const auto id = c.r.next() | 1;
    const int threads = 2 + static_cast<int>(c.r.below(4));
    const int each = 1 + static_cast<int>(c.r.below(4));
    const bool complete_first = c.r.chance(30);
    auto ex = make_exec(static_cast<int>(c.r.below(exec_kinds)), 0);
    auto [p, f0] = package<cval(cval)>(ex, [](cval v) { return v; });
    if (complete_first) p(cval{id});
    gate done;
    start_line line(threads + 1);
    std::vector<std::thread> th;
    std::atomic<std::uint64_t> pattern{0};
    for (int t = 0; t < threads; ++t)
        th.emplace_back([&, f = f0, r = rng(c.r.next())]() mutable {
            line.arrive();
            for (int i = 0; i < each; ++i) {
                const bool last = i + 1 == each;
                auto g = last ? std::move(f) : f;
                for (auto k = r.below(4); k; --k) perturb();
                const auto kind = r.below(9);
                pattern.fetch_add(mix(kind + static_cast<unsigned>(g.is_ready()) * 16), std::memory_order_relaxed);
                switch (kind) {
                case 0:
                    std::move(g).then([&, id](cval v) { consume(std::move(v), id), done.add(); }).detach();
                    break;
                case 1:
                    g.then([&, id](const cval& v) { read(v, id), done.add(); }).detach();
                    break;
                case 2:
                    consume(await(std::move(g)), id);
                    done.add();
                    break;
                case 3: {
                    for (;;) {
                        if (auto v = std::move(g).get_try()) {
                            consume(std::move(*v), id);
                            break;
                        }
                        std::this_thread::yield();
                    }
                    done.add();
                    break;
                }
                case 4:
                    std::move(g).recover([&, id](future<cval> x) { consume(std::move(x).get_ready(), id), done.add(); }).detach();
                    break;
                case 5:
                    g.recover(immediate_executor, [&, id](future<cval> x) {
                         read(x.get_ready(), id);
                         auto y = x;
                         consume(std::move(y).get_ready(), id);
                         read(x.get_ready(), id);
                         consume(std::move(x).get_ready(), id);
                         done.add();
                     }).detach();
                    break;
                case 6:
                    when_all(ex, [&, id](cval a, cval b) { consume(std::move(a), id), consume(std::move(b), id), done.add(); }, g, std::move(g)).detach();
                    break;
                case 7:
                    when_any(ex, [&, id](cval a, std::size_t) { consume(std::move(a), id), done.add(); }, copy(g), std::move(g)).detach();
                    break;
                default:
                    std::move(g).then(ex, [id](cval v) {
                                    read(v, id);
                                    return v;
                                })
                        .then(immediate_executor, [&, id](cval v) { consume(std::move(v), id), done.add(); })
                        .detach();
                }
            }
        });
    const bool keep = c.r.chance(50);
    future<cval> kept;
    if (keep)
        kept = std::move(f0);
    else
        f0.reset();
    line.arrive();
    for (auto k = c.r.below(16); k; --k) perturb();
    if (!complete_first) p(cval{id});
    for (auto& t : th) t.join();
    done.wait(threads * each);
    if (keep) {
        VF_CHECK(kept.is_ready(), "not_ready", "the future is not ready");
        read(kept.get_ready(), id);
        consume(std::move(kept).get_ready(), id);
    }
    c.nontrivial = true;
    c.see(pattern);
    c.note = std::to_string(threads) + " threads, " + std::to_string(each) + " consumers each";
}

// One move-only value goes to exactly one place.
void single(ctx& c) {
    perturb_level(static_cast<int>(c.r.below(4)));
    const auto id = (c.r.next() | 1) >> 4;
    const int chain = static_cast<int>(c.r.below(5));
    const long made = mval::n.made;
    auto ex = [&] { return make_exec(static_cast<int>(c.r.below(exec_kinds)), 0); };
    auto [p, f] = package<mval(mval)>(ex(), [](mval v) { return v; });
    std::thread t([&, r = rng(c.r.next()), p = std::move(p)]() mutable {
        for (auto i = r.below(10); i; --i) perturb();
        p(mval{id});
    });
    auto h = std::move(f);
    std::string path;
    for (int i = 0; i < chain; ++i) {
        const auto k = c.r.below(5);
        c.see(k);
        path += std::to_string(k);
        switch (k) {
        case 0: h = std::move(h).then(ex(), [](mval v) { return v; }); break;
        case 1: h = std::move(h).recover(ex(), [](future<mval> x) { return std::move(*std::move(x).get_try()); }); break;
        case 2: h = when_all(ex(), [](mval a, int) { return a; }, std::move(h), make_ready_future<int>(1, immediate_executor)); break;
        case 3: h = async(ex(), [x = std::move(h)]() mutable { return std::move(x); }); break;
        default: {
            std::vector<future<mval>> v;
            v.push_back(std::move(h));
            h = when_any(ex(), [](mval a, std::size_t) { return a; }, std::make_pair(v.begin(), v.end()));
        }
        }
    }
    auto v = await(std::move(h));
    t.join();
    VF_CHECK(v.get() == id, "wrong_value", "the value arrived as %llx", (unsigned long long)v.id);
    VF_CHECK(mval::n.made == made + 1, "duplicated", "%ld values were made", mval::n.made - made);
    event();
    c.nontrivial = true;
    c.note = "a move-only value went through " + path;
}

// The only holder left gets the value itself, not a copy. Single threaded.
void moved(ctx& c) {
    manual_queue q;
    const auto id = (c.r.next() | 1) >> 4;
    const int chain = 1 + static_cast<int>(c.r.below(6));
    auto [p, f] = package<cval(cval)>(q.executor(), [](cval v) { return v; });
    const bool late = c.r.chance(50);
    bool shared = c.r.chance(30);
    future<cval> other;
    auto h = std::move(f);
    if (shared) other = h;
    const long copies = cval::n.copies;
    if (!late) p(cval{id});
    for (int i = 0; i < chain; ++i) {
        const auto k = c.r.below(3);
        c.see(k);
        if (k == 0)
            h = std::move(h).then(q.executor(), [](cval v) { return v; });
        else if (k == 1)
            h = std::move(h).recover(q.executor(), [](future<cval> x) { return std::move(x).get_ready(); });
        else
            h = std::move(h).recover(q.executor(), [](future<cval> x) { return std::move(*std::move(x).get_try()); });
        if (c.r.chance(30)) q.front();
    }
    if (late) p(cval{id});
    q.drain(c.r);
    VF_CHECK(h.is_ready(), "not_ready", "the end of the chain is not ready");
    consume(std::move(h).get_ready(), id);
    const long n = cval::n.copies - copies;
    VF_CHECK(shared || n == 0, "copied", "a value with a single holder was copied %ld times", n);
    if (shared) {
        VF_CHECK(n == 1, "copied", "a value with two holders was copied %ld times", n);
        consume(std::move(other).get_ready(), id);
        VF_CHECK(cval::n.copies - copies == 1, "copied", "the last holder got a copy");
    }
    c.nontrivial = true;
    c.see(static_cast<std::uint64_t>(late * 2 + shared));
    c.note = "chain of " + std::to_string(chain) + (shared ? " from a shared future, " : ", ") + std::to_string(n) + " copies";
}
} // namespace

#if VF_PART == 0
VF_SCENARIO(concurrent_holders, 2200, 30000) { holders(c); }
#else
VF_SCENARIO(move_only_once, 1200, 16000) { single(c); }
VF_SCENARIO(moved_not_copied, 6000, 60000) { moved(c); }
#endif
