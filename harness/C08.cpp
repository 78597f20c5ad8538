// C08: handles of channels follow value semantics and own the pipeline exactly.
#include "vf_chan.hpp"

using namespace vf;

#ifndef VF_PART
#define VF_PART 0
#endif

#if VF_PART == 0
// A random history of operations on handles, against a model of what each process owes to whom.
namespace {
struct pm {
    int id = 0;
    int up = -1;
    std::vector<int> children;
    bool is_void = false;
    int unready = 0, handles = 0, senders = 0;
    bool alive = true, closing = false, final = false;
    std::size_t buffer = 1;
    std::deque<std::uint64_t> queue;
    std::vector<std::uint64_t> want;
    std::shared_ptr<std::vector<std::uint64_t>> got = std::make_shared<std::vector<std::uint64_t>>();
    std::shared_ptr<std::atomic<long>> live = std::make_shared<std::atomic<long>>(0);
    bool has_fn = false;
};
struct fn {
    std::shared_ptr<std::vector<std::uint64_t>> got;
    token t;
    cval operator()(cval v) {
        event();
        got->push_back(v.get());
        return v;
    }
};
struct vfn {
    std::shared_ptr<std::vector<std::uint64_t>> got;
    token t;
    void operator()(const cval& v) {
        event();
        got->push_back(v.get());
    }
};
struct model {
    ctx& c;
    manual_queue q;
    std::vector<pm> p;
    struct rs {
        stlab::receiver<cval> h;
        int to = -1;
        bool ready = false;
    };
    struct vs {
        stlab::receiver<void> h;
        int to = -1;
    };
    struct ss {
        stlab::sender<cval> h;
        int to = -1;
    };
    std::vector<rs> r{4};
    std::vector<vs> v{3};
    std::vector<ss> s{3};
    std::uint64_t next = 1;
    long base;
    bool dirty = false;

    explicit model(ctx& cc) : c(cc), base(cval::n.live.load()) { p.reserve(64); }

    pm& at(int i) { return p[static_cast<std::size_t>(i)]; }

    void die_if_unheld(int i) {
        auto& x = at(i);
        if (!x.alive || x.handles) return;
        for (int k : x.children)
            if (at(k).alive) return;
        x.alive = false;
        x.queue.clear();
        if (x.up >= 0) die_if_unheld(x.up);
    }
    void add_handle(int i, bool ready) {
        if (i < 0) return;
        ++at(i).handles;
        if (!ready && !at(i).is_void) ++at(i).unready;
    }
    void drop_handle(int i, bool ready) {
        if (i < 0) return;
        --at(i).handles;
        if (!ready && !at(i).is_void) --at(i).unready;
        die_if_unheld(i);
    }
    void drop_sender(int i) {
        if (i < 0) return;
        if (--at(i).senders == 0) at(i).closing = true;
    }
    bool room(const pm& x) {
        for (int k : x.children)
            if (at(k).alive && at(k).buffer && at(k).queue.size() >= at(k).buffer) return false;
        return true;
    }
    void settle() {
        for (bool any = true; any;) {
            any = false;
            for (auto& x : p) {
                if (!x.alive || x.final || x.unready) continue;
                while (!x.queue.empty() && room(x)) {
                    const auto id = x.queue.front();
                    x.queue.pop_front();
                    if (x.has_fn) x.want.push_back(id);
                    for (int k : x.children)
                        if (at(k).alive) at(k).queue.push_back(id);
                    any = true;
                }
                if (x.queue.empty() && x.closing && room(x)) {
                    x.final = true;
                    for (int k : x.children) at(k).closing = true;
                    any = true;
                }
            }
        }
    }
    void check(bool settled) {
        long values = 0;
        for (auto& x : p) {
            values += static_cast<long>(x.queue.size());
            if (!x.has_fn) continue;
            if (settled && *x.got != x.want)
                fail("wrong_delivery", "process %d got %zu values, expected %zu (unready %d, handles %d)", x.id,
                     x.got->size(), x.want.size(), x.unready, x.handles);
            const long l = x.live->load();
            const long e = x.alive && !x.final ? 1 : 0;
            if (x.alive ? (settled && l != e) : l != 0)
                fail(l > e ? "not_destroyed" : "destroyed_early", "process %d: %ld live instances, expected %ld", x.id, l, e);
        }
        if (settled && cval::n.live.load() - base != values)
            fail("values_kept", "%ld values are alive, %ld should be waiting", cval::n.live.load() - base, values);
    }
    void drain() {
        q.drain(c.r);
        settle();
        check(true);
        for (auto& x : s) {
            const auto f = x.h.free_buffer();
            if (x.to < 0 || !at(x.to).alive) {
                if (f) fail("free_buffer", "a sender of nothing has a buffer");
            } else {
                const auto& t = at(x.to);
                const std::size_t e = t.buffer ? t.buffer - std::min(t.buffer, t.queue.size()) : std::size_t(-1);
                if (!f || *f != e)
                    fail("free_buffer", "the buffer has room for %zd values instead of %zd", f ? (ssize_t)*f : -1, (ssize_t)e);
            }
        }
        for (auto& x : r)
            for (auto& y : r)
                if ((x.h == y.h) != (x.to == y.to) || (x.h != y.h) == (x.to == y.to))
                    fail("equality", "receivers compare wrong");
        for (auto& x : s)
            for (auto& y : s) {
                const int a = x.to >= 0 && at(x.to).alive ? x.to : -1, b = y.to >= 0 && at(y.to).alive ? y.to : -1;
                if ((x.h == y.h) != (a == b) || (x.h != y.h) == (a == b)) fail("equality", "senders compare wrong");
            }
        for (auto& x : r)
            if (x.to >= 0 && x.h.ready() != x.ready) fail("ready", "ready() is wrong");
    }

    pm& fresh(int up) {
        p.emplace_back();
        auto& x = p.back();
        x.id = static_cast<int>(p.size()) - 1;
        x.up = up;
        return x;
    }

    void op() {
        auto& a = r[c.r.below(r.size())];
        auto& b = r[c.r.below(r.size())];
        auto& sa = s[c.r.below(s.size())];
        auto& sb = s[c.r.below(s.size())];
        auto& va = v[c.r.below(v.size())];
        auto& vb = v[c.r.below(v.size())];
        const int what = static_cast<int>(c.r.below(36));
        c.see(static_cast<std::uint64_t>(what));
        // most of the time nothing that matters is overwritten
        if (c.r.chance(80)) {
            if (what == 0 && (a.to >= 0 || sa.to >= 0)) return;
            if ((what == 1 || what == 2 || what == 3 || what == 4 || what == 6) && a.to >= 0) return;
            if ((what == 9 || what == 10 || what == 12) && sa.to >= 0) return;
            if (what == 17 && va.to >= 0) return;
        }
        if (dirty && what < 26) drain();
        switch (what) {
        case 0: { // new channel
            if (p.size() > 40) return;
            drop_sender(sa.to);
            drop_handle(a.to, a.ready);
            auto [ns, nr] = stlab::channel<cval>(q.executor());
            sa.h = std::move(ns);
            a.h = std::move(nr);
            auto& x = fresh(-1);
            x.senders = 1;
            sa.to = a.to = x.id;
            a.ready = false;
            add_handle(x.id, false);
            break;
        }
        case 1: // copy
        case 2:
            if (&a == &b) return;
            add_handle(b.to, b.ready);
            drop_handle(a.to, a.ready);
            if (what == 1)
                a.h = b.h;
            else {
                stlab::receiver<cval> t(b.h);
                a.h = std::move(t);
            }
            a.to = b.to;
            a.ready = b.ready;
            break;
        case 3: // move
        case 4:
            if (&a == &b) return;
            drop_handle(a.to, a.ready);
            if (what == 3)
                a.h = std::move(b.h);
            else {
                stlab::receiver<cval> t(std::move(b.h));
                a.h = std::move(t);
            }
            a.to = b.to;
            a.ready = b.ready;
            b.to = -1;
            b.h = stlab::receiver<cval>();
            b.ready = false;
            break;
        case 5:
            if (&a == &b) return;
            if (c.r.chance(50))
                swap(a.h, b.h);
            else
                a.h.swap(b.h);
            std::swap(a.to, b.to);
            std::swap(a.ready, b.ready);
            break;
        case 6:
            drop_handle(a.to, a.ready);
            a.h = stlab::receiver<cval>();
            a.to = -1;
            a.ready = false;
            break;
        case 7:
        case 8:
            if (a.to < 0) return;
            a.h.set_ready();
            if (!a.ready) --at(a.to).unready;
            a.ready = true;
            break;
        case 9: // senders
            if (&sa == &sb) return;
            if (sb.to >= 0) ++at(sb.to).senders;
            drop_sender(sa.to);
            sa.h = sb.h;
            sa.to = sb.to;
            break;
        case 10:
            if (&sa == &sb) return;
            drop_sender(sa.to);
            sa.h = std::move(sb.h);
            sa.to = sb.to;
            sb.to = -1;
            break;
        case 11:
            if (&sa == &sb) return;
            if (c.r.chance(50))
                swap(sa.h, sb.h);
            else
                sa.h.swap(sb.h);
            std::swap(sa.to, sb.to);
            break;
        case 12:
            if (c.r.chance(50)) return;
            drop_sender(sa.to);
            if (c.r.chance(50))
                sa.h.close();
            else
                sa.h = stlab::sender<cval>();
            sa.to = -1;
            break;
        case 13: // attach a function
        case 14: {
            if (p.size() > 40 || (what == 14 && c.r.chance(50))) return;
            if (a.to < 0 || a.ready) {
                expect_error(a);
                return;
            }
            auto& x = fresh(a.to);
            x.has_fn = true;
            static const std::size_t sizes[] = {1, 1, 0, 2, 3};
            x.buffer = sizes[c.r.below(5)];
            at(a.to).children.push_back(x.id);
            fn f{x.got, token(x.live)};
            stlab::receiver<cval> n = x.buffer == 1 ? a.h | std::move(f) : a.h | (stlab::buffer_size{x.buffer} & std::move(f));
            add_handle(x.id, false);
            drop_handle(b.to, b.ready);
            b.h = std::move(n);
            b.to = x.id;
            b.ready = false;
            break;
        }
        case 15:
        case 16: { // a sink
            if (p.size() > 40) return;
            if (a.to < 0 || a.ready) {
                expect_error(a);
                return;
            }
            auto& x = fresh(a.to);
            x.has_fn = x.is_void = true;
            at(a.to).children.push_back(x.id);
            stlab::receiver<void> n = a.h | vfn{x.got, token(x.live)};
            add_handle(x.id, true);
            drop_handle(va.to, true);
            va.h = std::move(n);
            va.to = x.id;
            break;
        }
        case 17: // handles of sinks
            if (&va == &vb) return;
            if (c.r.chance(40)) {
                add_handle(vb.to, true);
                drop_handle(va.to, true);
                va.h = vb.h;
                va.to = vb.to;
            } else if (c.r.chance(50)) {
                drop_handle(va.to, true);
                va.h = std::move(vb.h);
                va.to = vb.to;
                vb.to = -1;
            } else {
                drop_handle(va.to, true);
                va.h = stlab::receiver<void>();
                va.to = -1;
            }
            break;
        case 18: drain(); break;
        case 19:
        case 20: { // all handles of a process that has consumers
            if (a.to < 0 || at(a.to).children.empty()) return;
            for (int i = a.to; i >= 0; i = at(i).up)
                for (auto& x : r)
                    if (x.to == i) {
                        x.h.set_ready();
                        if (!x.ready) --at(i).unready;
                        x.ready = true;
                    }
            break;
        }
        case 21: // a process that has to start
        case 22:
        case 23:
        case 24: {
            if (a.to < 0 || p.size() > 40 || !at(a.to).handles) return;
            if (a.ready) return;
            auto& x = fresh(a.to);
            x.has_fn = true;
            x.is_void = what < 23;
            x.buffer = static_cast<std::size_t>(c.r.range(0, 2));
            at(a.to).children.push_back(x.id);
            if (x.is_void) {
                auto n = a.h | (stlab::buffer_size{x.buffer} & vfn{x.got, token(x.live)});
                add_handle(x.id, true);
                drop_handle(va.to, true);
                va.h = std::move(n);
                va.to = x.id;
            } else {
                auto n = a.h | (stlab::buffer_size{x.buffer} & fn{x.got, token(x.live)});
                a.h.set_ready();
                a.ready = true;
                --at(a.to).unready;
                add_handle(x.id, false);
                drop_handle(b.to, b.ready);
                b.h = std::move(n);
                b.to = x.id;
                b.ready = false;
            }
            break;
        }
        default: { // send
            if (sa.to < 0) {
                if (c.r.chance(10)) sa.h(cval(7));
                return;
            }
            const auto id = next++;
            if (c.r.chance(50)) {
                const cval x(id);
                sa.h(x);
            } else
                sa.h(cval(id));
            if (at(sa.to).alive) at(sa.to).queue.push_back(id);
        }
        }
        check(false);
        // the model is of the settled state, only sends may overlap with what the processes do
        dirty = what >= 26;
        if (!dirty || c.r.chance(50)) {
            drain();
            dirty = false;
        } else
            while (c.r.chance(60) && q.step(c.r)) {}
    }
    void expect_error(rs& a) {
        const bool empty = a.to < 0;
        try {
            vfn f{std::make_shared<std::vector<std::uint64_t>>(), token(std::make_shared<std::atomic<long>>(0))};
            auto x = c.r.chance(50) ? a.h | std::move(f) : a.h | (stlab::buffer_size{2} & std::move(f));
        } catch (const stlab::channel_error& e) {
            const auto want = empty ? stlab::channel_error_codes::broken_channel : stlab::channel_error_codes::process_already_running;
            if (e.code() != want) fail("wrong_error", "the wrong channel_error was thrown");
            return;
        }
        fail("no_error", "attaching to %s receiver did not throw", empty ? "an empty" : "a ready");
    }
};
} // namespace

VF_SCENARIO(handles, 12000, 200000) {
    c.nontrivial = true;
    {
        model m(c);
        const int n = c.r.range(20, 160);
        for (int i = 0; i < n; ++i) m.op();
        m.drain();
        for (auto& x : m.r) {
            m.drop_handle(x.to, x.ready);
            x = {};
        }
        for (auto& x : m.v) {
            m.drop_handle(x.to, true);
            x = {};
        }
        m.drain();
        for (auto& x : m.p)
            if (x.alive || x.live->load())
                fail("not_destroyed", "process %d is alive although no receiver is left", x.id);
        for (auto& x : m.s) {
            x = {};
        }
        m.q.drain(c.r);
        std::ostringstream o;
        for (auto& x : m.p) o << x.id << "<" << x.up << (x.is_void ? "v" : "") << "x" << x.want.size() << " ";
        c.note = o.str();
    }
}
// more handles than small counters hold
VF_SCENARIO(crowd, 3, 60) {
    const auto n = static_cast<std::size_t>(c.r.range(66000, 70000));
    manual_queue q;
    std::atomic<long> got{0};
    gate gone;
    auto [s, r] = stlab::channel<long>(q.executor());
    std::shared_ptr<void> life(&gone, [](void* p) { static_cast<gate*>(p)->add(); });
    auto p = r | [&got, life](long x) {
        got += x;
        return x;
    };
    life.reset();
    std::vector<stlab::sender<long>> ss(n, s);
    std::vector<stlab::receiver<long>> rs(n, r), ps(n, p);
    s(1);
    r.set_ready();
    p.set_ready();
    q.drain(c.r);
    VF_CHECK(got == 0, "run_before_ready", "a process runs while %zu receivers are not ready", n);
    // all but one
    const auto keep = c.r.below(n);
    for (std::size_t i = 0; i < n; ++i)
        if (i != keep) {
            if (i % 2)
                rs[i].set_ready(), ps[i].set_ready();
            else
                rs[i] = {}, ps[i] = {};
        }
    q.drain(c.r);
    VF_CHECK(got == 0, "run_before_ready", "a process runs while one of %zu receivers is not ready", n);
    if (c.r.chance(50))
        rs[keep].set_ready(), ps[keep] = {};
    else
        ps[keep].set_ready(), rs[keep] = {};
    q.drain(c.r);
    VF_CHECK(got == 1, "value_lost", "a value is not delivered when the last of %zu receivers is ready", n);
    s = {};
    for (std::size_t i = 0; i < n; ++i)
        if (i != keep) {
            if (i % 2)
                ss[i].close();
            else
                ss[i] = {};
        }
    q.drain(c.r);
    VF_CHECK(gone.count() == 0, "closed", "a process is destroyed while a sender of %zu is left", n);
    ss[keep](10);
    q.drain(c.r);
    VF_CHECK(got == 11, "value_lost", "the last sender of %zu does not send", n);
    ss[keep] = {};
    q.drain(c.r);
    VF_CHECK(gone.count() == 1, "kept", "a process is not destroyed when the last of %zu senders is gone", n);
    event(3 * n);
    c.nontrivial = true;
    c.see(n * 100000 + keep);
}
#else
// Threads copy, move, overwrite and release handles while values are on their way.
VF_SCENARIO(threads, 1500, 25000) {
    perturb_level(static_cast<int>(c.r.below(4)));
    c.nontrivial = true;
    auto live = std::make_shared<std::atomic<long>>(0);
    std::atomic<long> sent{0}, got{0};
    gate gone;
    const int n = c.r.range(1, 4);
    {
        std::shared_ptr<void> life(&gone, [](void* p) { static_cast<gate*>(p)->add(); });
        auto [s, r] = stlab::channel<cval>(make_exec(static_cast<int>(c.r.below(exec_kinds)), 1));
        const int stages = c.r.range(0, 2);
        auto x = r;
        for (int i = 0; i < stages; ++i) {
            auto y = x | (stlab::executor{make_exec(static_cast<int>(c.r.below(exec_kinds)), 2)} & [life, t = token(live)](cval v) {
                         event();
                         perturb();
                         return v;
                     });
            x = y;
        }
        auto t = std::make_shared<stlab::receiver<void>>();
        std::mutex m;
        const bool self = c.r.chance(20);
        const int when = c.r.range(1, 20);
        *t = x | [life, k = token(live), &got, self, when, w = std::weak_ptr(t)](const cval& v) mutable {
            event();
            v.get();
            const long g = got.fetch_add(1) + 1;
            if (self && g == when)
                if (auto p = w.lock()) *p = stlab::receiver<void>(); // its own last handle
        };
        x = stlab::receiver<cval>();
        std::vector<std::thread> th;
        start_line go(n + 1);
        const int per = c.r.range(1, 30);
        std::vector<stlab::sender<cval>> ss(static_cast<std::size_t>(n), s);
        s.close();
        for (int i = 0; i < n; ++i)
            th.emplace_back([&, i, seed = c.r.next(), r = r, s = std::move(ss[static_cast<std::size_t>(i)])]() mutable {
                rng q(seed);
                go.arrive();
                for (int k = 0; k < per; ++k) {
                    switch (q.below(6)) {
                    case 0: {
                        auto t(s);
                        s = std::move(t);
                        break;
                    }
                    case 1: {
                        auto t(r);
                        r = t;
                        break;
                    }
                    case 2: {
                        stlab::receiver<cval> t;
                        swap(r, t);
                        r = std::move(t);
                        break;
                    }
                    case 3: {
                        auto t(s);
                        t.close();
                        break;
                    }
                    default: break;
                    }
                    ++sent;
                    s(cval(static_cast<std::uint64_t>(k + 1)));
                    if (q.chance(10)) r.set_ready();
                }
                r.set_ready();
            });
        r = stlab::receiver<cval>();
        go.arrive();
        const bool early = !self && c.r.chance(40);
        if (early) {
            spin_us(c.r.range(0, 200));
            *t = stlab::receiver<void>();
        }
        for (auto& x : th) x.join();
        th.clear();
        life.reset();
        gone.wait(1);
        if (self) {
            // it might be released by its own last run, or here
        }
        if (!early && !self && got != sent)
            fail("value_lost", "%ld of %ld values were delivered", got.load(), sent.load());
        if (got > sent) fail("value_repeated", "%ld of %ld values were delivered", got.load(), sent.load());
        c.see(static_cast<std::uint64_t>(got.load() * 1000 + sent.load()));
        t.reset();
    }
    perturb_level(0);
}
#endif
