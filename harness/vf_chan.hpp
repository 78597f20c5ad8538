// Random networks of channels with monitors on every process.
#pragma once
#include "vf_fut.hpp"

#include <stlab/concurrency/channel.hpp>

namespace vf {

// values: origin in the upper half, sequence number in the lower
constexpr std::uint64_t make_id(int origin, std::uint64_t seq) {
    return (static_cast<std::uint64_t>(origin) << 32) | seq;
}
constexpr int origin_of(std::uint64_t id) { return static_cast<int>(id >> 32); }
constexpr std::uint64_t seq_of(std::uint64_t id) { return id & 0xffffffffu; }

struct item {
    std::uint64_t id;
    bool error;
    bool operator==(const item& x) const { return id == x.id && error == x.error; }
};

enum class behave {
    map,    // one value for each
    expand, // any number of values for each, including none
    batch,  // one for several, the rest when closed
};

// A process and what was seen of it. Not synchronised, except for the entry detector, which adds no
// order: a process that is run by two threads at once, or without the effects of the previous run, is
// a race.
struct node {
    int id = 0;
    const char* kind = "";
    int tag = -1; // executor
    std::uint64_t seed = 1;
    behave b = behave::map;
    int fail = 0; // percent of throwing calls
    bool has_close = false;
    bool has_set_error = false;
    bool is_process = false;
    bool referenced = false; // held by std::ref, always has consumers
    bool no_more = false; // function without set_error got an error
    int timed = 0;        // 1: timed yields, 2: timed awaits
    long us = 0;          // of the timers
    int timer_yields = 3;

    std::atomic<int> busy{0};
    std::atomic<int> started{0}; // the receiver is (about to be) ready
    bool early_ok = false;
    std::uint64_t entries = 0;
    std::vector<std::vector<item>> in{1};
    std::vector<item> out;
    std::deque<std::uint64_t> pend;
    int have = 0; // of the current batch
    int closes = 0;
    std::uint64_t next = 0;
    std::vector<std::uint64_t> emitted; // by functions, matches `in`

    // in flight accounting (single threaded cases)
    bool exact = false;
    struct feed {
        node* consumer;
        std::size_t input;
        long bound; // 0: none
    };
    std::vector<feed> feeds;
    bool alive = true;

    // timers
    mutable std::uint64_t asked = 0; // first state() since the last event
    mutable long asked_us = -1;
    mutable int asked_kind = 0;

    std::shared_ptr<void> life;

    rng r{1};

    std::uint64_t fresh() { return make_id(id, next++); }
    bool throws() { return fail && r.chance(fail); }

    void check_feeds() {
        if (!exact) return;
        for (auto& f : feeds)
            if (f.bound && f.consumer->alive && !f.consumer->no_more) {
                const long n = static_cast<long>(out.size()) - static_cast<long>(f.consumer->in[f.input].size());
                if (n > f.bound)
                    fail_("over_buffer", n, f.bound, f.consumer->id);
            }
    }
    [[noreturn]] void fail_(const char* key, long n, long bound, int to) {
        vf::fail(key, "process %d (%s) has sent %ld values that process %d did not take yet, its buffer holds %ld", id,
                 kind, n, to, bound);
    }
};

struct entry {
    node& n;
    const char* what;
    entry(node& x, const char* w, bool anywhere = false) : n(x), what(w) {
        event();
        if (n.busy.exchange(1, std::memory_order_relaxed))
            fail("concurrent_process", "%s of process %d (%s) is run while another member is running", w, n.id, n.kind);
        if (!n.started.load(std::memory_order_relaxed))
            fail("ran_before_ready", "%s of process %d (%s) is run before its receiver is ready", w, n.id, n.kind);
        if (!anywhere && n.tag >= 0 && t_exec != n.tag)
            fail("wrong_executor", "%s of process %d (%s) runs on executor %d instead of %d", w, n.id, n.kind, t_exec,
                 n.tag);
        ++n.entries;
        perturb();
    }
    ~entry() {
        perturb();
        n.busy.store(0, std::memory_order_relaxed);
    }
};

// function objects and processes refer to their node with one of these; the last one is released when
// the library destroys the process
struct ref {
    node* n;
    std::shared_ptr<void> life;
};

template <class T>
T emit(node& n, std::uint64_t id, bool th) {
    n.out.push_back({id, th});
    n.check_feeds();
    if (th) throw err{id};
    return T{id};
}

inline void took(node& n, std::size_t input, item x) {
    if (n.closes)
        fail("value_after_close", "process %d (%s) got a value after it was closed", n.id, n.kind);
    if (n.no_more)
        fail("value_after_error", "process %d (%s) got a value after an error closed it", n.id, n.kind);
    n.in[input].push_back(x);
}

// T(T)
template <class T>
struct fn_node {
    ref r;
    T operator()(T v) {
        entry e(*r.n, "call");
        took(*r.n, 0, {v.get(), false});
        return emit<T>(*r.n, r.n->fresh(), r.n->throws());
    }
};
// by reference
template <class T>
struct fn_cref_node {
    ref r;
    T operator()(const T& v) const {
        entry e(*r.n, "call");
        took(*r.n, 0, {v.get(), false});
        return emit<T>(*r.n, r.n->fresh(), r.n->throws());
    }
};
template <class T>
struct fn2_node {
    ref r;
    T operator()(T a, T b) {
        entry e(*r.n, "call");
        took(*r.n, 0, {a.get(), false});
        took(*r.n, 1, {b.get(), false});
        return emit<T>(*r.n, r.n->fresh(), r.n->throws());
    }
};
template <class T>
struct fn3_node {
    ref r;
    T operator()(T a, T b, T c) {
        entry e(*r.n, "call");
        took(*r.n, 0, {a.get(), false});
        took(*r.n, 1, {b.get(), false});
        took(*r.n, 2, {c.get(), false});
        return emit<T>(*r.n, r.n->fresh(), r.n->throws());
    }
};
template <class T>
struct tuple_node {
    ref r;
    T operator()(std::tuple<T, T> v) {
        entry e(*r.n, "call");
        took(*r.n, 0, {std::get<0>(v).get(), false});
        took(*r.n, 1, {std::get<1>(v).get(), false});
        return emit<T>(*r.n, r.n->fresh(), r.n->throws());
    }
};
template <class T>
struct sink_node {
    ref r;
    void operator()(T v) {
        entry e(*r.n, "call");
        took(*r.n, 0, {v.get(), false});
    }
};

template <class T>
struct proc_base {
    ref r;
    node& n() const { return *r.n; }

    void event_seen() {
        n().asked_us = -1;
        n().asked_kind = 0;
    }
    void push(std::uint64_t k) {
        for (; k; --k) n().pend.push_back(n().fresh());
    }
    void input(item x) {
        took(n(), 0, x);
        event_seen();
        if (n().fail && n().r.chance(n().fail / 2)) {
            const auto id = n().fresh();
            n().out.push_back({id, true});
            n().check_feeds();
            throw err{id};
        }
        switch (n().b) {
        case behave::map: push(1); break;
        case behave::expand: push(n().r.below(4)); break;
        case behave::batch:
            if (++n().have == 3) {
                n().have = 0;
                push(1);
            }
        }
    }
    T yield() {
        entry e(n(), "yield");
        if (n().pend.empty() || n().timed == 1) {
            // due to a timer
            const auto now = now_ns();
            if (n().asked_us < 0)
                fail("unasked_yield", "process %d (%s) was yielded without asking for it", n().id, n().kind);
            if (now < n().asked + static_cast<std::uint64_t>(n().asked_us) * 1000)
                fail("early_yield", "process %d (%s) was yielded after %llu us instead of %ld us", n().id, n().kind,
                     (unsigned long long)(now - n().asked) / 1000, n().asked_us);
        }
        event_seen();
        if (n().pend.empty()) {
            if (n().timer_yields > 0) --n().timer_yields;
            return emit<T>(n(), n().fresh(), false);
        }
        const auto id = n().pend.front();
        n().pend.pop_front();
        return emit<T>(n(), id, n().throws());
    }
    stlab::process_state_scheduled state_() const {
        if (!n().pend.empty()) {
            if (n().timed == 1) {
                ask(n().us, 1);
                return {stlab::process_state::yield, std::chrono::microseconds(n().us)};
            }
            return stlab::yield_immediate;
        }
        if (n().timed == 2 && n().timer_yields > 0) {
            ask(n().us, 2);
            return {stlab::process_state::await, std::chrono::microseconds(n().us)};
        }
        return stlab::await_forever;
    }
    void ask(long us, int kind) const {
        if (n().asked_kind == kind) return;
        n().asked = now_ns();
        n().asked_us = us;
        n().asked_kind = kind;
    }
    stlab::process_state_scheduled state() const {
        entry e(n(), "state", true); // may be asked by a consumer
        return state_();
    }
    void close_() {
        entry e(n(), "close");
        if (++n().closes > 1) fail("closed_twice", "process %d (%s) was closed twice", n().id, n().kind);
        event_seen();
        if (n().b == behave::batch && n().have) {
            n().have = 0;
            push(1);
        } else if (n().b == behave::expand)
            push(n().r.below(3));
    }
    void set_error_(const std::exception_ptr& p) {
        entry e(n(), "set_error");
        input({error_id(p), true});
    }
};

// await, yield
template <class T>
struct proc_plain : proc_base<T> {
    void await(T v) {
        entry e(this->n(), "await");
        this->input({v.get(), false});
    }
};
template <class T>
struct proc_close : proc_plain<T> {
    void close() { this->close_(); }
};
template <class T>
struct proc_full : proc_plain<T> {
    void close() { this->close_(); }
    void set_error(std::exception_ptr p) { this->set_error_(p); }
};
template <class T>
struct proc_error : proc_plain<T> {
    void set_error(std::exception_ptr p) { this->set_error_(p); }
};
// two inputs, zipped
template <class T>
struct proc2_full : proc_base<T> {
    void await(T a, T b) {
        entry e(this->n(), "await");
        took(this->n(), 1, {b.get(), false});
        this->input({a.get(), false});
    }
    void close() { this->close_(); }
};

struct chan_opts {
    int nodes = 8;
    int sources = 2;
    int max_senders = 3;
    int values = 30; // per sender
    int split = 25;  // percent
    int join = 0;    // percent
    int pipe = 10;   // percent, into another channel
    int drop = 0;    // percent of terminals that go away while values are on their way
    int fail = 0;    // percent of processes that throw
    int proc = 50;   // percent of processes with await and yield
    int timed = 0;   // percent of these with timers
    bool manual = false;
    bool only_given_exec = false;
    int bounded = 0; // all buffers
    bool unequal = false;
    bool hold_last = false; // nothing may be closed before the last sender is gone (one source, manual)
    int senders = 0;        // exactly
    int behaviour = -1;
    int late_ready = 50; // percent of the receivers are made ready while values are sent
};

template <class T>
struct network {
    static constexpr bool copyable = std::is_same_v<T, cval>;
    chan_opts o;
    ctx& c;
    std::deque<node> nodes;
    gate gone;
    long total = 0;

    // what arrives at each input
    struct expect {
        int node;
        std::size_t input;
        std::vector<int> origins; // senders (negative: -1 - index) and nodes
        bool round_robin = false;
        bool zipped = false;
    };
    std::vector<expect> expects;

    struct open_t {
        stlab::receiver<T> r;
        std::vector<int> origins;
        int from = -1;       // node, or -1 - channel
        int tag = -1;
        bool single = false; // one origin
        long rate = -1;      // number of values per origin if it is known
        int up = -1;         // handle of its own
    };
    std::vector<open_t> open;

    struct sender_log {
        int origin;
        std::vector<std::uint64_t> sent;
    };
    std::deque<sender_log> logs;
    std::vector<std::pair<stlab::sender<T>, sender_log*>> senders;

    // receivers that only have to be made ready
    struct later_t {
        stlab::receiver<T> r;
        int node; // -1: a channel
    };
    std::vector<later_t> later;

    // what keeps the terminals
    struct terminal {
        std::function<void()> release;
        std::vector<int> nodes; // die with it
    };
    std::vector<terminal> terms;
    std::map<int, int> holders; // node -> holders: attached processes and terminals
    std::map<int, std::vector<int>> ups;

    // executors
    std::vector<executor_t> execs;
    std::deque<manual_queue> queues;

    int next_origin = 1;
    std::vector<std::unique_ptr<proc_full<T>>> refs;

    network(ctx& cc, chan_opts oo) : o(oo), c(cc) {
        if (o.manual) {
            for (int i = 0; i < 4; ++i) {
                queues.emplace_back();
                execs.push_back(tagged(i, queues.back().executor()));
            }
        } else
            for (int i = 0; i < 4; ++i)
                execs.push_back(make_exec(o.timed && c.r.chance(70) ? 4 : static_cast<int>(c.r.below(exec_kinds)), i));
    }

    int any_exec() { return static_cast<int>(c.r.below(execs.size())); }

    node& add(const char* kind, int tag, std::size_t inputs = 1) {
        nodes.emplace_back();
        node& n = nodes.back();
        n.id = next_origin++;
        n.kind = kind;
        n.tag = tag;
        n.seed = c.r.next();
        n.r = rng(n.seed);
        n.in.resize(inputs);
        n.exact = o.manual;
        ++total;
        n.life = std::shared_ptr<void>(&n, [this](void* p) {
            if (o.manual) static_cast<node*>(p)->alive = false;
            gone.add();
        });
        if (o.fail && c.r.chance(o.fail)) n.fail = 10 + static_cast<int>(c.r.below(40));
        return n;
    }
    ref take_ref(node& n) { return ref{&n, std::move(n.life)}; }

    node* by_id(int id) {
        for (auto& n : nodes)
            if (n.id == id) return &n;
        return nullptr;
    }

    open_t pick_open() {
        const auto i = c.r.below(open.size());
        if constexpr (copyable) {
            if (c.r.chance(o.split)) {
                open_t r = open[i]; // counts as one more receiver
                return r;
            }
        }
        auto r = std::move(open[i]);
        open.erase(open.begin() + static_cast<long>(i));
        return r;
    }

    // attaches x in one of the possible ways; tag is set to the executor
    template <class F>
    auto attach(open_t& u, F f, node& n, long& buffer) {
        const int e = any_exec();
        const bool given = o.only_given_exec || c.r.chance(50);
        buffer = 1;
        static const long sizes[] = {0, 1, 1, 2, 3, 5};
        const bool sized = o.bounded || c.r.chance(50);
        const long bs = o.bounded ? o.bounded : sizes[c.r.below(6)];
        n.tag = given ? e : u.tag;
        using stlab::buffer_size;
        using stlab::executor;
        using stlab::operator&; // not found for annotations otherwise
        const auto b = buffer_size{static_cast<std::size_t>(bs)};
        const auto& x = execs[static_cast<std::size_t>(e)];
        if (sized) buffer = bs;
        if (given && sized) {
            switch (c.r.below(5)) {
            case 0: return u.r | (executor{x} & b & std::move(f));
            case 1: return u.r | (b & executor{x} & std::move(f));
            case 2: return u.r | (executor{x} & std::move(f) & b);
            case 3: return u.r | (b & std::move(f) & executor{x});
            default: return u.r | (std::move(f) & (b & executor{x}));
            }
        }
        if (given) return u.r | (executor{x} & std::move(f));
        if (sized) return c.r.chance(50) ? u.r | (b & std::move(f)) : u.r | (std::move(f) & b);
        return u.r | std::move(f);
    }

    void used(open_t& u, int node_id) {
        if (u.from >= 0) {
            ++holders[u.from];
            ups[node_id].push_back(u.from);
        }
        done_with(std::move(u.r), u.from);
    }
    void done_with(stlab::receiver<T> r, int from) {
        if (from >= 0) {
            // a copy that is released is as good as one that is ready
            later.push_back({std::move(r), from});
        } else
            later.push_back({std::move(r), -1});
    }
    void feed(const open_t& u, node& n, std::size_t input, long bound) {
        if (u.from >= 0) by_id(u.from)->feeds.push_back({&n, input, bound});
    }

    void channel_() {
        const int e = any_exec();
        auto [s, r] = stlab::channel<T>(execs[static_cast<std::size_t>(e)]);
        open_t u;
        u.tag = e;
        int k = 1;
        if constexpr (copyable)
            k = o.senders ? o.senders : 1 + static_cast<int>(c.r.below(static_cast<std::uint64_t>(o.max_senders)));
        for (int i = 0; i < k; ++i) {
            logs.push_back({next_origin++, {}});
            u.origins.push_back(logs.back().origin);
            if constexpr (copyable) {
                if (i + 1 < k) {
                    senders.emplace_back(s, &logs.back());
                    continue;
                }
            }
            senders.emplace_back(std::move(s), &logs.back());
        }
        u.single = k == 1;
        u.rate = o.unequal ? -1 : o.values;
        u.r = std::move(r);
        u.from = -1;
        open.push_back(std::move(u));
    }

    void set_behaviour(node& n) {
        n.is_process = true;
        n.b = static_cast<behave>(o.behaviour >= 0 ? o.behaviour : static_cast<int>(c.r.below(3)));
        if (o.timed && c.r.chance(o.timed)) {
            n.timed = 1 + static_cast<int>(c.r.below(2));
            n.us = 20 + static_cast<long>(c.r.below(400));
            n.timer_yields = static_cast<int>(c.r.below(4));
        }
    }

    void opened(node& n, stlab::receiver<T> r, bool known_rate, long rate) {
        open_t v;
        v.r = std::move(r);
        v.from = n.id;
        v.tag = n.tag;
        v.origins = {n.id};
        v.single = true;
        v.rate = known_rate ? rate : -1;
        open.push_back(std::move(v));
    }

    // errors may only go where they can be seen
    bool clean(const std::vector<int>& origins) {
        for (int i : origins)
            if (auto* n = by_id(i))
                if (n->fail || n->no_more) return false;
        return true;
    }

    void grow() {
        if (open.empty()) return;
        auto u = pick_open();
        if (copyable && c.r.chance(o.join) && !open.empty()) {
            if constexpr (copyable) join(std::move(u));
            return;
        }
        long buffer = 1;
        const bool errors = !clean(u.origins);
        if (c.r.chance(o.pipe)) {
            // into another channel, errors stay behind
            const int e = any_exec();
            if (!errors && (u.from < 0 || !by_id(u.from)->referenced)) {
                auto [s, r] = stlab::channel<T>(execs[static_cast<std::size_t>(e)]);
                auto t = std::make_shared<stlab::receiver<void>>(u.r | std::move(s));
                terms.push_back({[t]() mutable { t.reset(); }, {}});
                if (u.from >= 0) ++holders[u.from];
                open_t v;
                v.tag = e;
                v.origins = u.origins;
                v.single = u.single;
                v.rate = u.rate;
                v.r = std::move(r);
                v.from = -1;
                done_with(std::move(u.r), u.from);
                open.push_back(std::move(v));
                return;
            }
        }
        if (c.r.chance(o.proc)) {
            node& n = add("process", -1);
            set_behaviour(n);
            const int k = errors ? static_cast<int>(c.r.below(3)) : static_cast<int>(c.r.below(6));
            stlab::receiver<T> r;
            // which members there are
            if (k == 0 || k == 5) {
                n.kind = "process with close and set_error";
                n.has_close = n.has_set_error = true;
                r = attach(u, proc_full<T>{{{take_ref(n)}}}, n, buffer);
            } else if (k == 1) {
                n.kind = "process with set_error";
                n.has_set_error = true;
                r = attach(u, proc_error<T>{{{take_ref(n)}}}, n, buffer);
            } else if (k == 2) {
                n.kind = "referenced process";
                n.referenced = true;
                n.fail = 0; // its consumers live as long as it does
                n.has_close = n.has_set_error = true;
                refs.push_back(std::make_unique<proc_full<T>>(proc_full<T>{{{take_ref(n)}}}));
                --total; // lives as long as the network
                r = attach(u, std::ref(*refs.back()), n, buffer);
            } else if (k == 3) {
                n.kind = "process with close";
                n.has_close = true;
                r = attach(u, proc_close<T>{{{take_ref(n)}}}, n, buffer);
            } else {
                n.kind = "process without close";
                r = attach(u, proc_plain<T>{{take_ref(n)}}, n, buffer);
            }
            expects.push_back({n.id, 0, u.origins});
            feed(u, n, 0, buffer);
            used(u, n.id);
            opened(n, std::move(r), false, 0);
            return;
        }
        const bool by_ref = c.r.chance(40);
        const bool wrapped = copyable && !errors && c.r.chance(15);
        node& n = add(wrapped ? "function_process" : "function", -1);
        stlab::receiver<T> r;
        if constexpr (copyable) {
            if (wrapped) r = attach(u, stlab::function_process<T(T)>(fn_node<T>{take_ref(n)}), n, buffer);
        }
        if (!wrapped)
            r = by_ref ? attach(u, fn_cref_node<T>{take_ref(n)}, n, buffer) :
                         attach(u, fn_node<T>{take_ref(n)}, n, buffer);
        expects.push_back({n.id, 0, u.origins});
        feed(u, n, 0, buffer);
        const bool known = u.rate >= 0 && u.single && !errors;
        const long rate = u.rate;
        used(u, n.id);
        opened(n, std::move(r), known, rate);
    }

    void join(open_t u)
        requires copyable
    {
        const int e = any_exec();
        const auto& x = execs[static_cast<std::size_t>(e)];
        std::vector<open_t> in;
        in.push_back(std::move(u));
        const std::size_t k = 2 + c.r.below(2);
        while (in.size() < k && !open.empty()) {
            const auto i = c.r.below(open.size());
            in.push_back(std::move(open[i]));
            open.erase(open.begin() + static_cast<long>(i));
        }
        bool no_errors = true, regular = true;
        for (auto& i : in) no_errors = no_errors && clean(i.origins);
        for (std::size_t i = 0; i < in.size() && !no_errors;)
            if (in[i].from >= 0 && by_id(in[i].from)->referenced) {
                // an error of another input would close its consumer
                open.push_back(std::move(in[i]));
                in.erase(in.begin() + static_cast<long>(i));
            } else
                ++i;
        if (in.empty()) return;
        no_errors = true;
        for (auto& i : in) {
            no_errors = no_errors && clean(i.origins);
            regular = regular && i.rate >= 0 && i.rate == in[0].rate && i.single;
        }
        const int how = regular && no_errors ? static_cast<int>(c.r.below(5)) : 0;
        stlab::receiver<T> r;
        node* n = nullptr;
        auto expect_in = [&](std::size_t i) { expects.push_back({n->id, i, in[i].origins, false, true}); };
        auto fnode = [&](const char* kind, int tag, std::size_t inputs) { n = &add(kind, tag, inputs); };
        if (how == 0 || how == 1) {
            // each origin once, or what arrives could not be told apart
            std::set<int> seen;
            for (std::size_t i = 0; i < in.size();) {
                bool twice = false;
                for (int g : in[i].origins) twice = twice || seen.count(g);
                seen.insert(in[i].origins.begin(), in[i].origins.end());
                if (twice) {
                    open.push_back(std::move(in[i]));
                    in.erase(in.begin() + static_cast<long>(i));
                } else
                    ++i;
            }
            const bool rr = how == 1;
            if (in.size() == 1) {
                open.push_back(std::move(in[0]));
                return;
            }
            fnode(rr ? "round robin merge" : "unordered merge", e, 1);
            if (in.size() == 2) {
                if (rr)
                    r = stlab::merge_channel<stlab::round_robin_t>(x, fn_node<T>{take_ref(*n)}, in[0].r, in[1].r);
                else
                    r = stlab::merge_channel<stlab::unordered_t>(x, fn_node<T>{take_ref(*n)}, in[0].r, in[1].r);
            } else {
                if (rr)
                    r = stlab::merge_channel<stlab::round_robin_t>(x, fn_node<T>{take_ref(*n)}, in[0].r, in[1].r, in[2].r);
                else
                    r = stlab::merge_channel<stlab::unordered_t>(x, fn_node<T>{take_ref(*n)}, in[0].r, in[1].r, in[2].r);
            }
            expect ex{n->id, 0, {}, rr};
            for (auto& i : in) ex.origins.insert(ex.origins.end(), i.origins.begin(), i.origins.end());
            expects.push_back(ex);
        } else if (how == 2 || in.size() == 1) {
            // tuples
            if (in.size() == 1) {
                open.push_back(std::move(in[0]));
                return;
            }
            while (in.size() > 2) {
                open.push_back(std::move(in.back()));
                in.pop_back();
            }
            fnode("function of a zip", e, 2);
            auto z = stlab::zip(x, in[0].r, in[1].r);
            r = z | (stlab::executor{x} & tuple_node<T>{take_ref(*n)});
            z.set_ready();
            expect_in(0);
            expect_in(1);
        } else if (how == 4 && in.size() == 2 && c.r.chance(50)) {
            fnode("process of a zip", e, 2);
            n->has_close = true;
            set_behaviour(*n);
            r = stlab::zip_with(x, proc2_full<T>{{take_ref(*n)}}, in[0].r, in[1].r);
            expect_in(0);
            expect_in(1);
        } else {
            fnode("zip", e, in.size());
            if (in.size() == 2) {
                r = stlab::zip_with(x, fn2_node<T>{take_ref(*n)}, in[0].r, in[1].r);
            } else
                r = stlab::zip_with(x, fn3_node<T>{take_ref(*n)}, in[0].r, in[1].r, in[2].r);
            for (std::size_t i = 0; i < in.size(); ++i) expect_in(i);
        }
        const bool known = regular && (how == 1 || how == 2 || (how > 2 && !n->is_process));
        const long rate = how == 1 ? in[0].rate * static_cast<long>(in.size()) : in[0].rate;
        for (std::size_t i = 0; i < in.size(); ++i) {
            if (how > 2) feed(in[i], *n, i, 1);
            used(in[i], n->id);
        }
        opened(*n, std::move(r), known, rate);
    }

    // marks what dies when nobody holds node id any more
    void unhold(int id, std::vector<int>& out) {
        if (--holders[id] > 0) return;
        out.push_back(id);
        for (int u : ups[id]) unhold(u, out);
    }

    void finish() {
        while (!open.empty()) {
            auto u = std::move(open.back());
            open.pop_back();
            const bool errors = !clean(u.origins);
            if (u.from < 0 || by_id(u.from)->referenced || c.r.chance(50)) {
                long buffer = 1;
                node& n = add("sink", -1);
                if (errors) n.has_set_error = false;
                std::shared_ptr<stlab::receiver<void>> t =
                    std::make_shared<stlab::receiver<void>>(attach(u, sink_node<T>{take_ref(n)}, n, buffer));
                expects.push_back({n.id, 0, u.origins});
                feed(u, n, 0, buffer);
                n.started = 1;
                used(u, n.id);
                ++holders[n.id];
                terms.push_back({[t]() mutable { t.reset(); }, {n.id}});
            } else {
                ++holders[u.from];
                auto t = std::make_shared<stlab::receiver<T>>(u.r);
                done_with(std::move(u.r), u.from);
                // a handle that is kept has to be ready
                kept.push_back({t, u.from});
                terms.push_back({[t]() mutable { t.reset(); }, {u.from}});
            }
        }
    }
    std::vector<std::pair<std::shared_ptr<stlab::receiver<T>>, int>> kept;

    void build() {
        for (int i = 0; i < o.sources; ++i) channel_();
        while (static_cast<int>(nodes.size()) < o.nodes && !open.empty()) grow();
        finish();
    }

    // number of handles that are not ready, by node
    std::map<int, int> unready;

    std::vector<std::function<void()>> readiers() {
        std::vector<std::function<void()>> r;
        std::map<int, std::shared_ptr<std::atomic<int>>> left;
        for (auto& l : later)
            if (l.node >= 0) {
                auto& p = left[l.node];
                if (!p) p = std::make_shared<std::atomic<int>>(0);
                ++*p;
            }
        for (auto& k : kept) {
            auto& p = left[k.second];
            if (!p) p = std::make_shared<std::atomic<int>>(0);
            ++*p;
        }
        for (auto& l : later) {
            auto h = std::make_shared<stlab::receiver<T>>(std::move(l.r));
            auto n = l.node >= 0 ? by_id(l.node) : nullptr;
            auto p = l.node >= 0 ? left[l.node] : nullptr;
            const int how = static_cast<int>(c.r.below(3));
            r.push_back([h, n, p, how]() mutable {
                if (p && p->fetch_sub(1, std::memory_order_relaxed) == 1) n->started.store(1, std::memory_order_relaxed);
                if (how == 0)
                    h->set_ready();
                else if (how == 1)
                    *h = stlab::receiver<T>();
                h.reset();
            });
        }
        later.clear();
        for (auto& k : kept) {
            auto n = by_id(k.second);
            auto p = left[k.second];
            r.push_back([h = k.first, n, p]() mutable {
                if (p->fetch_sub(1, std::memory_order_relaxed) == 1) n->started.store(1, std::memory_order_relaxed);
                h->set_ready();
                h.reset();
            });
        }
        kept.clear();
        c.r.shuffle(r);
        return r;
    }

    std::set<int> dropped;
    std::vector<std::function<void()>> droppers() {
        std::vector<std::function<void()>> r;
        for (auto& t : terms)
            if (!t.nodes.empty() && o.drop && c.r.chance(o.drop)) {
                std::vector<int> d;
                const auto before = holders;
                for (int n : t.nodes) unhold(n, d);
                bool keep = false;
                for (int n : d) keep = keep || by_id(n)->referenced;
                if (keep) {
                    holders = before;
                    continue;
                }
                dropped.insert(d.begin(), d.end());
                r.push_back(t.release);
                t.release = [] {};
            }
        return r;
    }

    void send(stlab::sender<T>& s, sender_log& l) {
        const auto id = make_id(l.origin, l.sent.size());
        l.sent.push_back(id);
        if constexpr (copyable) {
            if (id % 3 == 0) {
                const T v(id);
                s(v);
                return;
            }
        }
        s(T(id));
    }

    void run_threads() {
        auto ready = readiers();
        auto drop = droppers();
        std::size_t before = 0;
        for (auto& f : ready)
            if (!c.r.chance(o.late_ready)) {
                f();
                f = nullptr;
                ++before;
            }
        std::vector<std::thread> th;
        start_line go(static_cast<int>(senders.size()) + 1);
        for (auto& [s, l] : senders) {
            const long count = o.unequal ? static_cast<long>(c.r.below(static_cast<std::uint64_t>(o.values) + 1)) : o.values;
            th.emplace_back([this, s = std::move(s), l = l, count, seed = c.r.next(), &go]() mutable {
                rng r(seed);
                go.arrive();
                for (long i = 0; i < count; ++i) {
                    if (r.chance(20)) perturb();
                    if (r.chance(3)) spin_us(static_cast<int>(r.below(60)));
                    send(s, *l);
                    if constexpr (copyable) {
                        if (r.chance(5)) {
                            stlab::sender<T> t(s); // senders come and go
                            s = std::move(t);
                        }
                    }
                }
                if (r.chance(50)) s.close();
            });
        }
        senders.clear();
        go.arrive();
        for (auto& f : ready)
            if (f) {
                perturb();
                f();
                f = nullptr;
            }
        for (auto& f : drop) {
            spin_us(static_cast<int>(c.r.below(150)));
            f();
            f = nullptr;
        }
        drop.clear();
        for (auto& t : th) t.join();
        gone.wait(total);
    }

    bool step() {
        std::vector<manual_queue*> q;
        for (auto& x : queues)
            if (!x.q.empty()) q.push_back(&x);
        if (q.empty()) return false;
        q[c.r.below(q.size())]->front();
        return true;
    }

    void run_manual() {
        auto ready = readiers();
        auto drop = droppers();
        std::vector<long> left;
        for (std::size_t i = 0; i < senders.size(); ++i)
            left.push_back(o.unequal ? static_cast<long>(c.r.below(static_cast<std::uint64_t>(o.values) + 1)) : o.values);
        std::vector<std::size_t> act;
        for (std::size_t i = 0; i < left.size(); ++i) act.push_back(i);
        const int lazy = static_cast<int>(c.r.below(90));
        while (!act.empty() || !ready.empty() || !drop.empty()) {
            if (c.r.chance(lazy) && step()) continue;
            if (!ready.empty() && (act.empty() || c.r.chance(30))) {
                ready.back()();
                ready.pop_back();
            } else if (!drop.empty() && (act.empty() || c.r.chance(3))) {
                drop.back()();
                drop.pop_back();
            } else if (!act.empty()) {
                const auto i = c.r.below(act.size());
                auto& [s, l] = senders[act[i]];
                if (left[act[i]]-- > 0)
                    send(s, *l);
                else {
                    if (o.hold_last && act.size() == 1) {
                        while (!ready.empty()) {
                            ready.back()();
                            ready.pop_back();
                        }
                        while (step()) {}
                        for (auto& n : nodes)
                            if (n.closes || !n.alive)
                                fail("closed_early", "process %d (%s) was closed although a sender is left", n.id, n.kind);
                    }
                    if (c.r.chance(50))
                        s = stlab::sender<T>();
                    else
                        s.close();
                    act.erase(act.begin() + static_cast<long>(i));
                }
            }
        }
        senders.clear();
        while (step()) {}
        if (gone.count() != total) {
            for (auto& n : nodes)
                if (n.alive && !n.referenced)
                    fail("stalled", "the executors are idle but process %d (%s) did not finish, it got %zu and sent %zu values",
                         n.id, n.kind, n.in[0].size(), n.out.size());
        }
    }

    void run() {
        c.nontrivial = true;
        build();
        if (o.manual)
            run_manual();
        else
            run_threads();
        release_and_verify();
    }

    void release_and_verify() {
        verify();
        while (!terms.empty()) {
            terms.back().release();
            terms.pop_back();
        }
    }

    void verify();
};

template <class T>
void network<T>::verify() {
    std::map<int, const std::vector<std::uint64_t>*> sent;
    for (auto& l : logs) sent[l.origin] = &l.sent;
    auto outs = [&](int origin) {
        std::vector<item> r;
        if (auto i = sent.find(origin); i != sent.end()) {
            for (auto id : *i->second) r.push_back({id, false});
        } else
            r = by_id(origin)->out;
        return r;
    };
    for (auto& n : nodes) {
        if (!n.started) fail("harness", "process %d was never ready", n.id);
        c.see(mix(static_cast<std::uint64_t>(n.id), n.in[0].size() * 1000 + n.out.size()));
        if (n.has_close && !dropped.count(n.id) && n.closes != 1)
            fail("not_closed", "process %d (%s) is gone and was closed %d times", n.id, n.kind, n.closes);
    }
    for (auto& x : expects) {
        node& n = *by_id(x.node);
        const auto& in = n.in[x.input];
        std::map<int, std::size_t> pos;
        std::map<int, std::vector<item>> want;
        for (int i : x.origins) want[i] = outs(i);
        const bool sees_errors = n.has_set_error;
        const bool whole = !dropped.count(n.id);
        std::uint64_t h = 0;
        for (std::size_t k = 0; k < in.size(); ++k) {
            const int g = origin_of(in[k].id);
            h = mix(h, in[k].id);
            auto w = want.find(g);
            if (w == want.end())
                fail("foreign_value", "process %d (%s) got a value of %d it is not connected with", n.id, n.kind, g);
            auto& p = pos[g];
            const auto& v = w->second;
            if (p >= v.size() || !(v[p] == in[k])) {
                std::string s;
                for (std::size_t j = 0; j < in.size() && j < k + 3; ++j)
                    s += std::to_string(origin_of(in[j].id)) + "." + std::to_string(seq_of(in[j].id)) + (in[j].error ? "! " : " ");
                const bool again = [&] {
                    for (std::size_t j = 0; j < k; ++j)
                        if (in[j] == in[k]) return true;
                    return false;
                }();
                fail(again ? "value_repeated" : "value_lost_or_reordered",
                     "process %d (%s) input %zu got value %d.%llu, expected %d.%lld; it got %.300s", n.id, n.kind, x.input, g,
                     (unsigned long long)seq_of(in[k].id), g, p < v.size() ? (long long)seq_of(v[p].id) : -1ll, s.c_str());
            }
            ++p;
            if (x.round_robin && g != x.origins[k % x.origins.size()])
                fail("not_alternating", "process %d (%s): value %zu comes from %d instead of %d", n.id, n.kind, k, g,
                     x.origins[k % x.origins.size()]);
        }
        c.see(h);
        bool dead = false;
        if (!sees_errors)
            for (auto& [g, v] : want) {
                const auto p = pos[g];
                if (p < v.size() && v[p].error) dead = true;
            }
        if (!whole || dead) continue;
        for (auto& [g, v] : want)
            if (pos[g] != v.size())
                fail("value_lost", "process %d (%s) input %zu got %zu of %zu values of %d", n.id, n.kind, x.input, pos[g],
                     v.size(), g);
    }
    // branches of one channel see the same order
    std::map<std::vector<int>, std::vector<const expect*>> same;
    if (c.note.empty()) {
        std::ostringstream s;
        for (auto& x : expects) {
            s << x.node << ":" << by_id(x.node)->kind << "(";
            for (int i : x.origins) s << i << " ";
            s << ")x" << by_id(x.node)->in[x.input].size() << " ";
        }
        c.note = s.str();
    }
}

} // namespace vf
