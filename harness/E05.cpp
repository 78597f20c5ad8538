// E05: pre_exit runs every handler once, newest first, also those that are added meanwhile.
#include "vf_fut.hpp"
using namespace vf;
using namespace stlab;

namespace {
constexpr int max_h = 200;
struct state {
    std::mutex m;
    std::vector<int> stack; // the model: what is registered and has not run
    std::vector<int> log;
    int runs[max_h] = {};
    std::vector<int> adds[max_h];     // registered by the handler when it runs
    bool by_thread[max_h] = {};       // through a thread that it joins
    bool late_pool[max_h] = {};       // uses the pool
    std::uint64_t begin[max_h] = {}, end[max_h] = {};
    bool racing = false;
    int depth = 0;
};
state* g = nullptr;

void add(int i);
void handler(int i) noexcept {
    event();
    perturb();
    std::vector<int> next;
    {
        std::lock_guard<std::mutex> l(g->m);
        VF_CHECK(++g->runs[i] == 1, "twice", "handler %d ran twice", i);
        VF_CHECK(++g->depth == 1, "nested", "a handler ran while another one was running");
        g->log.push_back(i);
        if (!g->racing) {
            VF_CHECK(!g->stack.empty() && g->stack.back() == i, "order", "handler %d ran where %d was due", i,
                     g->stack.empty() ? -1 : g->stack.back());
            g->stack.pop_back();
        }
        next = g->adds[i];
    }
    auto more = [&] {
        for (int k : next) add(k);
    };
    if (g->by_thread[i])
        std::thread(more).join();
    else
        more();
    {
        std::lock_guard<std::mutex> l(g->m);
        --g->depth;
    }
}
template <int... I>
constexpr auto table(std::integer_sequence<int, I...>) {
    return std::array<pre_exit_handler, sizeof...(I)>{[]() noexcept { handler(I); }...};
}
const auto handlers = table(std::make_integer_sequence<int, max_h>{});

void add(int i) {
    {
        std::lock_guard<std::mutex> l(g->m);
        if (!g->racing) g->stack.push_back(i);
        g->begin[i] = stamp();
    }
    at_pre_exit(handlers[static_cast<std::size_t>(i)]);
    g->end[i] = stamp();
}
} // namespace

// one thread at a time: the order is exactly known
VF_SCENARIO(exact_child, 0, 0) {
    perturb_level(static_cast<int>(c.r.below(3)));
    g = new state;
    int next = 0;
    const int limit = c.r.range(1, max_h);
    const int growth = c.r.range(0, 40);
    std::deque<int> open;
    std::vector<int> roots;
    const int n = c.r.range(0, std::min(limit, 60));
    for (int i = 0; i < n; ++i) {
        roots.push_back(next);
        open.push_back(next++);
    }
    while (!open.empty()) {
        const int i = open.front();
        open.pop_front();
        g->by_thread[i] = c.r.chance(15);
        if (c.r.chance(growth))
            for (int k = c.r.range(1, 4); k > 0 && next < limit; --k) {
                g->adds[i].push_back(next);
                open.push_back(next++);
            }
    }
    for (int i : roots) {
        if (c.r.chance(10))
            std::thread([i] { add(i); }).join();
        else
            add(i);
    }
    const bool pool = c.r.chance(30);
    std::atomic<int> tasks{0};
    if (pool) default_executor([&]() noexcept { ++tasks; });
    pre_exit();
    VF_CHECK(g->stack.empty(), "lost", "%zu handlers were not run", g->stack.size());
    for (int i = 0; i < next; ++i) VF_CHECK(g->runs[i] == 1, "runs", "handler %d of %d ran %d times", i, next, g->runs[i]);
    VF_CHECK(!pool || tasks == 1, "pool", "a task was not finished when pre_exit returned");
    c.nontrivial = next > 1;
    for (int i : g->log) c.see(static_cast<std::uint64_t>(i));
    c.note = std::to_string(n) + " handlers registered before, " + std::to_string(next - n) + " by handlers";
}
VF_SCENARIO(exact, 200, 2500) { run_child(c, "exact_child", c.r.next()); }

// several threads register at once, before and during pre_exit
VF_SCENARIO(race_child, 0, 0) {
    perturb_level(static_cast<int>(c.r.below(4)));
    g = new state;
    g->racing = true;
    const int nt = c.r.range(2, 5), per = c.r.range(1, 20);
    const bool during = c.r.chance(50); // a handler waits for the threads, so they register while it runs
    static std::vector<std::thread> ts;
    static start_line* go;
    start_line line(nt + (during ? 1 : 0));
    go = &line;
    if (during)
        at_pre_exit([]() noexcept {
            go->arrive();
            for (auto& t : ts) t.join();
        });
    for (int t = 0; t < nt; ++t)
        ts.emplace_back([=] {
            go->arrive();
            for (int i = 0; i < per; ++i) add(t * per + i);
        });
    if (!during)
        for (auto& t : ts) t.join();
    pre_exit();
    const int n = nt * per;
    for (int i = 0; i < n; ++i) VF_CHECK(g->runs[i] == 1, "runs", "handler %d of %d ran %d times", i, n, g->runs[i]);
    std::vector<int> pos(static_cast<std::size_t>(n));
    for (std::size_t k = 0; k < g->log.size(); ++k) pos[static_cast<std::size_t>(g->log[k])] = static_cast<int>(k);
    for (int a = 0; a < n; ++a)
        for (int b = 0; b < n; ++b)
            if (g->end[a] < g->begin[b])
                VF_CHECK(pos[static_cast<std::size_t>(b)] < pos[static_cast<std::size_t>(a)], "order",
                         "handler %d was registered after %d but ran after it", b, a);
    c.nontrivial = true;
    for (int i : g->log) c.see(static_cast<std::uint64_t>(i));
    c.note = std::to_string(n) + " handlers registered by " + std::to_string(nt) + " threads" + (during ? " during pre_exit" : "");
}
VF_SCENARIO(race, 200, 2500) { run_child(c, "race_child", c.r.next()); }

// the pool is drained by its handler: what was registered before it runs after all tasks, what after runs before
VF_SCENARIO(pool_child, 0, 0) {
    perturb_level(static_cast<int>(c.r.below(4)));
    struct s_t {
        std::atomic<int> tasks{0}, late{0};
        int n = 0, older = 0, newer = 0, seen_newer = -1;
    };
    static s_t s;
    s.n = c.r.range(1, 60);
    at_pre_exit([]() noexcept {
        ++s.older;
        VF_CHECK(s.tasks == s.n && s.late == s.newer * 2, "drain",
                 "a handler older than the pool ran while %d of %d tasks were finished", s.tasks.load() + s.late.load(),
                 s.n + s.newer * 2);
    });
    const int nap = c.r.chance(50) ? c.r.range(1, 300) : 0;
    for (int i = 0; i < s.n; ++i)
        default_executor([=]() noexcept {
            if (nap && i % 5 == 0) std::this_thread::sleep_for(std::chrono::microseconds(nap));
            event();
            low_executor([=]() noexcept { high_executor([]() noexcept { ++s.tasks; }); });
        });
    const int newer = c.r.range(0, 3);
    for (int i = 0; i < newer; ++i)
        at_pre_exit([]() noexcept {
            ++s.newer;
            for (int k = 0; k < 2; ++k) low_executor([]() noexcept { ++s.late; });
        });
    pre_exit();
    VF_CHECK(s.older == 1 && s.newer == newer, "runs", "handlers ran %d and %d times", s.older, s.newer);
    c.nontrivial = true;
    c.see(static_cast<std::uint64_t>(s.n * 4 + newer));
}
VF_SCENARIO(pool, 100, 1000) { run_child(c, "pool_child", c.r.next()); }
