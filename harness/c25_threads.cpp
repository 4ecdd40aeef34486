// C25: const operations on shared objects, and any operation on separate ones, from many threads. ThreadSanitizer watches for
// races; the answers are compared with those of the same calls made alone afterwards (never before: what is computed lazily
// on first use has to be computed under concurrency).
#include "ops.hpp"
#include <atomic>
#include <thread>
using namespace ops;

static std::atomic<std::uint32_t> ticket;
static std::atomic<int> gate;
struct Call
{
    int op;
    std::uint64_t seed;
};
struct Worker
{
    std::vector<Call> calls;
    std::vector<std::string> answers;
    std::vector<std::uint32_t> order;
    std::uint64_t jitter;
    bool alien = false;
};
// like run_op, but without the shared state of the frame
static std::string call(int k, World& w, std::uint64_t seed, bool& alien)
{
    std::ostringstream o;
    Rng r(seed);
    Ctx c{r, o};
    try
    {
        if (op_is_const(k))
            const_ops()[k].fn(w, c);
        else
            mut_ops()[k - const_ops().size()].fn(w, c);
    }
    catch (const std::runtime_error& e)
    {
        o << "rejected " << e.what();
    }
    catch (const std::exception& e)
    {
        o << "other " << e.what();
        alien = true;
    }
    return o.str();
}
static void enter(int n) // all threads start together
{
    gate.fetch_add(1, std::memory_order_relaxed);
    while (gate.load(std::memory_order_relaxed) < n)
        std::this_thread::yield();
}
static void pause(Rng& r)
{
    const int k = int(r.range(0, 15));
    if (k == 0)
        std::this_thread::yield();
    else if (k < 4)
        for (volatile int i = int(r.range(0, 400)); i > 0; i = i - 1)
            ;
}
static void evidence(const std::vector<Worker>& ws)
{
    std::vector<std::pair<std::uint32_t, int>> seq;
    for (std::size_t t = 0; t < ws.size(); ++t)
        for (auto x : ws[t].order)
            seq.push_back({x, int(t)});
    std::sort(seq.begin(), seq.end());
    std::uint64_t h = 5, switches = 0;
    for (std::size_t i = 0; i < seq.size(); ++i)
    {
        h = mon::hash_mix(h, std::uint64_t(seq[i].second));
        switches += i && seq[i].second != seq[i - 1].second;
    }
    mon::nontrivial(h); // a distinct interleaving of the calls
    mon::count_n("(switches between threads)", switches);
    mon::count_n("(calls made concurrently)", seq.size());
}
static std::vector<int> pick_ops(Rng& rng, bool only_const, std::uint64_t idx, int n)
{
    std::vector<int> v;
    const int all = only_const ? int(const_ops().size()) : op_count();
    for (int i = 0; i < n; ++i)
        v.push_back(i & 1 ? int(rng.range(0, all - 1)) : int((idx * (n / 2) + i / 2) % all));
    return v;
}

SUITE(shared_readers, 150, 8000)
{
    Large mode(idx % 4 == 3);
    build_table();
    const std::uint64_t ws = rng.next();
    Rng r1(ws), r2(ws);
    World shared(r1);
    const int threads = int(rng.range(3, 8)), n = 24;
    const auto ops = pick_ops(rng, true, idx, n);
    std::vector<Call> base;
    for (int k : ops)
        base.push_back({k, rng.next()});
    std::vector<Worker> w(threads);
    for (auto& x : w)
    {
        x.calls = base;
        if (rng.chance(1, 2)) // the same calls in another order
            for (int i = n - 1; i > 0; --i)
                std::swap(x.calls[i], x.calls[rng.range(0, i)]);
        x.jitter = rng.next();
        x.order.reserve(n);
        x.answers.reserve(n);
    }
    mon::set_op("shared readers");
    ticket = 0, gate = 0;
    std::vector<std::thread> ts;
    for (auto& x : w)
        ts.emplace_back(
            [&shared, &x, threads]
            {
                Rng j(x.jitter);
                enter(threads);
                for (const Call& c : x.calls)
                {
                    x.order.push_back(ticket.fetch_add(1, std::memory_order_relaxed));
                    x.answers.push_back(call(c.op, shared, c.seed, x.alien));
                    pause(j);
                }
            });
    for (auto& t : ts)
        t.join();
    World alone(r2);
    for (const auto& x : w)
    {
        EXPECT(!x.alien, "alien", "an exception other than runtime_error");
        for (int i = 0; i < n; ++i)
        {
            bool alien = false;
            const std::string want = call(x.calls[i].op, alone, x.calls[i].seed, alien);
            EXPECT(x.answers[i] == want, std::string("answer:") + op_name(x.calls[i].op), op_name(x.calls[i].op) << " beside other threads: " << x.answers[i].substr(0, 400) << " alone: " << want.substr(0, 400));
            mon::evaluated();
        }
    }
    const auto a = shared.snapshot(), b = alone.snapshot();
    for (std::size_t i = 0; i < a.size(); ++i)
        EXPECT(a[i] == b[i], "shared-changed", "reading changed object " << i << " from " << b[i].substr(0, 300) << " to " << a[i].substr(0, 300));
    for (int k : ops)
        mon::count_n(op_name(k), threads);
    evidence(w);
}

// every thread copies the shared world (at the same time) and then changes its own copy
SUITE(separate_copies, 90, 5000)
{
    build_table();
    const std::uint64_t ws = rng.next();
    Rng r1(ws), r2(ws);
    World shared(r1);
    const int threads = int(rng.range(3, 8)), n = 30;
    std::vector<Worker> w(threads);
    std::vector<std::vector<std::string>> last(threads);
    for (auto& x : w)
    {
        for (int k : pick_ops(rng, false, idx, n))
            x.calls.push_back({k, rng.next()});
        x.jitter = rng.next();
        x.order.reserve(n);
        x.answers.reserve(n);
    }
    mon::set_op("separate copies");
    ticket = 0, gate = 0;
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; ++t)
        ts.emplace_back(
            [&, t]
            {
                Worker& x = w[t];
                Rng j(x.jitter);
                enter(threads);
                World mine(shared);
                for (const Call& c : x.calls)
                {
                    x.order.push_back(ticket.fetch_add(1, std::memory_order_relaxed));
                    x.answers.push_back(call(c.op, mine, c.seed, x.alien));
                    pause(j);
                }
                last[t] = mine.snapshot();
            });
    for (auto& t : ts)
        t.join();
    const World alone(r2);
    for (int t = 0; t < threads; ++t)
    {
        EXPECT(!w[t].alien, "alien", "an exception other than runtime_error");
        World mine(alone);
        for (int i = 0; i < n; ++i)
        {
            bool alien = false;
            const std::string want = call(w[t].calls[i].op, mine, w[t].calls[i].seed, alien);
            EXPECT(w[t].answers[i] == want, std::string("answer:") + op_name(w[t].calls[i].op), op_name(w[t].calls[i].op) << " beside other threads: " << w[t].answers[i].substr(0, 400) << " alone: " << want.substr(0, 400));
            mon::evaluated();
        }
        const auto a = mine.snapshot();
        for (std::size_t i = 0; i < a.size(); ++i)
            EXPECT(a[i] == last[t][i], "separate-state", "object " << i << " ends as " << last[t][i].substr(0, 300) << " alone " << a[i].substr(0, 300));
    }
    const auto a = shared.snapshot(), b = alone.snapshot();
    for (std::size_t i = 0; i < a.size(); ++i)
        EXPECT(a[i] == b[i], "shared-changed", "copies changed object " << i << " of the original from " << b[i].substr(0, 300) << " to " << a[i].substr(0, 300));
    for (const auto& x : w)
        for (const auto& c : x.calls)
            mon::count_n(op_name(c.op), 1);
    evidence(w);
}

// one operation, many threads, the same objects: what is lazily computed is computed by all of them at once
static void one(std::uint64_t idx, Rng& rng, bool often)
{
    build_table();
    const int k = int(idx % const_ops().size());
    const std::uint64_t ws = rng.next();
    Rng r1(ws), r2(ws);
    World shared(r1);
    const int threads = 8;
    const int n = often ? 40 : 10; // often: with the same few calls again and again in between
    std::vector<Call> calls;
    for (int i = 0; i < n; ++i)
        calls.push_back({k, often && i > 2 && rng.chance(1, 2) ? calls[std::size_t(i % 3)].seed : rng.next()});
    std::vector<Worker> w(threads);
    for (auto& x : w)
        x.calls = calls, x.jitter = rng.next();
    mon::set_op(op_name(k));
    mon::count_n(op_name(k), threads * n);
    ticket = 0, gate = 0;
    std::vector<std::thread> ts;
    for (auto& x : w)
        ts.emplace_back(
            [&shared, &x]
            {
                enter(8);
                for (const Call& c : x.calls)
                {
                    x.order.push_back(ticket.fetch_add(1, std::memory_order_relaxed));
                    x.answers.push_back(call(c.op, shared, c.seed, x.alien));
                }
            });
    for (auto& t : ts)
        t.join();
    World alone(r2);
    for (int i = 0; i < n; ++i)
    {
        bool alien = false;
        const std::string want = call(k, alone, calls[i].seed, alien);
        for (const auto& x : w)
        {
            EXPECT(x.answers[i] == want, std::string("answer:") + op_name(k), op_name(k) << " beside other threads: " << x.answers[i].substr(0, 400) << " alone: " << want.substr(0, 400));
            mon::evaluated();
        }
    }
    evidence(w);
}
SUITE(one_operation, 200, 6000) { one(idx, rng, false); }
SUITE(one_operation_often, 200, 6000) { one(idx, rng, true); }
