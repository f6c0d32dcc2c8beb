// C06, C07: the thread pool under every schedule, with failing tasks, failing allocations and nested posts.
#include <knp/backends/thread_pool/thread_pool.h>

#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#include "scenario.h"

using knp::backends::cpu_executors::ThreadPool;
using sim::Case;
using sim::Op;
using sim::Quiet;
using sim::Rng;
using sim::violation;

namespace
{
struct TaskError : std::runtime_error
{
    int id;
    explicit TaskError(int i) : std::runtime_error("task " + std::to_string(i)), id(i) {}
};
// Tasks throw what they like: not every exception is a std::exception.
struct ForeignError
{
    int id;
};
[[noreturn]] void fail_task(int id)
{
    if (id & 1) throw ForeignError{id};
    throw TaskError(id);
}

struct Shared;
// What a task does. Nested children are posted by the task itself.
struct TaskSpec
{
    int id = 0;
    int steps = 0;       // amount of work (plain memory accesses)
    int sleep_us = 0;
    bool fails = false;
    bool fail_late = true;   // after the nested posts and the work
    std::vector<int> children;
};

struct Shared
{
    ThreadPool *pool = nullptr;
    std::vector<TaskSpec> specs;
    std::vector<int> posted;            // harness bookkeeping (quiet)
    std::vector<int> started;           // harness bookkeeping (quiet)
    std::vector<int> finished;          // harness bookkeeping (quiet)
    int running = 0;                    // harness bookkeeping (quiet)
    int in_join = 0;
    std::vector<long> result;           // written by tasks, read by the joiner: deliberately unsynchronised
    std::vector<std::vector<int>> scratch;
};

void run_task(Shared *s, int id, const std::vector<int> &payload, std::string text);

void post_task(Shared *s, int id)
{
    std::vector<int> payload{id, id * 7 + 1, -id};
    {
        Quiet q;
        ++s->posted[static_cast<size_t>(id)];
    }
    try
    {
        s->pool->post(run_task, s, id, payload, std::string("task-payload-text-") + std::to_string(id));
    }
    catch (...)
    {
        Quiet q;
        --s->posted[static_cast<size_t>(id)];
        throw;
    }
}

void run_task(Shared *s, int id, const std::vector<int> &payload, std::string text)
{
    const TaskSpec &spec = s->specs[static_cast<size_t>(id)];
    {
        Quiet q;
        if (payload.size() != 3 || payload[0] != id || payload[1] != id * 7 + 1 || payload[2] != -id ||
            text != "task-payload-text-" + std::to_string(id))
            violation("wrong arguments", "task %d got arguments it was not posted with", id);
        if (++s->started[static_cast<size_t>(id)] > s->posted[static_cast<size_t>(id)])
            violation("task run more than once", "task %d started %d times, posted %d times", id,
                      s->started[static_cast<size_t>(id)], s->posted[static_cast<size_t>(id)]);
        ++s->running;
        if (sim::self() != 0) sim::probe("task ran on a worker");
        else sim::probe("task ran on the joining thread");
    }
    struct Leave
    {
        Shared *s;
        int id;
        ~Leave()
        {
            Quiet q;
            --s->running;
            ++s->finished[static_cast<size_t>(id)];
        }
    } leave{s, id};
    if (spec.fails && !spec.fail_late) fail_task(id);
    long acc = s->result[static_cast<size_t>(id)];
    auto &scratch = s->scratch[static_cast<size_t>(id)];
    for (int i = 0; i < spec.steps; ++i)
    {
        scratch.push_back(i);
        acc += scratch.back();
    }
    if (spec.sleep_us > 0) std::this_thread::sleep_for(std::chrono::microseconds(spec.sleep_us));
    for (int ch : spec.children)
    {
        post_task(s, ch);
        sim::probe("nested post");
    }
    if (spec.fails) fail_task(id);
    s->result[static_cast<size_t>(id)] = acc + 1;
}

void gen_common(Rng &r, Case &c, bool failing)
{
    c.p["threads"] = r.chance(0.1) ? 0 : r.range(1, r.chance(0.8) ? 4 : 8);
    c.p["alloc"] = r.chance(0.25) ? r.range(1, 30) : 0;   // per-mille allocation failures while posting
    c.p["final_join"] = r.chance(0.8);
    int rounds = static_cast<int>(r.range(1, r.chance(0.7) ? 3 : 6));
    bool nested = r.chance(0.5), sleepy = r.chance(0.4);
    double pf = failing ? (r.chance(0.5) ? 0.1 : 0.4) : 0;
    // A few cases have many workers, a long queue or deep nesting.
    if (r.chance(0.02)) c.p["threads"] = r.range(9, 24);
    int crowd = r.chance(0.02) ? static_cast<int>(r.range(0, rounds - 1)) : -1;
    bool deep = r.chance(0.02);
    for (int i = 0; i < rounds; ++i)
    {
        int n = static_cast<int>(r.range(0, r.chance(0.8) ? 6 : 16));
        if (i == crowd) n = static_cast<int>(r.chance(0.7) ? r.range(40, 150) : r.range(150, 700));
        for (int k = 0; k < n; ++k)
        {
            long steps = r.chance(0.3) || i == crowd ? 0 : r.range(1, 12);
            long sl = sleepy && r.chance(0.4) ? r.range(1, 50) : 0;
            // post: steps, sleep, fail mode (0 no, 1 late, 2 early), number of children, children's depth, child fail
            long fail = r.chance(pf) ? r.range(1, 2) : 0;
            long kids = nested && r.chance(0.4) ? r.range(1, 3) : 0;
            long depth = kids ? r.range(1, 3) : 0;
            if (deep && k == 0) kids = r.range(1, 2), depth = r.range(6, 40);
            long cfail = kids && r.chance(pf) ? 1 : 0;
            c.op("post", {steps, sl, fail, kids, depth, cfail});
        }
        if (r.chance(0.85) || i + 1 < rounds) c.op("join");
        if (r.chance(0.1)) c.op("join");
        if (r.chance(0.15)) c.op("pause", {r.range(1, 100)});
    }
}

int add_spec(Shared &s, long steps, long sl, long fail, long kids, long depth, long cfail)
{
    int id = static_cast<int>(s.specs.size());
    s.specs.emplace_back();
    TaskSpec t;
    t.id = id;
    t.steps = static_cast<int>(steps % 64);
    t.sleep_us = static_cast<int>(sl % 1000);
    t.fails = fail != 0;
    t.fail_late = fail != 2;
    if (depth > 0)
        for (long k = 0; k < kids && s.specs.size() < 1000; ++k)
            t.children.push_back(add_spec(s, steps / 2, sl, (cfail && k == 0) ? 1 : 0, depth > 3 ? kids - k : kids - 1, depth - 1, cfail));
    s.specs[static_cast<size_t>(id)] = t;
    return id;
}

void run_pool(const Case &c, bool failing)
{
    auto s = std::make_unique<Shared>();
    size_t threads = static_cast<size_t>(c.P("threads", 2, 0, 32));
    double palloc = static_cast<double>(c.P("alloc", 0, 0, 200)) / 1000.0;
    std::vector<int> top;
    for (auto &op : c.ops)
        if (op.k == "post")
            top.push_back(add_spec(*s, op.A(0), op.A(1), failing ? op.A(2) : 0, std::min<long>(op.A(3), 4), std::min<long>(op.A(4), 50), failing ? op.A(5) : 0));
    size_t n = s->specs.size();
    s->posted.resize(n);
    s->started.resize(n);
    s->finished.resize(n);
    s->result.resize(n);
    s->scratch.resize(n);

    // Construction itself is fault-free: boost::asio::thread_pool deadlocks when its own constructor fails half way, which
    // is not this project's code.
    auto pool = std::make_unique<ThreadPool>(threads);
    s->pool = pool.get();

    size_t next = 0;
    std::vector<char> checked(n, 0);
    bool pending_failure = false;
    long joins = 0;
    auto check_all = [&](const char *when, bool threw, int thrown_id, bool clean)
    {
        Quiet q;
        if (s->running != 0) violation("returned early", "%s while %d task(s) are still running", when, s->running);
        bool any_failed = false, thrown_ok = false;
        for (size_t i = 0; i < n; ++i)
        {
            if (s->posted[i] != s->finished[i])
                violation("returned early", "%s but task %zu was posted %d time(s) and finished %d time(s)", when, i, s->posted[i], s->finished[i]);
            if (s->posted[i] && !checked[i])
            {
                checked[i] = 1;
                if (s->specs[i].fails)
                {
                    any_failed = true;
                    if (static_cast<int>(i) == thrown_id) thrown_ok = true;
                }
                else if (clean)
                    sim::obs(i * 3 + 1);
            }
        }
        if (failing)
        {
            if (any_failed && !threw) violation("failure lost", "%s returned normally although a task of the round failed", when);
            if (!any_failed && threw) violation("stale failure", "%s threw although no task of the round failed", when);
            if (threw && !thrown_ok) violation("foreign failure", "%s threw the failure of task %d, which is not of this round", when, thrown_id);
            if (threw) sim::probe("failure surfaced at join");
        }
        else if (threw) violation("unexpected exception", "%s threw although no task failed", when);
        // Results written by tasks must be visible here without further synchronisation (race-checked reads).
    };
    auto read_results = [&]
    {
        for (size_t i = 0; i < n; ++i)
        {
            if (!s->posted[i] || s->specs[i].fails) continue;
            long want = 0;
            for (int k = 0; k < s->specs[i].steps; ++k) want += k;
            if (s->result[i] != want + 1) violation("lost effect", "the result of task %zu is not visible after join", i);
            if (s->scratch[i].size() != static_cast<size_t>(s->specs[i].steps)) violation("lost effect", "task %zu ran partially", i);
        }
    };
    auto do_join = [&](const char *when)
    {
        bool threw = false;
        int id = -1;
        try
        {
            pool->join();
        }
        catch (const TaskError &e)
        {
            threw = true;
            id = e.id;
        }
        catch (const ForeignError &e)
        {
            threw = true;
            id = e.id;
        }
        ++joins;
        check_all(when, threw, id, true);
        read_results();
        pending_failure = false;
    };

    for (auto &op : c.ops)
    {
        if (op.k == "post")
        {
            try
            {
                sim::AllocFaults f(palloc);
                post_task(s.get(), top[next]);
            }
            catch (const std::bad_alloc &)
            {
                sim::probe("post failed");
            }
            ++next;
        }
        else if (op.k == "join") do_join("join()");
        else if (op.k == "pause") std::this_thread::sleep_for(std::chrono::microseconds(op.A(0) % 1000));
    }
    if (c.P("final_join", 1, 0, 1)) do_join("the last join()");
    pool.reset();
    {
        Quiet q;
        if (s->running != 0) violation("returned early", "pool destruction while %d task(s) are still running", s->running);
        for (size_t i = 0; i < n; ++i)
            if (s->posted[i] != s->finished[i])
                violation("lost task", "pool destroyed but task %zu was posted %d time(s) and finished %d time(s)", i, s->posted[i], s->finished[i]);
        if (sim::live_threads() != 1) violation("thread leak", "%d thread(s) left after pool destruction", sim::live_threads() - 1);
    }
    read_results();
    if (joins > 0 && n > 0 && threads > 0) sim::nontrivial();
    if (failing)
    {
        bool f = false;
        for (size_t i = 0; i < n; ++i) f = f || (s->posted[i] && s->specs[i].fails);
        if (!f) return;
        sim::probe("rounds with failing tasks");
    }
}

void gen06(Rng &r, Case &c) { gen_common(r, c, false); }
void run06(const Case &c) { run_pool(c, false); }
void gen07(Rng &r, Case &c) { gen_common(r, c, true); }
void run07(const Case &c) { run_pool(c, true); }

const char *const REAL = "thread pool context, executor and pool, boost::asio::thread_pool, std::mutex/condition_variable wrappers";
const char *const STUB = "pthread scheduling, wake-up order, sleeps and clocks, allocator failures (simulator)";

sim::Register r06({"C06", "pool_rounds", 1, gen06, run06,
                   "Random rounds of posted (also nested, sleeping) tasks and joins on pools of 0..8 workers; non-trivial when tasks ran with at "
                   "least one worker and at least one join.",
                   REAL, STUB, 0, 0});
sim::Register r07({"C07", "pool_failures", 1, gen07, run07,
                   "The same with tasks that throw before or after their work and nested posts; non-trivial as for pool_rounds.", REAL, STUB, 0, 0});
}  // namespace
