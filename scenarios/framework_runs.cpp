// C12 stop and status, C13 runs in pieces, C14 failures inside a run.
#include "framework_rig.h"

using namespace rig;

namespace
{
enum { IDLE, UNKNOWN, INLOOP };

void gen_segments(Rng &r, Case &c, bool throwing, long max_at)
{
    long n = r.range(1, 5);
    for (long i = 0; i < n; ++i)
    {
        long how = throwing && r.chance(0.6) ? r.range(THROW_PRE, THROW_HANDLER) : r.range(PRE_FALSE, STOP_STEP);
        c.op("seg", {r.range(0, 2), how, r.range(0, max_at)});
    }
}
std::vector<Segment> segments(const Case &c, int hows)
{
    std::vector<Segment> v;
    for (auto &op : c.ops)
        if (op.k == "seg" && v.size() < 8) v.push_back({static_cast<int>(op.idx(0, 3)), static_cast<int>(op.idx(1, static_cast<size_t>(hows))), op.idx(2, 64)});
    return v;
}
std::vector<HandlerSpec> handler_specs(const Case &c, const Spec &s)
{
    std::vector<HandlerSpec> v;
    for (auto &op : c.ops)
        if (op.k == "handler" && v.size() < 3 && !s.projs.empty()) v.push_back({op.idx(0, s.pops.size()), op.idx(1, s.projs.size())});
    return v;
}
void gen_rig(Rng &r, Case &c, bool small)
{
    GenOptions o;
    c.p["mt"] = r.chance(0.5);
    c.p["exec"] = r.chance(0.5);
    o.st_types = !c.p["mt"];
    if (small) o.max_pop = 4, o.max_syn = 8, o.max_steps = 8;
    o.locks = r.chance(0.2);
    gen_net(r, c, o);
    c.p["exact"] = r.chance(0.5);
    long nh = r.chance(0.5) ? r.range(1, 2) : 0;
    for (long i = 0; i < nh; ++i) c.op("handler", {r.range(0, 3), r.range(0, 3)});
}

// One rig driven segment by segment, with the checks of C12 and C14 on the way.
struct Driver
{
    Rig &r;
    std::atomic<long> epoch{0};
    std::atomic<bool> entered{false}, watching{true};
    size_t limit;               // no segment goes beyond this step
    // of the current segment
    int style = 0, how = 0;
    size_t at = 0, calls = 0, pres = 0, posts = 0;
    bool fired = false, stopped = false, check_status = false, comparing = false;
    std::string expect;         // text of the injected exception
    size_t segments_run = 0;
    std::map<int, size_t> count;

    Driver(Rig &rig, size_t lim) : r(rig), limit(lim)
    {
        r.on_pre = [this](size_t step) { return pre(step); };
        r.on_post = [this](size_t next) { return post(next); };
        r.on_generator = [this](size_t step) { generator(step); };
        r.on_handler = [this](size_t) { handler(); };
        r.hooks.before = [this] { before(); };
        r.hooks.after = [this] { after(); };
    }
    ~Driver()
    {
        r.on_pre = nullptr, r.on_post = nullptr, r.on_generator = nullptr, r.on_handler = nullptr;
        r.hooks.before = nullptr, r.hooks.after = nullptr;
    }
    void set(int st) { epoch.store((((epoch.load() >> 2) + 1) << 2) | st); }
    void enter(const char *where)
    {
        if (!entered)
        {
            set(INLOOP);
            entered = true;
        }
        if (check_status && !stopped && how != STOP_THREAD && !r.n.b->running()) violation("not running inside a run", "running() is false in %s of a run nobody stopped", where);
    }
    void end(const char *text)
    {
        fired = true;
        set(UNKNOWN);
        if (text)
        {
            { Quiet q; expect = text; }
            throw_injected(text, at + calls + static_cast<size_t>(how));
        }
    }
    void stop_now()
    {
        end(nullptr);
        stopped = true;
        stop_begun = r.hooks.begun;
        r.stop();
    }
    size_t stop_begun = 0, stop_allow = 0;
    bool loop_hooks() const { return style == LOOP; }
    bool has_post() const { return r.exec || style == CALLBACKS; }

    bool pre(size_t step)
    {
        enter("the predicate");
        if (step != r.hooks.completed) violation("step argument", "the predicate of step %zu was called with %zu", r.hooks.completed, step);
        if (has_post() && posts != calls) violation("callback skipped", "%zu step(s) ended, the step-end callback was called %zu time(s)", calls, posts);
        ++pres;
        if (step >= limit) return end(nullptr), false;
        if (calls < at || fired) return true;
        if (how == PRE_FALSE) return end(nullptr), false;
        if (how == STOP_PRE) stop_allow = 1, stop_now();
        if (how == THROW_PRE) end("predicate failed");
        return true;
    }
    bool post(size_t next)
    {
        enter("the step-end callback");
        if (next != r.hooks.completed) violation("step argument", "the callback after %zu steps was called with %zu", r.hooks.completed, next);
        ++posts;
        if (calls <= at || fired) return true;
        if (how == POST_FALSE && !r.exec) return end(nullptr), false;
        if (how == STOP_POST || how == POST_FALSE) stop_now();
        if (how == THROW_POST) end("callback failed");
        return true;
    }
    void before()
    {
        enter("a step");
        if (style != LOOP && pres != calls + 1) violation("predicate skipped", "step %zu of the run begins after %zu call(s) of the predicate", calls, pres);
        if (loop_hooks()) r.w->pre(r.n.b->get_step());
        size_t mine = calls++;
        if (mine < at || fired)
        {
            if (loop_hooks() && !fired && (r.n.b->get_step() + 1 >= limit || mine > at + 6)) stop_now();
            return;
        }
        if (how == THROW_STEP) end("step failed");
        else if (how == STOP_STEP) stop_now();
        else if (loop_hooks() && r.n.b->get_step() + 1 >= limit) stop_now();
    }
    void after()
    {
        if (style != CALLBACKS && !r.exec) post_loop();
    }
    void post_loop() { r.w->post(r.n.b->get_step()); }
    void generator(size_t)
    {
        enter("an input generator");
        if (how == THROW_GENERATOR && calls >= at && !fired) end("generator failed");
    }
    void handler()
    {
        enter("a message handler");
        if (how == THROW_HANDLER && calls > at && !fired) end("handler failed");
    }
    // What can end a run of this style.
    void normalise(Segment g)
    {
        style = g.style, how = g.how, at = g.at;
        bool gen = !r.generated_senders().empty(), hand = !r.handlers.empty();
        if (how == THROW_GENERATOR && (!r.exec || !gen)) how = THROW_STEP;
        if (how == THROW_HANDLER && (!r.exec || !hand)) how = THROW_STEP;
        bool has_pre = style != LOOP, has_post = this->has_post();
        if (!has_pre)
        {
            if (how == PRE_FALSE || how == STOP_PRE) how = STOP_STEP;
            if (how == THROW_PRE) how = THROW_STEP;
        }
        if (!has_post)
        {
            if (how == POST_FALSE) how = has_pre ? PRE_FALSE : STOP_STEP;
            if (how == STOP_POST) how = STOP_STEP;
            if (how == THROW_POST) how = THROW_STEP;
        }
        // Inputs of the executor are on their way when the step begins; what a step that fails did with them is not compared.
        if (comparing && r.exec && how == THROW_STEP) how = THROW_POST;
    }
    void run(Segment g)
    {
        normalise(g);
        ++segments_run;
        ++count[how];
        calls = pres = posts = 0;
        fired = stopped = false;
        expect.clear();
        stop_allow = 0;
        size_t first = r.n.b->get_step();
        if (first >= limit) return;
        if (check_status && r.n.b->running()) violation("running while idle", "running() is true before the run starts");
        set(UNKNOWN);
        entered = false;
        std::thread stopper;
        std::atomic<bool> start_returned{false};
        size_t begun_at_stop = 0;
        std::atomic<bool> did_stop{false};
        if (how == STOP_THREAD)
            stopper = std::thread(
                [&]
                {
                    while (!entered && !start_returned) sim::yield_point();
                    for (size_t i = 0; i < at * 3 && !start_returned; ++i) sim::yield_point();
                    set(UNKNOWN);
                    r.stop();
                    { Quiet q; begun_at_stop = r.hooks.begun; }
                    did_stop = true;
                });
        std::string caught;
        bool threw = false;
        // Bounded liveness: with a stop coming, the run must end; the simulator reports one that does not.
        try
        {
            r.start(style);
        }
        catch (const Injected &e)
        {
            Quiet q;
            threw = true;
            caught = e.what();
        }
        catch (const Foreign &e)
        {
            Quiet q;
            threw = true;
            caught = e.what();
        }
        catch (const char *e)
        {
            Quiet q;
            threw = true;
            caught = e;
        }
        bool still = r.n.b->running();
        start_returned = true;
        if (still && how != STOP_THREAD && (check_status || threw)) violation("running after the run", "start() %s after step %zu, yet running() is true", threw ? "threw" : "returned", static_cast<size_t>(r.n.b->get_step()));
        if (stopper.joinable()) stopper.join();
        if (still && check_status) violation("running after the run", "start() returned after a stop from another thread, yet running() was true");
        set(IDLE);
        Quiet q;
        if (threw != !expect.empty() || caught != expect)
            violation("failure not reported", "a callback threw \"%s\", start() %s%s", expect.c_str(), threw ? "threw " : "returned normally", caught.c_str());
        if (r.n.b->get_step() != r.hooks.completed)
            violation("step counter", "%zu steps were completed, the counter says %zu", r.hooks.completed, static_cast<size_t>(r.n.b->get_step()));
        if (stopped && r.hooks.begun - stop_begun > stop_allow)
            violation("ran on after stop", "%zu step(s) began after a callback stopped the run", r.hooks.begun - stop_begun);
        if (did_stop && r.hooks.begun > begun_at_stop + 1)
            violation("ran on after stop", "%zu step(s) began after another thread stopped the run", r.hooks.begun - begun_at_stop);
        if (!fired && !did_stop) violation("run ended by itself", "the run returned after step %zu although nothing ended it", static_cast<size_t>(r.n.b->get_step()));
        // A failing handler keeps the executor from telling its observers about a step.
        if (r.w->posted() < r.n.b->get_step())
        {
            // The observer of the rig keeps its messages for the next time it is told.
            r.w->post(r.n.b->get_step());
        }
    }
    void finish(size_t end)
    {
        limit = end;
        while (r.n.b->get_step() < end)
        {
            size_t before_steps = r.n.b->get_step();
            run({PREDICATE, PRE_FALSE, 1000});
            if (r.n.b->get_step() == before_steps) violation("no progress", "a run that may take %zu more steps took none", end - before_steps);
        }
    }
    void watch()
    {
        for (int i = 0; i < 400 && watching; ++i)
        {
            long e1 = epoch.load();
            bool run = r.n.b->running();
            long e2 = epoch.load();
            if (e1 == e2 && (e1 & 3) == IDLE && run) violation("running while idle", "another thread saw running() while no run was in progress");
            if (e1 == e2 && (e1 & 3) == INLOOP && !run) violation("not running inside a run", "another thread saw running() false in the middle of a run");
            sim::yield_point();
        }
    }
};

// ---- C12 ----------------------------------------------------------------------------------------------------------
void gen12(Rng &r, Case &c)
{
    gen_rig(r, c, true);
    bool far = r.chance(0.04);
    c.p["limit"] = far ? r.range(60, 300) : 30;
    gen_segments(r, c, r.chance(0.4), far ? 63 : 5);
    c.p["watcher"] = r.chance(0.6);
}
void run12(const Case &c)
{
    bool mt = c.P("mt", 0, 0, 1), exec = c.P("exec", 0, 0, 1);
    Spec s = parse(c, mt);
    Rig rig(s, c, mt, exec, handler_specs(c, s));
    Driver d(rig, static_cast<size_t>(c.P("limit", 30, 0, 300)));
    d.check_status = true;
    std::thread watcher;
    if (c.P("watcher", 0, 0, 1)) watcher = std::thread([&] { d.watch(); });
    for (auto &g : segments(c, HOWS))
    {
        d.run(g);
        sim::yield_point();
    }
    d.watching = false;
    if (watcher.joinable()) watcher.join();
    Quiet q;
    sim::obs(rig.hooks.completed);
    if (rig.hooks.completed) sim::nontrivial();
    if (d.count[STOP_THREAD]) sim::probe("runs stopped by another thread");
    if (exec) sim::probe("runs of a model executor");
}

// ---- C13 ----------------------------------------------------------------------------------------------------------
void reference(Rig &whole, Rig &pieces, size_t steps)
{
    whole.replay_handled = nullptr;
    Driver d(whole, steps);
    if (steps) d.finish(steps);
    Quiet q;
    compare(whole.s, whole.w->tr, pieces.w->tr, true, "the uninterrupted run", "the interrupted one");
}
void gen13(Rng &r, Case &c)
{
    gen_rig(r, c, false);
    gen_segments(r, c, false, 4);
}
void run13(const Case &c)
{
    bool mt = c.P("mt", 0, 0, 1), exec = c.P("exec", 0, 0, 1);
    Spec s = parse(c, mt);
    size_t steps;
    Rig pieces(s, c, mt, exec, handler_specs(c, s));
    pieces.w->dump_each = true;
    size_t n;
    {
        Driver d(pieces, s.steps + 6);
        for (auto &g : segments(c, STOP_STEP + 1)) d.run(g);
        if (pieces.n.b->get_step() < s.steps) d.finish(s.steps);
        steps = pieces.n.b->get_step();
        n = d.segments_run;
    }
    Rig whole(s, c, mt, exec, handler_specs(c, s));
    whole.w->dump_each = true;
    reference(whole, pieces, steps);
    Quiet q;
    observe(pieces.w->tr);
    if (n > 1 && pieces.w->tr.n_impacts) sim::nontrivial();
    if (exec) sim::probe("runs of a model executor");
    if (mt) sim::probe("runs on the multi-threaded backend");
}

// ---- C14, callbacks -----------------------------------------------------------------------------------------------
void gen14(Rng &r, Case &c)
{
    gen_rig(r, c, false);
    gen_segments(r, c, true, 4);
}
void run14(const Case &c)
{
    bool mt = c.P("mt", 0, 0, 1), exec = c.P("exec", 0, 0, 1);
    Spec s = parse(c, mt);
    size_t steps, failures = 0;
    Rig pieces(s, c, mt, exec, handler_specs(c, s));
    pieces.w->dump_each = true;
    {
        Driver d(pieces, s.steps + 6);
        d.comparing = true;
        for (auto &g : segments(c, HOWS)) d.run(g);
        if (pieces.n.b->get_step() < s.steps) d.finish(s.steps);
        steps = pieces.n.b->get_step();
        for (int h = THROW_PRE; h < HOWS; ++h) failures += d.count[h];
    }
    Rig whole(s, c, mt, exec, handler_specs(c, s));
    whole.w->dump_each = true;
    whole.replay_handled = &pieces.handled;
    {
        Driver d(whole, steps);
        if (steps) d.finish(steps);
    }
    Quiet q;
    compare(s, whole.w->tr, pieces.w->tr, true, "the run without failures", "the run with failing callbacks");
    observe(pieces.w->tr);
    if (failures) sim::nontrivial();
    if (exec) sim::probe("runs of a model executor");
    if (mt) sim::probe("runs on the multi-threaded backend");
}

// ---- C14, failures of the step itself -----------------------------------------------------------------------------
void gen14b(Rng &r, Case &c)
{
    gen_rig(r, c, false);
    c.p["exec"] = 0;
    c.p["alloc"] = r.chance(0.75) ? r.range(1, 60) : 0;
    c.p["everywhere"] = r.chance(0.6);
    long k = r.chance(0.5) ? 1 : 2;
    for (long i = 0; i < k; ++i)
        if (r.chance(0.7)) c.op("poison", {r.range(0, c.p["steps"] - 1), r.range(0, 3), r.range(0, 1)});
}
void run14b(const Case &c)
{
    bool mt = c.P("mt", 0, 0, 1);
    Spec s = parse(c, mt);
    // An impact that a LIF population refuses makes the step fail.
    struct Poison { size_t step, pop; bool dopamine; };
    std::vector<Poison> poison;
    for (auto &op : c.ops)
        if (op.k == "poison")
        {
            size_t p = op.idx(1, s.pops.size());
            if (s.pops[p].type == LIF && s.pops[p].n) poison.push_back({op.idx(0, s.steps), p, op.A(2) != 0});
        }
    double p = static_cast<double>(c.P("alloc", 0, 0, 1000)) / 2000.0;
    bool everywhere = c.P("everywhere", 0, 0, 1);
    Rig rig(s, c, mt, false, {});
    rig.w->dump_each = true;
    bool failed = false, poisoned = false;
    size_t good = 0, outstanding = 0;     // refused impacts that may still be on their way
    size_t not_begun = 0;
    auto step_once = [&](size_t step, bool faults, bool input = true)
    {
        bool threw = false;
        size_t begun = rig.hooks.begun;
        poisoned = false;
        {
            Quiet q;
            if (input) rig.w->pre(step);
            if (faults)
                for (auto &x : poison)
                    if (x.step == step)
                    {
                        km::SynapticImpactMessage m;
                        m.header_ = {sender_uid(SENDERS + x.pop), step};
                        m.presynaptic_population_uid_ = no_uid();
                        m.postsynaptic_population_uid_ = pop_uid(x.pop);
                        m.impacts_.push_back({0, 1.F, x.dopamine ? st::OutputType::DOPAMINE : st::OutputType::BLOCKING, 0, 0});
                        rig.w->in.send_message(m);
                        poisoned = true;
                        ++outstanding;
                    }
        }
        rig.hooks.before = [&]
        {
            if (faults && everywhere) sim::alloc_faults_everywhere(p);
        };
        rig.hooks.after = [&] { sim::alloc_faults_everywhere(0); };
        try
        {
            sim::AllocFaults af(faults ? p : 0.0);
            rig.n.b->start([&](kc::Step st) { return st == step; });
        }
        catch (const std::bad_alloc &)
        {
            threw = true;
            if (!(p > 0 && faults)) violation("unexpected failure", "step %zu failed with bad_alloc although no allocation was refused", step);
        }
        catch (const std::exception &e)
        {
            Quiet q;
            threw = true;
            if (!outstanding) violation("unexpected failure", "step %zu failed: %s", step, e.what());
        }
        sim::alloc_faults_everywhere(0);
        if (threw && rig.hooks.begun == begun) ++not_begun;
        if (threw && rig.n.b->running()) violation("running after the run", "start() %s in step %zu, yet running() is true", threw ? "threw" : "returned", step);
        if (rig.n.b->get_step() != step + !threw) violation("step counter", "step %zu %s, the counter says %zu", step, threw ? "failed" : "was completed", static_cast<size_t>(rig.n.b->get_step()));
        if (poisoned && !threw && !p) violation("failure not reported", "an impact that step %zu cannot process was ignored", step);
        return threw;
    };
    for (size_t step = 0; step < s.steps && !failed; ++step)
    {
        failed = step_once(step, true);
        if (failed && not_begun == 1 && !outstanding)
        {
            // Nothing was done yet, so the next start does all of it.
            ++not_begun;
            sim::probe("runs that failed before their first step");
            failed = false;
            if (step_once(step, false, false)) violation("engine not usable", "step %zu fails again after the cause is gone", step);
        }
        if (!failed)
        {
            sim::NoAllocFaults na;
            rig.w->post(step + 1);
            ++good;
        }
        else sim::probe("failed steps");
    }
    // The engine goes on from the step that failed.
    if (failed)
    {
        size_t from = good;
        for (; outstanding; --outstanding)
            if (!step_once(from, false))
            {
                rig.w->post(from + 1);
                rig.w->tr.steps.erase(from++);
            }
        for (size_t step = from; step < from + 2; ++step)
        {
            if (step_once(step, false)) violation("engine not usable", "step %zu fails again after the cause is gone", step);
            rig.w->post(step + 1);
            rig.w->tr.steps.erase(step);
        }
    }
    rig.hooks.before = nullptr, rig.hooks.after = nullptr;
    // Steps completed before the failure are those of a run without failures.
    Rig ref(s, c, mt, false, {});
    ref.w->dump_each = true;
    if (good) ref.w->run_to(good);
    Quiet q;
    compare(s, ref.w->tr, rig.w->tr, true, "a run without failures", "the run that failed later");
    observe(rig.w->tr);
    if (failed) sim::nontrivial();
    if (mt) sim::probe("runs on the multi-threaded backend");
}

const char *const REAL = "both CPU backends with thread pool, bus, populations and projections; model executor, model loader, channels, handlers and observers";
const char *const STUB = "thread scheduling and memory allocation (simulator); predicates, generators, handlers and observers (harness)";

sim::Register r12({"C12", "stop_status", 1, gen12, run12,
                   "Sequences of runs in all three styles, raw or through a model executor, each ended by a predicate, a callback, an exception, a stop from a callback, from inside a step "
                   "or from another thread at a random moment, with a thread polling running(). Non-trivial when steps were executed.",
                   REAL, STUB, 0, 0});
sim::Register r13({"C13", "segments", 1, gen13, run13,
                   "A random network run in random segments ended in every non-throwing way and then compared, message by message and field by field, with an uninterrupted run. Non-trivial "
                   "with more than one segment and impacts.",
                   REAL, STUB, 0, 0});
sim::Register r14({"C14", "failing_callbacks", 1, gen14, run14,
                   "The same with predicates, callbacks, generators, handlers, observers and step entry throwing at random points; the exception must reach start() and the finished run must "
                   "equal one without failures. Non-trivial when something threw.",
                   REAL, STUB, 0, 0});
sim::Register r14b({"C14", "failing_steps", 1, gen14b, run14b,
                    "Allocation failures inside steps, on the calling thread or on all, and impacts a population refuses; start() must throw, the steps before must equal a run without "
                    "failures, the engine must go on. Non-trivial when a step failed.",
                    REAL, STUB, 0, 0});
}  // namespace
