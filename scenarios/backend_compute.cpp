// C08 multi-threaded equals single-threaded, C09 reproducible, C10 race-free, C11 every spike has exactly its impacts.
#include <thread>

#include "backend_net.h"

using namespace net;

namespace
{
// ---- C08 ----------------------------------------------------------------------------------------------------------
void gen08(Rng &r, Case &c)
{
    GenOptions o;
    o.locks = r.chance(0.3);
    o.cuts = r.chance(0.2);
    gen_net(r, c, o);
}
void run_world(World &w)
{
    for (size_t cut : w.s.cuts)
        if (cut) w.run_to(cut);
    w.run_to(w.s.steps);
}
void run08(const Case &c)
{
    Spec s = parse(c, true);
    Net a = make_st(s);
    World wa(a, s);
    wa.dump_each = true;
    {
        Quiet q;
        run_world(wa);
    }
    if (tiny_impacts(wa.tr)) sim::discard("impacts too small for exact sums");
    Net b = make_mt(s, mt_params(c));
    World wb(b, s);
    wb.dump_each = true;
    run_world(wb);
    Quiet q;
    compare(s, wa.tr, wb.tr, false, "the single-threaded backend", "the multi-threaded backend");
    observe(wb.tr);
    if (wa.tr.n_impacts && sim::live_threads() > 1) sim::nontrivial();
    if (wa.tr.n_spikes) sim::probe("runs with population spikes");
}

// ---- C09 ----------------------------------------------------------------------------------------------------------
void gen09(Rng &r, Case &c)
{
    GenOptions o;
    o.locks = r.chance(0.3);
    gen_net(r, c, o);
    c.p["exact"] = r.chance(0.15);
}
void run09(const Case &c)
{
    Spec s = parse(c, true);
    Trace t[2];
    for (int k = 0; k < 2; ++k)
    {
        Net b = make_mt(s, mt_params(c));
        World w(b, s);
        w.dump_each = true;
        run_world(w);
        t[k] = std::move(w.tr);
    }
    Quiet q;
    compare(s, t[0], t[1], true, "one run", "another run");
    observe(t[1]);
    if (t[0].n_impacts) sim::nontrivial();
    if (t[0].n_spikes) sim::probe("runs with population spikes");
}

// ---- C10 ----------------------------------------------------------------------------------------------------------
void gen10(Rng &r, Case &c)
{
    GenOptions o;
    o.locks = r.chance(0.5);
    o.cuts = r.chance(0.2);
    gen_net(r, c, o);
    c.p["exact"] = r.chance(0.5);
    c.p["feeder"] = r.chance(0.4);
    c.p["watcher"] = r.chance(0.3);
}
void run10(const Case &c)
{
    Spec s = parse(c, true);
    Net b = make_mt(s, mt_params(c));
    World w(b, s);
    std::thread feeder, watcher;
    std::atomic<bool> done{false};
    bool with_feeder = c.P("feeder", 0, 0, 1);
    kc::MessageEndpoint fe = b.b->get_message_bus().create_endpoint();
    if (with_feeder)
        feeder = std::thread(
            [&]
            {
                for (size_t i = 0; i < s.steps; ++i)
                {
                    for (size_t k = 0; k < SENDERS; ++k)
                    {
                        km::SpikeMessage m;
                        {
                            Quiet q;
                            m.header_ = {sender_uid(k), i};
                            m.neuron_indexes_ = w.indices(k, static_cast<long>(i * 7 + k * 3 + 1), false);
                        }
                        fe.send_message(m);
                    }
                    sim::yield_point();
                }
            });
    if (c.P("watcher", 0, 0, 1))
        watcher = std::thread(
            [&]
            {
                for (int i = 0; i < 40 && !done; ++i)
                {
                    sim::obs(b.b->running());
                    sim::yield_point();
                }
            });
    run_world(w);
    done = true;
    if (feeder.joinable()) feeder.join();
    if (watcher.joinable()) watcher.join();
    Quiet q;
    // Sanity: spikes of a population are valid neuron numbers, each at most once per step.
    for (auto &st : w.tr.steps)
        for (size_t i = 0; i < s.pops.size(); ++i)
        {
            std::set<uint32_t> seen;
            if (st.second.spikes[i].size() > 1) violation("several spike messages", "population %zu sent %zu spike messages in step %zu", i, st.second.spikes[i].size(), st.first);
            for (auto &m : st.second.spikes[i])
                for (auto x : m.neuron_indexes_)
                    if (x >= s.pops[i].n || !seen.insert(x).second) violation("bad spike", "step %zu: population %zu reports neuron %u (again)", st.first, i, x);
        }
    observe(w.tr);
    if (w.tr.n_impacts) sim::nontrivial();
    if (with_feeder) sim::probe("runs with a concurrent feeder");
    if (w.tr.n_spikes) sim::probe("runs with population spikes");
}

// ---- C11 ----------------------------------------------------------------------------------------------------------
// Reference model of the projections: impacts pending per step, built from the spikes that were seen.
struct Ref
{
    const Spec &s;
    World &w;
    std::vector<std::map<size_t, std::vector<km::SynapticImpact>>> pending;
    std::vector<std::vector<double>> sink;      // running sums of sink populations
    std::vector<std::vector<std::pair<uint32_t, double>>> arriving;   // impacts that reach the sinks next step
    std::vector<std::vector<float>> prev_weights;
    size_t checked = 0, late = 0, multi = 0;

    Ref(World &world) : s(world.s), w(world), pending(world.s.projs.size()), sink(world.s.pops.size()), arriving(world.s.pops.size()), prev_weights(world.s.projs.size())
    {
        for (size_t i = 0; i < s.pops.size(); ++i) sink[i].assign(s.pops[i].n, 0.0);
        size_t k = 0;
        w.n.each_proj([&](auto &p) { for (auto &x : p) prev_weights[k].push_back(std::get<kc::synapse_data>(x).weight_); ++k; });
    }
    void after(size_t step)
    {
        StepRec &r = w.tr.steps[step];
        // What acted on the sinks in this step: impacts emitted in the step before and external impacts sent for this one.
        for (size_t i = 0; i < s.pops.size(); ++i)
            for (auto &x : arriving[i]) sink[i][x.first] += x.second;
        for (auto &e : s.events)
        {
            if (e.kind != Event::IMPACT || e.step != step) continue;
            size_t p = static_cast<size_t>(e.a[0]);
            if (s.pops[p].type != SINK || !s.pops[p].n) continue;
            double v = static_cast<float>(e.a[2] % 33) / 16.F;
            sink[p][static_cast<size_t>(e.a[1]) % s.pops[p].n] += e.a[3] & 2 ? -v : v;
        }
        for (auto &a : arriving) a.clear();
        size_t k = 0;
        w.n.each_pop(
            [&](auto &pop)
            {
                using N = typename std::decay_t<decltype(pop)>::PopulationNeuronType;
                if constexpr (std::is_same_v<N, nt::BLIFATNeuron>)
                    if (s.pops[k].type == SINK)
                        for (size_t j = 0; j < pop.size(); ++j)
                            if (pop[j].potential_ != sink[k][j])
                                violation("wrong effect", "after step %zu neuron %zu of accumulating population %zu holds %.9g, the impacts due so far sum to %.9g", step, j, k,
                                          pop[j].potential_, sink[k][j]);
                ++k;
            });
        k = 0;
        w.n.each_proj([&](auto &p) { project(p, k++, step, r); });
    }
    template <class P>
    void project(P &p, size_t i, size_t step, StepRec &r)
    {
        const ProjSpec &ps = s.projs[i];
        std::vector<std::vector<uint32_t>> in;
        for (auto &e : s.events)
            if (e.kind == Event::SPIKES && e.step == step)
            {
                bool fed = false;
                for (auto &f : s.feeds) fed = fed || (f.first == i && f.second == static_cast<size_t>(e.a[0]));
                if (fed) in.push_back(w.indices(static_cast<size_t>(e.a[0]), e.a[1], e.a[2] & 1));
            }
        bool own = ps.pre >= 0;
        if (ps.type == ADDITIVE && ps.pre >= 0 && ps.pre == ps.post) own = true;
        if (own)
            for (auto &m : r.spikes[static_cast<size_t>(ps.pre)]) in.push_back(m.neuron_indexes_);
        if (in.size() > 1) ++multi;
        for (auto &v : in)
            for (uint32_t src : v)
                for (size_t k = 0; k < p.size(); ++k)
                {
                    auto &syn = p[k];
                    if (std::get<kc::source_neuron_id>(syn) != src) continue;
                    auto &d = std::get<kc::synapse_data>(syn);
                    // Additive learning changes weights after impacts were computed; resource learning before.
                    float weight = ps.type == ADDITIVE ? prev_weights[i][k] : d.weight_;
                    pending[i][step + d.delay_ - 1].push_back({k, weight, d.output_type_, src, static_cast<uint32_t>(std::get<kc::target_neuron_id>(syn))});
                    if (d.delay_ > 1) ++late;
                }
        auto &due = pending[i][step];
        auto &got = r.impacts[i];
        if (got.size() > 1) violation("several messages", "step %zu: projection %zu sent %zu impact messages", step, i, got.size());
        std::vector<km::SynapticImpact> have;
        if (!got.empty())
        {
            have = got[0].impacts;
            if (have.empty()) violation("empty message", "step %zu: projection %zu sent a message without impacts", step, i);
            if (!got[0].pre_ok || !got[0].post_ok)
                violation("wrong endpoints", "step %zu: impacts of projection %zu name a wrong %s population", step, i, got[0].pre_ok ? "postsynaptic" : "presynaptic");
            if (got[0].forcing != (ps.type == DELTA))
                violation("wrong kind", "step %zu: impacts of projection %zu are%s marked as forcing", step, i, got[0].forcing ? "" : " not");
        }
        if (have.size() != due.size())
            violation(have.size() < due.size() ? "missing impact" : "extra impact", "step %zu: projection %zu emits %zu impact(s), %zu are due", step, i, have.size(), due.size());
        std::sort(have.begin(), have.end(), imp_less);
        std::sort(due.begin(), due.end(), imp_less);
        for (size_t k = 0; k < due.size(); ++k)
            if (!imp_same(have[k], due[k]))
                violation("wrong impact", "step %zu, projection %zu: emitted synapse %zu value %.9g type %d from %u to %u, due is synapse %zu value %.9g type %d from %u to %u", step, i,
                          static_cast<size_t>(have[k].connection_index_), have[k].impact_value_, static_cast<int>(have[k].synapse_type_), have[k].presynaptic_neuron_index_,
                          have[k].postsynaptic_neuron_index_, static_cast<size_t>(due[k].connection_index_), due[k].impact_value_, static_cast<int>(due[k].synapse_type_),
                          due[k].presynaptic_neuron_index_, due[k].postsynaptic_neuron_index_);
        checked += due.size();
        if (ps.post >= 0 && s.pops[static_cast<size_t>(ps.post)].type == SINK)
            for (auto &x : due)
                arriving[static_cast<size_t>(ps.post)].push_back({x.postsynaptic_neuron_index_, x.synapse_type_ == st::OutputType::INHIBITORY_CURRENT ? -double(x.impact_value_) : double(x.impact_value_)});
        pending[i].erase(step);
        prev_weights[i].clear();
        for (auto &x : p) prev_weights[i].push_back(std::get<kc::synapse_data>(x).weight_);
    }
};
void gen11(Rng &r, Case &c)
{
    GenOptions o;
    bool mt = r.chance(0.6);
    o.st_types = !mt;
    o.sinks = true;
    o.cuts = r.chance(0.5);
    o.locks = r.chance(0.2);
    gen_net(r, c, o);
    c.p["mt"] = mt;
    if (r.chance(0.3)) c.op("dopple", {});
}
void run11(const Case &c)
{
    bool mt = c.P("mt", 1, 0, 1);
    Spec s = parse(c, mt);
    Net n = mt ? make_mt(s, mt_params(c)) : make_st(s);
    World w(n, s);
    std::unique_ptr<Ref> ref;
    {
        Quiet q;
        ref = std::make_unique<Ref>(w);
    }
    size_t pieces = 0;
    auto run_to = [&](size_t end)
    {
        if (n.b->get_step() >= end) return;
        ++pieces;
        n.b->start([&](kc::Step st) { return w.pre(st); },
                   [&](kc::Step st)
                   {
                       w.post(st);
                       Quiet q;
                       ref->after(st - 1);
                       return st < end;
                   });
        if (n.b->get_step() != end) violation("step counter", "after step %zu the counter says %zu", end, static_cast<size_t>(n.b->get_step()));
    };
    for (size_t cut : s.cuts) run_to(cut);
    run_to(s.steps);
    Quiet q;
    observe(w.tr);
    if (ref->checked) sim::nontrivial();
    if (ref->late) sim::probe("runs with delayed impacts");
    if (ref->multi) sim::probe("runs with several senders in a step");
    if (pieces > 1) sim::probe("runs in several pieces");
}

const char *const REAL = "both CPU backends with their thread pool, message bus and endpoints, populations, projections, neuron and synapse equations";
const char *const STUB = "thread scheduling and wake-up order, the input source and the observer (simulator and harness)";

sim::Register r08({"C08", "mt_equals_st", 1, gen08, run08,
                   "Random networks, learning, locks, delays and inputs with exactly representable values run on the single-threaded backend and, under a seeded schedule, on the "
                   "multi-threaded one with random thread count and chunk sizes; spikes, impacts and all neuron and synapse fields compared after every step. Non-trivial when impacts flowed.",
                   REAL, STUB, 0, 0});
sim::Register r09({"C09", "mt_twice", 1, gen09, run09,
                   "Random networks with arbitrary floating-point values run twice on the multi-threaded backend under different schedules; every message including the order of its "
                   "entries and every field compared bit for bit. Non-trivial when impacts flowed.",
                   REAL, STUB, 0, 0});
sim::Register r10({"C10", "mt_races", 1, gen10, run10,
                   "Random networks on the multi-threaded backend with happens-before race detection over every memory access, with locks toggled between steps and optionally a concurrent "
                   "feeder and a thread polling the status. Non-trivial when impacts flowed.",
                   REAL, STUB, 0, 0});
sim::Register r11({"C11", "impact_model", 1, gen11, run11,
                   "Random networks on either backend, cut into pieces at random steps, against a reference model of pending impacts and accumulating target neurons. Non-trivial when impacts "
                   "were due.",
                   REAL, STUB, 0, 0});
}  // namespace
