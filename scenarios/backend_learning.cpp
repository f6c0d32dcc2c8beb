// C15 locked learning, C16 conservation of synaptic resource.
#include "backend_net.h"

using namespace net;

namespace
{
void gen_learning(Rng &r, Case &c, bool additive)
{
    c.p["mt"] = !additive && r.chance(0.5);
    GenOptions o;
    o.st_types = !c.p["mt"];
    o.max_steps = r.chance(0.3) ? 40 : 14;
    o.locks = true;
    gen_net(r, c, o);
    c.p["exact"] = r.chance(0.4);
    c.p["drain"] = r.chance(0.8);      // 1: no neuron drains resource
    bool has = false;
    for (auto &op : c.ops)
    {
        if (op.k == "pop" && r.chance(0.7)) op.a[0] = c.p["mt"] || r.chance(0.6) ? STDP_BLIFAT : STDP_ALTAI;
        if (op.k != "proj") continue;
        if (r.chance(0.7)) op.a[2] = RESOURCE;
        if (op.a[2] == ADDITIVE && !additive) op.a[2] = RESOURCE;
        if (additive && !has) op.a[2] = ADDITIVE, has = true;
    }
}

// ---- C15 ----------------------------------------------------------------------------------------------------------
// What locking must preserve.
struct Learned
{
    bool locked, additive;
    std::vector<std::vector<double>> v;
};
std::vector<Learned> learned(Net &n)
{
    Quiet q;
    std::vector<Learned> r;
    n.each_proj(
        [&](auto &p)
        {
            using S = typename std::decay_t<decltype(p)>::ProjectionSynapseType;
            Learned l{p.is_locked(), std::is_same_v<S, st::AdditiveSTDPDeltaSynapse>, {}};
            for (auto &x : p)
            {
                auto &d = std::get<kc::synapse_data>(x);
                std::vector<double> v{d.weight_, static_cast<double>(d.delay_), static_cast<double>(d.output_type_)};
                if constexpr (std::is_same_v<S, st::SynapticResourceSTDPDeltaSynapse>)
                    v.insert(v.end(), {d.rule_.synaptic_resource_, d.rule_.w_min_, d.rule_.w_max_, d.rule_.d_u_, static_cast<double>(d.rule_.dopamine_plasticity_period_),
                                       static_cast<double>(d.rule_.has_contributed_), static_cast<double>(d.rule_.had_hebbian_update_)});
                l.v.push_back(v);
            }
            r.push_back(std::move(l));
        });
    return r;
}
bool same_bits(const std::vector<double> &a, const std::vector<double> &b) { return a.size() == b.size() && !std::memcmp(a.data(), b.data(), a.size() * 8); }

struct LockWorld
{
    World w;
    size_t locked_steps = 0, learned_changes = 0;
    LockWorld(Net &n, const Spec &s) : w(n, s) { w.dump_each = true; }
    void run()
    {
        std::vector<Learned> before;
        w.n.b->start(
            [&](kc::Step st)
            {
                w.pre(st);
                before = learned(w.n);
                return true;
            },
            [&](kc::Step st)
            {
                w.post(st);
                auto after = learned(w.n);
                Quiet q;
                for (size_t i = 0; i < after.size(); ++i)
                {
                    if (after[i].locked != before[i].locked)
                        violation("lock flag changed", "step %zu changed the lock of projection %zu", static_cast<size_t>(st - 1), i);
                    if (before[i].locked) ++locked_steps;
                    for (size_t k = 0; k < after[i].v.size(); ++k)
                    {
                        if (same_bits(before[i].v[k], after[i].v[k])) continue;
                        ++learned_changes;
                        if (before[i].locked)
                            violation(after[i].additive ? "locked additive projection learned" : "locked projection learned",
                                      "step %zu changed synapse %zu of locked projection %zu: weight %.9g -> %.9g", static_cast<size_t>(st - 1), k, i, before[i].v[k][0], after[i].v[k][0]);
                    }
                }
                return st < w.s.steps;
            });
    }
};
// All lock events as seen by single projections.
void individual_locks(Spec &s)
{
    std::vector<Event> ev;
    for (auto &e : s.events)
    {
        if (e.kind != Event::LOCK || e.a[0] >= 0)
        {
            ev.push_back(e);
            continue;
        }
        for (size_t i = 0; i < s.projs.size(); ++i)
        {
            Event x = e;
            x.a[0] = static_cast<long>(i);
            ev.push_back(x);
        }
    }
    s.events = ev;
}
Net make(const Case &c, const Spec &s) { return c.P("mt", 0, 0, 1) ? make_mt(s, mt_params(c)) : make_st(s); }

void gen15(Rng &r, Case &c)
{
    gen_learning(r, c, false);
    c.p["other"] = r.range(0, 2);
    c.p["ghost_post"] = r.range(0, 3);
}
void gen15a(Rng &r, Case &c)
{
    gen_learning(r, c, true);
    c.p["other"] = 0;
}
void run15(const Case &c)
{
    bool mt = c.P("mt", 0, 0, 1);
    Spec s = parse(c, mt);
    Net a = make(c, s);
    LockWorld wa(a, s);
    wa.run();
    long other = c.P("other", 0, 0, 2);
    if (other)
    {
        Spec s2 = s;
        size_t post = static_cast<size_t>(c.P("ghost_post", 0, 0, 9)) % s.pops.size();
        if (other == 1) individual_locks(s2);       // the global switch is the same as the switches of all projections
        else if (s.is_stdp_pop(static_cast<int>(post)) && s.pops[post].n)
        {
            // A locked projection that is never active does not influence what the others learn.
            s2.projs.push_back({-1, static_cast<int>(post), RESOURCE, 12, 99, 1, true, 0});
            individual_locks(s2);
            std::vector<Event> ev;
            for (auto &e : s2.events)
                if (e.kind != Event::LOCK || e.a[0] != static_cast<long>(s.projs.size())) ev.push_back(e);
            s2.events = ev;
        }
        Net b = make(c, s2);
        LockWorld wb(b, s2);
        wb.run();
        Quiet q;
        compare(s, wa.w.tr, wb.w.tr, false, other == 1 ? "locking everything at once" : "the network", other == 1 ? "locking each projection" : "the network with an inactive locked projection");
        sim::probe(other == 1 ? "runs compared with individual locks" : "runs compared with an inactive projection");
    }
    Quiet q;
    observe(wa.w.tr);
    if (wa.locked_steps && wa.learned_changes) sim::nontrivial();
    if (mt) sim::probe("runs on the multi-threaded backend");
}

// ---- C16 ----------------------------------------------------------------------------------------------------------
struct NeuronTotal { double free, sum, abs; bool drains; };
struct SynState { double weight, resource, wmin, wmax; };
struct Books
{
    std::vector<std::vector<NeuronTotal>> neurons;          // per population, empty for others
    std::vector<std::vector<SynState>> synapses;            // per projection
    std::vector<char> locked;
};
template <class N> constexpr bool learns = false;
template <class B> constexpr bool learns<nt::SynapticResourceSTDPNeuron<B>> = true;

Books books(Net &n, const Spec &s, size_t step)
{
    Quiet q;
    Books b;
    size_t k = 0;
    n.each_pop(
        [&](auto &p)
        {
            using N = typename std::decay_t<decltype(p)>::PopulationNeuronType;
            b.neurons.emplace_back();
            if constexpr (learns<N>)
                for (size_t i = 0; i < p.size(); ++i)
                {
                    b.neurons.back().push_back({p[i].free_synaptic_resource_, p[i].free_synaptic_resource_, std::fabs(p[i].free_synaptic_resource_), p[i].resource_drain_coefficient_ != 0});
                    if (!std::isfinite(p[i].free_synaptic_resource_) || !std::isfinite(p[i].stability_) || !std::isfinite(static_cast<double>(p[i].additional_threshold_)) ||
                        !std::isfinite(static_cast<double>(p[i].potential_)))
                        violation("not finite", "before step %zu neuron %zu of population %zu has free resource %g, stability %g, additional threshold %g, potential %g", step, i, k,
                                  p[i].free_synaptic_resource_, p[i].stability_, static_cast<double>(p[i].additional_threshold_), static_cast<double>(p[i].potential_));
                }
            ++k;
        });
    k = 0;
    n.each_proj(
        [&](auto &p)
        {
            using S = typename std::decay_t<decltype(p)>::ProjectionSynapseType;
            b.synapses.emplace_back();
            b.locked.push_back(p.is_locked());
            if constexpr (std::is_same_v<S, st::SynapticResourceSTDPDeltaSynapse>)
                for (size_t i = 0; i < p.size(); ++i)
                {
                    auto &d = std::get<kc::synapse_data>(p[i]);
                    b.synapses.back().push_back({d.weight_, d.rule_.synaptic_resource_, d.rule_.w_min_, d.rule_.w_max_});
                    if (!std::isfinite(d.weight_) || !std::isfinite(d.rule_.synaptic_resource_))
                        violation("not finite", "before step %zu synapse %zu of projection %zu has weight %g, resource %g", step, i, k, d.weight_, d.rule_.synaptic_resource_);
                    int post = s.projs[k].post;
                    size_t target = std::get<kc::target_neuron_id>(p[i]);
                    if (post >= 0 && target < b.neurons[static_cast<size_t>(post)].size())
                    {
                        auto &t = b.neurons[static_cast<size_t>(post)][target];
                        t.sum += d.rule_.synaptic_resource_;
                        t.abs += std::fabs(d.rule_.synaptic_resource_);
                    }
                }
            ++k;
        });
    return b;
}
void gen16(Rng &r, Case &c) { gen_learning(r, c, false); }
void run16(const Case &c)
{
    bool mt = c.P("mt", 0, 0, 1);
    Spec s = parse(c, mt);
    Net n = make(c, s);
    World w(n, s);
    Books b = books(n, s, 0);
    size_t trained = 0, moved = 0;
    // The largest amount a neuron has handled bounds the rounding errors of a step.
    n.b->start([&](kc::Step st) { return w.pre(st); },
               [&](kc::Step next)
               {
                   w.post(next);
                   size_t step = next - 1;
                   Books a = books(n, s, next);
                   Quiet q;
                   for (size_t p = 0; p < a.neurons.size(); ++p)
                       for (size_t i = 0; i < a.neurons[p].size(); ++i)
                       {
                           auto &x = b.neurons[p][i], &y = a.neurons[p][i];
                           if (x.free != y.free || x.sum != y.sum) ++moved;
                           if (x.drains && y.free == 0) continue;       // what was free may have been drained
                           double tol = 1e-4 * (1 + x.abs + y.abs);
                           if (std::fabs(x.sum - y.sum) > tol)
                               violation("resource not conserved", "step %zu changed the total resource of neuron %zu of population %zu from %.9g to %.9g (free %.9g -> %.9g)", step, i, p, x.sum,
                                         y.sum, x.free, y.free);
                       }
                   for (size_t p = 0; p < a.synapses.size(); ++p)
                       for (size_t i = 0; i < a.synapses[p].size(); ++i)
                       {
                           auto &x = b.synapses[p][i], &y = a.synapses[p][i];
                           if (x.weight == y.weight && x.resource == y.resource) continue;
                           ++trained;
                           double r = std::max(y.resource, 0.0), d = y.wmax - y.wmin;
                           double want = d + r > 0 ? y.wmin + d * r / (d + r) : y.wmin;
                           double tol = 1e-5 * (1 + std::fabs(y.wmin) + std::fabs(y.wmax));
                           if (std::fabs(want - y.weight) > tol)
                               violation("weight does not match resource", "step %zu: synapse %zu of projection %zu with resource %.9g has weight %.9g, it should be %.9g", step, i, p, y.resource,
                                         y.weight, want);
                           if (y.weight < y.wmin - tol || y.weight > y.wmax + tol)
                               violation("weight out of range", "step %zu: synapse %zu of projection %zu has weight %.9g outside [%g, %g]", step, i, p, y.weight, y.wmin, y.wmax);
                       }
                   b = std::move(a);
                   return next < s.steps;
               });
    Quiet q;
    observe(w.tr);
    if (trained) sim::nontrivial();
    if (moved) sim::probe("runs in which resource moved");
    if (mt) sim::probe("runs on the multi-threaded backend");
}

const char *const REAL = "both CPU backends with thread pool, bus, populations, projections and the learning rules";
const char *const STUB = "thread scheduling, the input source and the observer (simulator and harness)";
sim::Register r15({"C15", "locks", 1, gen15, run15,
                   "Random learning networks with locks switched globally and per projection between steps; locked synapses compared field by field across every step, and the run compared "
                   "with individual instead of global switches or with an inactive locked projection added. Non-trivial when projections were locked and others learned.",
                   REAL, STUB, 0, 0});
sim::Register r15a({"C15", "locks_additive", 0.1, gen15a, run15,
                    "The same with additive plasticity on the single-threaded backend.", REAL, STUB, 0, 0});
sim::Register r16({"C16", "conservation", 1, gen16, run16,
                   "Random learning networks with forcing, dopamine, delays, locks and silence; per neuron the sum of free and synaptic resource before and after every step, per trained synapse "
                   "its weight against its resource and bounds. Non-trivial when synapses were trained.",
                   REAL, STUB, 0, 0});
}  // namespace
