// Random networks, their inputs and recorded traces, shared by the backend and framework scenarios.
#pragma once
#include <knp/backends/cpu-multi-threaded/backend.h>
#include <knp/backends/cpu-single-threaded/backend.h>
#include <knp/core/message_bus.h>

#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>

#include "common.h"

namespace net
{
namespace kc = knp::core;
namespace km = knp::core::messaging;
namespace nt = knp::neuron_traits;
namespace st = knp::synapse_traits;
using sim::Case;
using sim::Op;
using sim::Quiet;
using sim::Rng;
using sim::violation;
using common::uid;

using ST = knp::backends::single_threaded_cpu::SingleThreadedCPUBackend;
using MT = knp::backends::multi_threaded_cpu::MultiThreadedCPUBackend;

constexpr int SENDERS = 3;
enum PopType { BLIFAT, STDP_BLIFAT, LIF, ALTAI, STDP_ALTAI, SINK };   // SINK: a BLIFAT population that only accumulates
enum ProjType { DELTA, RESOURCE, ADDITIVE };

inline kc::UID pop_uid(size_t i) { return uid(10, static_cast<unsigned>(i)); }
inline kc::UID proj_uid(size_t i) { return uid(11, static_cast<unsigned>(i)); }
inline kc::UID sender_uid(size_t i) { return uid(12, static_cast<unsigned>(i)); }
inline kc::UID obs_uid(size_t i) { return uid(13, static_cast<unsigned>(i)); }
inline kc::UID no_uid() { return kc::UID{false}; }

struct PopSpec { int type; size_t n; uint64_t seed; bool eager = false; };   // eager: fires whenever it can
struct ProjSpec
{
    int pre, post, type;
    size_t nsyn;
    uint64_t seed;
    unsigned maxdelay;
    bool locked;
    int flavor;
};
struct Event
{
    enum { SPIKES, IMPACT, LOCK } kind;
    size_t step;
    long a[5];
};
struct Spec
{
    bool exact = true, mt_types = true;
    int drain_mode = 0;
    size_t steps = 8;
    std::vector<PopSpec> pops;
    std::vector<ProjSpec> projs;
    std::vector<std::pair<size_t, size_t>> feeds;   // projection, sender
    std::vector<Event> events;
    std::set<size_t> cuts;

    bool long_run() const { return steps > 24; }   // sums stay exact only without halving and conductances
    size_t pop_size(int i) const { return i < 0 ? 4 : pops[static_cast<size_t>(i)].n; }
    bool is_stdp_pop(int i) const { return i >= 0 && (pops[i].type == STDP_BLIFAT || pops[i].type == STDP_ALTAI); }
};

// ---- case <-> specification ---------------------------------------------------------------------------------------
struct GenOptions
{
    bool st_types = false;       // also types only the single-threaded backend supports
    bool sinks = false;
    bool cuts = false, locks = false, learning = true, impacts = true;
    long max_steps = 12, max_pop = 9, max_syn = 24;
    bool mt_params = true;
    bool scale = true;           // now and then long runs with long delays, big populations, crowded steps
};

inline void gen_net(Rng &r, Case &c, const GenOptions &o)
{
    c.p["steps"] = r.range(2, o.max_steps);
    c.p["exact"] = 1;
    if (o.mt_params)
    {
        c.p["threads"] = r.range(1, 5);
        c.p["pop_part"] = r.chance(0.3) ? r.range(10, 1000) : r.range(1, 5);
        c.p["proj_part"] = r.chance(0.3) ? r.range(10, 1000) : r.range(1, 8);
    }
    long np = r.range(1, 3), nj = r.range(1, 4), max_pop = o.max_pop, max_syn = o.max_syn, max_delay = 5;
    double sparse = 1;
    long crowd = 0, eager = 0, keen = 0;
    double which = o.scale ? r.unit() : 1;
    if (which < 0.05)        // long
        c.p["steps"] = r.range(30, 80), max_delay = r.range(10, 70), max_syn = 10, sparse = 0.5;
    else if (which < 0.06)   // very long
        c.p["steps"] = r.range(262, 300), max_delay = r.range(200, 290), np = 1, nj = r.range(1, 2), max_pop = 4, max_syn = 6, sparse = 0.2;
    else if (which < 0.09)   // big
        c.p["steps"] = r.range(2, 5), max_pop = r.chance(0.5) ? 40 : 300, max_syn = r.chance(0.5) ? 90 : 390;
    else if (which < 0.1)    // everything fires
        c.p["steps"] = r.range(2, 4), np = r.range(1, 2), nj = r.range(1, 7), eager = r.chance(0.5) ? 170 : r.chance(0.5) ? 330 : 700, max_syn = 390;
    else if (which < 0.115)  // crowded
        c.p["steps"] = r.range(2, 5), max_syn = 6, max_pop = 4, crowd = r.chance(0.5) ? 70 : 270;
    else if (which < 0.14)   // many populations and projections
        c.p["steps"] = r.range(2, 6), np = r.range(3, 14), nj = r.range(4, 28), max_pop = 5, max_syn = 12, keen = r.chance(0.3);
    auto ptype = [&]() -> long
    {
        if (o.sinks && r.chance(0.35)) return SINK;
        if (o.st_types && r.chance(0.3)) return r.chance(0.5) ? ALTAI : STDP_ALTAI;
        if (o.learning && r.chance(0.5)) return STDP_BLIFAT;
        return r.chance(0.3) ? LIF : BLIFAT;
    };
    for (long i = 0; i < np; ++i) c.op("pop", {ptype(), eager ? r.range(eager / 2, eager) : r.chance(0.05) ? 0 : r.range(1, max_pop), static_cast<long>(r.below(1 << 20)), eager || keen});
    for (long i = 0; i < nj; ++i)
    {
        long t = o.learning && r.chance(0.5) ? (o.st_types && r.chance(0.2) ? ADDITIVE : RESOURCE) : DELTA;
        c.op("proj", {r.chance(0.3) ? -1 : r.range(0, np - 1), r.chance(0.04) ? -1 : r.range(0, np - 1), t, eager ? r.range(max_syn / 2, max_syn) : r.chance(0.05) ? 0 : r.range(1, max_syn),
                      static_cast<long>(r.below(1 << 20)), max_delay == 5 && r.chance(0.5) ? 1 : r.range(1, max_delay), r.chance(0.25), static_cast<long>(r.below(8))});
    }
    long nf = r.range(1, nj + 1);
    for (long i = 0; i < nf; ++i) c.op("feed", {r.range(0, nj - 1), r.range(0, SENDERS - 1)});
    long steps = c.p["steps"];
    double density = (r.chance(0.5) ? 0.8 : 0.3) * sparse;
    if (crowd)
        for (long i = 0, step = r.range(0, steps - 1), sender = r.range(0, SENDERS - 1); i < crowd; ++i) c.op("spk", {step, sender, static_cast<long>(r.below(1 << 10)), 0});
    for (long s = 0; s < steps; ++s)
    {
        for (long k = 0; k < SENDERS; ++k)
            if (r.chance(density)) c.op("spk", {s, k, static_cast<long>(r.below(1 << 10)) | (max_pop > 20 && r.chance(0.3) ? 1 << 10 : 0), r.chance(0.15)});
        if (o.impacts && r.chance(0.1)) c.op("imp", {s, r.range(0, np - 1), static_cast<long>(r.below(16)), r.range(-32, 32), static_cast<long>(r.below(5))});
        if (o.locks && r.chance(0.35)) c.op("lock", {s, r.chance(0.3) ? -1 : r.range(0, nj - 1), r.chance(0.5)});
        if (o.cuts && r.chance(0.25)) c.op("cut", {s});
    }
}

inline Spec parse(const Case &c, bool mt_types)
{
    Spec s;
    s.mt_types = mt_types;
    s.exact = c.P("exact", 1, 0, 1);
    s.steps = static_cast<size_t>(c.P("steps", 6, 1, 320));
    s.drain_mode = static_cast<int>(c.P("drain", 0, 0, 1));
    for (auto &op : c.ops)
        if (op.k == "pop" && s.pops.size() < 16)
        {
            int t = static_cast<int>(op.idx(0, 6));
            if (mt_types && t == ALTAI) t = BLIFAT;
            if (mt_types && t == STDP_ALTAI) t = STDP_BLIFAT;
            s.pops.push_back({t, op.idx(1, 701), static_cast<uint64_t>(op.A(2)), op.A(3) != 0});
        }
    if (s.pops.empty()) s.pops.push_back({BLIFAT, 2, 1});
    for (auto &op : c.ops)
        if (op.k == "proj" && s.projs.size() < 32)
        {
            ProjSpec p;
            p.pre = op.A(0, -1) < 0 ? -1 : static_cast<int>(op.idx(0, s.pops.size()));
            p.post = op.A(1, 0) < 0 ? -1 : static_cast<int>(op.idx(1, s.pops.size()));
            p.type = static_cast<int>(op.idx(2, 3));
            if (p.type == ADDITIVE && mt_types) p.type = RESOURCE;
            if (p.post >= 0 && s.pops[p.post].type == LIF && p.type != DELTA) p.type = DELTA;
            p.nsyn = op.idx(3, 400);
            if (!s.pop_size(p.post) || !s.pop_size(p.pre)) p.nsyn = 0;
            p.seed = static_cast<uint64_t>(op.A(4));
            p.maxdelay = 1 + static_cast<unsigned>(op.idx(5, 400) ? op.idx(5, 400) - 1 : 0);
            p.locked = op.A(6) != 0;
            p.flavor = static_cast<int>(op.idx(7, 8));
            s.projs.push_back(p);
        }
    for (auto &op : c.ops)
    {
        if (op.k == "feed" && !s.projs.empty()) s.feeds.push_back({op.idx(0, s.projs.size()), op.idx(1, SENDERS)});
        else if (op.k == "spk") s.events.push_back({Event::SPIKES, op.idx(0, s.steps), {static_cast<long>(op.idx(1, SENDERS)), op.A(2), op.A(3), 0, 0}});
        else if (op.k == "imp")
            s.events.push_back({Event::IMPACT, op.idx(0, s.steps), {static_cast<long>(op.idx(1, s.pops.size())), static_cast<long>(op.idx(2, 64)), op.A(3), static_cast<long>(op.idx(4, 5)), 0}});
        else if (op.k == "lock")
            s.events.push_back({Event::LOCK, op.idx(0, s.steps), {s.projs.empty() || op.A(1) < 0 ? -1 : static_cast<long>(op.idx(1, s.projs.size())), op.A(2) & 1, 0, 0, 0}});
        else if (op.k == "cut") s.cuts.insert(op.idx(0, s.steps));
    }
    return s;
}

// ---- construction -------------------------------------------------------------------------------------------------
template <class T> T pick(Rng &r, std::initializer_list<T> l) { return *(l.begin() + r.below(l.size())); }

inline nt::neuron_parameters<nt::BLIFATNeuron> blifat(Rng &r, bool exact, bool stdp, bool sink, bool eager = false)
{
    nt::neuron_parameters<nt::BLIFATNeuron> n;
    if (sink)
    {
        n.potential_decay_ = 1;
        n.activation_threshold_ = 1e6;
        n.min_potential_ = -1e9;
        return n;
    }
    if (exact)
    {
        n.potential_decay_ = stdp ? pick(r, {1., 0.}) : pick(r, {1., .5, 0.});
        n.activation_threshold_ = pick(r, {.25, .5, 1., 1.5, 3.});
        n.threshold_decay_ = pick(r, {0., .5, 1.});
        n.threshold_increment_ = pick(r, {0., 0., .5, 1.});
        n.postsynaptic_trace_decay_ = pick(r, {0., .5});
        n.postsynaptic_trace_increment_ = pick(r, {0., 1.});
        n.inhibitory_conductance_decay_ = pick(r, {0., 1.});
        n.reversal_inhibitory_potential_ = pick(r, {-.25, 0., .5});
        n.reflexive_weight_ = pick(r, {0., .5, 2.});
        n.potential_reset_value_ = pick(r, {0., -.5, .25});
        n.min_potential_ = pick(r, {-1e9, -2., 0.});
        n.potential_ = pick(r, {0., .5, -1.});
    }
    else
    {
        n.potential_decay_ = r.unit();
        n.activation_threshold_ = 0.3 + r.unit();
        n.threshold_decay_ = r.unit();
        n.threshold_increment_ = r.chance(0.5) ? r.unit() * 0.5 : 0;
        n.postsynaptic_trace_decay_ = r.unit();
        n.postsynaptic_trace_increment_ = r.unit();
        n.inhibitory_conductance_decay_ = r.unit();
        n.reversal_inhibitory_potential_ = -0.3;
        n.reflexive_weight_ = r.unit();
        n.potential_reset_value_ = r.unit() - 0.5;
        n.min_potential_ = r.chance(0.5) ? -1e9 : -1.3;
    }
    if (eager) n.potential_ = n.potential_reset_value_ = 8;
    n.bursting_period_ = static_cast<unsigned>(pick(r, {0, 0, 1, 2}));
    n.absolute_refractory_period_ = static_cast<unsigned>(pick(r, {0, 0, 1, 2}));
    if (r.chance(0.2)) n.total_blocking_period_ = pick(r, {3L, -3L, 1L, -1L});
    return n;
}

template <class N>
void stdp_neuron(N &n, Rng &r, bool exact, int drain_mode)
{
    n.synapse_sum_threshold_coefficient_ = pick(r, {0.F, 0.F, .25F});
    n.dopamine_plasticity_time_ = static_cast<uint32_t>(r.range(1, 6));
    n.free_synaptic_resource_ = exact ? pick(r, {1.F, 0.F, 2.F, -1.5F}) : static_cast<float>(r.unit() * 4 - 1);
    n.synaptic_resource_threshold_ = pick(r, {std::numeric_limits<float>::max(), 1.F, .5F, .125F});
    n.resource_drain_coefficient_ = drain_mode ? 0 : static_cast<uint32_t>(pick(r, {0, 0, 1, 27}));
    n.stability_ = pick(r, {0.F, 0.F, 1.F, -1.F, 2.5F});
    n.stability_change_parameter_ = pick(r, {0.F, .25F, 1.F});
    n.stability_change_at_isi_ = pick(r, {0.F, .125F});
    n.isi_max_ = static_cast<uint32_t>(r.range(1, 6));
    n.d_h_ = exact ? pick(r, {1.F, .5F, -.25F}) : static_cast<float>(r.unit() - 0.3);
}

inline kc::AllPopulationsVariant make_pop(const Spec &s, size_t i)
{
    const PopSpec &p = s.pops[i];
    Rng r(p.seed * 2654435761u + 17);
    switch (p.type)
    {
        case STDP_BLIFAT:
            return kc::Population<nt::SynapticResourceSTDPBLIFATNeuron>(
                pop_uid(i),
                [&](size_t) -> std::optional<nt::neuron_parameters<nt::SynapticResourceSTDPBLIFATNeuron>>
                {
                    nt::neuron_parameters<nt::SynapticResourceSTDPBLIFATNeuron> n(blifat(r, s.exact, true, false, p.eager));
                    stdp_neuron(n, r, s.exact, s.drain_mode);
                    return n;
                },
                p.n);
        case LIF:
            return kc::Population<nt::LIFNeuron>(
                pop_uid(i),
                [&](size_t) -> std::optional<nt::neuron_parameters<nt::LIFNeuron>>
                {
                    nt::neuron_parameters<nt::LIFNeuron> n;
                    n.activation_threshold_ = s.exact ? pick(r, {.25F, .5F, 1.F, 2.F}) : static_cast<float>(0.2 + r.unit());
                    n.potential_reset_value_ = s.exact ? pick(r, {0.F, -.5F, .25F}) : static_cast<float>(r.unit() - .5);
                    n.leak_coefficient_ = s.exact ? pick(r, {1.F, 0.F}) : static_cast<float>(r.unit());
                    n.refract_period_ = static_cast<uint32_t>(pick(r, {0, 0, 1, 2}));
                    if (p.eager) n.potential_ = n.potential_reset_value_ = 8;
                    return n;
                },
                p.n);
        case ALTAI:
        case STDP_ALTAI:
        {
            auto base = [&]
            {
                nt::neuron_parameters<nt::AltAILIF> n;
                n.is_diff_ = r.chance(0.5);
                n.is_reset_ = r.chance(0.5);
                n.leak_rev_ = r.chance(0.5);
                n.saturate_ = r.chance(0.5);
                n.do_not_save_ = r.chance(0.2);
                n.activation_threshold_ = static_cast<uint16_t>(r.range(1, 4));
                n.negative_activation_threshold_ = static_cast<uint16_t>(r.range(1, 50));
                n.potential_leak_ = static_cast<int16_t>(r.range(-1, 1));
                n.potential_reset_value_ = static_cast<uint16_t>(r.range(0, 1));
                return n;
            };
            if (p.type == ALTAI)
                return kc::Population<nt::AltAILIF>(
                    pop_uid(i), [&](size_t) -> std::optional<nt::neuron_parameters<nt::AltAILIF>> { return base(); }, p.n);
            return kc::Population<nt::SynapticResourceSTDPAltAILIFNeuron>(
                pop_uid(i),
                [&](size_t) -> std::optional<nt::neuron_parameters<nt::SynapticResourceSTDPAltAILIFNeuron>>
                {
                    nt::neuron_parameters<nt::SynapticResourceSTDPAltAILIFNeuron> n(base());
                    stdp_neuron(n, r, s.exact, s.drain_mode);
                    return n;
                },
                p.n);
        }
        default:
            return kc::Population<nt::BLIFATNeuron>(
                pop_uid(i), [&](size_t) -> std::optional<nt::neuron_parameters<nt::BLIFATNeuron>> { return blifat(r, s.exact, s.long_run(), p.type == SINK, p.eager); }, p.n);
    }
}

// Output types a target accepts.
inline st::OutputType out_type(Rng &r, int target, int flavor, int proj_type, bool exact)
{
    using O = st::OutputType;
    if (flavor < 3) return O::EXCITATORY;
    if (target == SINK || target == LIF) return r.chance(0.4) ? O::INHIBITORY_CURRENT : O::EXCITATORY;
    if (flavor == 7 && !(exact && proj_type == RESOURCE)) return O::BLOCKING;   // the last of several different blockings wins
    if (flavor == 6) return proj_type == RESOURCE || target == ALTAI || target == STDP_ALTAI ? O::INHIBITORY_CURRENT : O::INHIBITORY_CONDUCTANCE;
    if (flavor == 5) return O::DOPAMINE;
    return r.chance(0.3) ? (r.chance(0.5) ? O::INHIBITORY_CURRENT : O::DOPAMINE) : O::EXCITATORY;
}

template <class P>
void fill_synapse(P &d, const Spec &s, const ProjSpec &p, Rng &r, float blocking)
{
    int target = p.post < 0 ? BLIFAT : s.pops[p.post].type;
    d.delay_ = static_cast<uint32_t>(r.range(1, p.maxdelay));
    d.output_type_ = out_type(r, target, p.flavor, p.type, s.exact);
    if (s.exact && s.long_run() && d.output_type_ == st::OutputType::INHIBITORY_CONDUCTANCE) d.output_type_ = st::OutputType::EXCITATORY;
    if (d.output_type_ == st::OutputType::BLOCKING) d.weight_ = blocking;
    else if (!s.exact) d.weight_ = static_cast<float>(r.unit() * 1.2 - 0.1);
    else if (d.output_type_ == st::OutputType::INHIBITORY_CONDUCTANCE) d.weight_ = s.is_stdp_pop(p.post) ? 1.F : pick(r, {.5F, 1.F});
    else d.weight_ = static_cast<float>(r.range(-4, 24)) / 16.F;
}

inline kc::AllProjectionsVariant make_proj(const Spec &s, size_t i)
{
    const ProjSpec &p = s.projs[i];
    Rng r(p.seed * 40503u + 5);
    kc::UID pre = p.pre < 0 ? no_uid() : pop_uid(static_cast<size_t>(p.pre)), post = p.post < 0 ? no_uid() : pop_uid(static_cast<size_t>(p.post));
    size_t pre_n = s.pop_size(p.pre), post_n = s.pop_size(p.post);
    float blocking = pick(r, {2.F, -2.F, 1.F, 3.F, 0.F});
    auto ends = [&](size_t &a, size_t &b)
    {
        a = r.below(pre_n);
        b = r.below(post_n);
    };
    auto finish = [&](auto proj) -> kc::AllProjectionsVariant
    {
        if (p.locked) proj.lock_weights();
        else proj.unlock_weights();
        return proj;
    };
    if (p.type == RESOURCE)
    {
        using P = kc::Projection<st::SynapticResourceSTDPDeltaSynapse>;
        P proj(proj_uid(i), pre, post,
               [&](size_t) -> std::optional<P::Synapse>
               {
                   typename P::SynapseParameters d;
                   fill_synapse(d, s, p, r, blocking);
                   auto &rule = d.rule_;
                   rule.synaptic_resource_ = s.exact ? pick(r, {0.F, 1.F, 1.25F, -.5F}) : static_cast<float>(r.unit() * 2 - .4);
                   rule.w_min_ = pick(r, {0.F, 0.F, -.5F});
                   rule.w_max_ = rule.w_min_ + pick(r, {1.F, 2.F, .5F, 0.F});
                   rule.d_u_ = pick(r, {0.F, 0.F, .125F});
                   rule.dopamine_plasticity_period_ = static_cast<uint32_t>(r.range(0, 8));
                   size_t a, b;
                   ends(a, b);
                   return std::make_tuple(d, a, b);
               },
               p.nsyn);
        return finish(std::move(proj));
    }
    if (p.type == ADDITIVE)
    {
        using P = kc::Projection<st::AdditiveSTDPDeltaSynapse>;
        P proj(proj_uid(i), pre, post,
               [&](size_t) -> std::optional<P::Synapse>
               {
                   typename P::SynapseParameters d;
                   fill_synapse(d, s, p, r, blocking);
                   d.rule_.tau_plus_ = static_cast<float>(r.range(1, 2));
                   d.rule_.tau_minus_ = static_cast<float>(r.range(1, 2));
                   size_t a, b;
                   ends(a, b);
                   return std::make_tuple(d, a, b);
               },
               p.nsyn);
        using PT = typename P::SharedSynapseParameters::ProcessingType;
        if (p.pre >= 0 && p.flavor % 2) proj.get_shared_parameters().stdp_populations_[pop_uid(static_cast<size_t>(p.pre))] = PT::STDPAndSpike;
        if (p.post >= 0 && p.post != p.pre) proj.get_shared_parameters().stdp_populations_[pop_uid(static_cast<size_t>(p.post))] = PT::STDPOnly;
        return finish(std::move(proj));
    }
    using P = kc::Projection<st::DeltaSynapse>;
    P proj(proj_uid(i), pre, post,
           [&](size_t) -> std::optional<P::Synapse>
           {
               typename P::SynapseParameters d;
               fill_synapse(d, s, p, r, blocking);
               size_t a, b;
               ends(a, b);
               return std::make_tuple(d, a, b);
           },
           p.nsyn);
    return finish(std::move(proj));
}

// ---- state dumps --------------------------------------------------------------------------------------------------
using Bits = std::vector<uint64_t>;
template <class T>
void put(Bits &b, const T &v)
{
    uint64_t x = 0;
    static_assert(sizeof(T) <= 8);
    std::memcpy(&x, &v, sizeof v);
    b.push_back(x);
}
inline void dump_fields(Bits &b, const nt::neuron_parameters<nt::BLIFATNeuron> &n)
{
    put(b, n.n_time_steps_since_last_firing_), put(b, n.activation_threshold_), put(b, n.additional_threshold_), put(b, n.dynamic_threshold_);
    put(b, n.threshold_decay_), put(b, n.threshold_increment_), put(b, n.postsynaptic_trace_), put(b, n.postsynaptic_trace_decay_);
    put(b, n.postsynaptic_trace_increment_), put(b, n.inhibitory_conductance_), put(b, n.inhibitory_conductance_decay_), put(b, n.potential_);
    put(b, n.pre_impact_potential_), put(b, n.potential_decay_), put(b, n.bursting_phase_), put(b, n.bursting_period_), put(b, n.reflexive_weight_);
    put(b, n.reversal_inhibitory_potential_), put(b, n.absolute_refractory_period_), put(b, n.potential_reset_value_), put(b, n.min_potential_);
    put(b, n.total_blocking_period_), put(b, n.dopamine_value_), put(b, n.stochastic_stimulation_), put(b, n.random_number_generator_state_);
}
inline void dump_fields(Bits &b, const nt::neuron_parameters<nt::LIFNeuron> &n)
{
    put(b, n.potential_), put(b, n.potential_reset_value_), put(b, n.activation_threshold_), put(b, n.leak_coefficient_), put(b, n.refract_counter_);
    put(b, n.refract_period_);
}
inline void dump_fields(Bits &b, const nt::neuron_parameters<nt::AltAILIF> &n)
{
    put(b, n.is_diff_), put(b, n.is_reset_), put(b, n.leak_rev_), put(b, n.saturate_), put(b, n.do_not_save_), put(b, n.potential_);
    put(b, n.pre_impact_potential_), put(b, n.activation_threshold_), put(b, n.negative_activation_threshold_), put(b, n.potential_leak_);
    put(b, n.potential_reset_value_), put(b, n.dopamine_value_), put(b, n.additional_threshold_), put(b, n.activity_time_);
}
template <class B>
void dump_fields(Bits &b, const nt::neuron_parameters<nt::SynapticResourceSTDPNeuron<B>> &n)
{
    dump_fields(b, static_cast<const nt::neuron_parameters<B> &>(n));
    put(b, n.synapse_sum_threshold_coefficient_), put(b, n.dopamine_plasticity_time_), put(b, n.free_synaptic_resource_);
    put(b, n.synaptic_resource_threshold_), put(b, n.resource_drain_coefficient_), put(b, n.stability_), put(b, n.stability_change_parameter_);
    put(b, n.stability_change_at_isi_), put(b, n.isi_max_), put(b, n.d_h_), put(b, n.isi_status_), put(b, n.last_step_), put(b, n.last_spike_step_);
    put(b, n.first_isi_spike_), put(b, n.is_being_forced_);
}
template <class R>
void dump_rule(Bits &, const R &) {}
template <class S>
void dump_rule(Bits &b, const st::STDPSynapticResourceRule<S> &r)
{
    put(b, r.synaptic_resource_), put(b, r.w_min_), put(b, r.w_max_), put(b, r.d_u_), put(b, r.dopamine_plasticity_period_), put(b, r.last_spike_step_);
    put(b, r.had_hebbian_update_), put(b, r.has_contributed_);
}
template <class S>
void dump_rule(Bits &b, const st::STDPAdditiveRule<S> &r)
{
    put(b, r.tau_plus_), put(b, r.tau_minus_);
    for (auto x : r.presynaptic_spike_times_) put(b, x);
    b.push_back(~0ull);
    for (auto x : r.postsynaptic_spike_times_) put(b, x);
}
inline void dump_synapse(Bits &b, const st::synapse_parameters<st::DeltaSynapse> &d) { put(b, d.weight_), put(b, d.delay_), put(b, d.output_type_); }
template <template <typename> class R, class S>
void dump_synapse(Bits &b, const st::synapse_parameters<st::STDP<R, S>> &d)
{
    dump_synapse(b, static_cast<const st::synapse_parameters<S> &>(d));
    dump_rule(b, d.rule_);
}
template <class P>
Bits dump_pop(const P &p)
{
    Bits b;
    b.push_back(p.size());
    for (auto &n : p) dump_fields(b, n);
    return b;
}
template <class P>
Bits dump_proj(const P &p)
{
    Bits b;
    b.push_back(p.size());
    b.push_back(p.is_locked());
    for (auto &s : p)
    {
        dump_synapse(b, std::get<kc::synapse_data>(s));
        put(b, std::get<kc::source_neuron_id>(s)), put(b, std::get<kc::target_neuron_id>(s));
    }
    return b;
}
struct Dump
{
    std::vector<Bits> pops, projs;
    bool operator==(const Dump &o) const { return pops == o.pops && projs == o.projs; }
};

// A loaded backend of either kind.
struct Net
{
    std::shared_ptr<kc::Backend> b;
    std::shared_ptr<ST> st;
    std::shared_ptr<MT> mt;
    template <class F> void each_pop(F f)
    {
        if (st) for (auto it = st->begin_populations(); it != st->end_populations(); ++it) std::visit(f, *it);
        else for (auto it = mt->begin_populations(); it != mt->end_populations(); ++it) std::visit(f, *it);
    }
    template <class F> void each_proj(F f)
    {
        if (st) for (auto it = st->begin_projections(); it != st->end_projections(); ++it) std::visit(f, (*it).arg_);
        else for (auto it = mt->begin_projections(); it != mt->end_projections(); ++it) std::visit(f, (*it).arg_);
    }
    Dump dump()
    {
        Quiet q;
        Dump d;
        each_pop([&](auto &p) { d.pops.push_back(dump_pop(p)); });
        each_proj([&](auto &p) { d.projs.push_back(dump_proj(p)); });
        return d;
    }
};

inline void load(Net &n, const Spec &s)
{
    std::vector<kc::AllPopulationsVariant> pops;
    std::vector<kc::AllProjectionsVariant> projs;
    for (size_t i = 0; i < s.pops.size(); ++i) pops.push_back(make_pop(s, i));
    for (size_t i = 0; i < s.projs.size(); ++i) projs.push_back(make_proj(s, i));
    n.b->load_all_populations(pops);
    n.b->load_all_projections(projs);
}
inline void feed(Net &n, const Spec &s)
{
    for (auto &f : s.feeds) n.b->subscribe<km::SpikeMessage>(proj_uid(f.first), {sender_uid(f.second)});
    for (size_t i = 0; i < s.pops.size(); ++i) n.b->subscribe<km::SynapticImpactMessage>(pop_uid(i), {sender_uid(SENDERS + i)});
}
inline Net make_st(const Spec &s, bool with_load = true)
{
    Quiet q;
    Net n;
    n.st = std::make_shared<ST>();
    n.b = n.st;
    if (with_load) load(n, s), feed(n, s);
    return n;
}
struct MtParams { size_t threads, pop_part, proj_part; };
inline MtParams mt_params(const Case &c)
{
    return {static_cast<size_t>(c.P("threads", 2, 1, 8)), static_cast<size_t>(c.P("pop_part", 2, 1, 100000)), static_cast<size_t>(c.P("proj_part", 3, 1, 100000))};
}
inline Net make_mt(const Spec &s, const MtParams &p, bool with_load = true)
{
    Net n;
    n.mt = std::make_shared<MT>(p.threads, p.pop_part, p.proj_part);
    n.b = n.mt;
    Quiet q;
    if (with_load) load(n, s), feed(n, s);
    return n;
}

// ---- running ------------------------------------------------------------------------------------------------------
struct ImpactMsg
{
    uint64_t send_time;
    bool pre_ok, post_ok, forcing;
    std::vector<km::SynapticImpact> impacts;
};
inline bool imp_less(const km::SynapticImpact &a, const km::SynapticImpact &b)
{
    auto k = [](const km::SynapticImpact &x)
    { return std::make_tuple(x.connection_index_, x.impact_value_, static_cast<int>(x.synapse_type_), x.presynaptic_neuron_index_, x.postsynaptic_neuron_index_); };
    return k(a) < k(b);
}
inline bool imp_same(const km::SynapticImpact &a, const km::SynapticImpact &b)
{
    return a.connection_index_ == b.connection_index_ && !std::memcmp(&a.impact_value_, &b.impact_value_, 4) && a.synapse_type_ == b.synapse_type_ &&
           a.presynaptic_neuron_index_ == b.presynaptic_neuron_index_ && a.postsynaptic_neuron_index_ == b.postsynaptic_neuron_index_;
}
struct StepRec
{
    std::vector<std::vector<km::SpikeMessage>> spikes;    // per population
    std::vector<std::vector<ImpactMsg>> impacts;          // per projection
    Dump state;
};
struct Trace
{
    std::map<size_t, StepRec> steps;     // by step number; a step that runs twice is a violation
    size_t n_spikes = 0, n_impacts = 0;
};

// The message of an external impact; its population is not empty.
inline km::SynapticImpactMessage external_impact(const Spec &s, const Event &e)
{
    size_t p = static_cast<size_t>(e.a[0]);
    km::SynapticImpactMessage m;
    m.header_ = {sender_uid(SENDERS + p), e.step};
    m.presynaptic_population_uid_ = no_uid();
    m.postsynaptic_population_uid_ = pop_uid(p);
    m.is_forcing_ = e.a[3] & 1;
    st::OutputType t = e.a[3] == 4 && s.is_stdp_pop(static_cast<int>(p)) ? st::OutputType::DOPAMINE : e.a[3] & 2 ? st::OutputType::INHIBITORY_CURRENT : st::OutputType::EXCITATORY;
    m.impacts_.push_back({0, static_cast<float>(e.a[2] % 33) / 16.F, t, 0, static_cast<uint32_t>(static_cast<size_t>(e.a[1]) % s.pops[p].n)});
    return m;
}

// The outside world of one backend: an endpoint that injects the inputs and one that observes everything.
struct World
{
    Net &n;
    const Spec &s;
    Trace tr;
    bool dump_each = false;
    bool external = false;      // spikes come from somewhere else
    size_t prepared = 0;        // steps whose inputs were sent
    kc::MessageEndpoint in, out;

    World(Net &net, const Spec &spec)
        : n(net), s(spec), in(net.b->get_message_bus().create_endpoint()), out(net.b->get_message_bus().create_endpoint())
    {
        for (size_t i = 0; i < s.pops.size(); ++i) out.subscribe<km::SpikeMessage>(obs_uid(i), {pop_uid(i)});
        for (size_t i = 0; i < s.projs.size(); ++i) out.subscribe<km::SynapticImpactMessage>(obs_uid(100 + i), {proj_uid(i)});
    }

    // Indices of an external spike message on `sender` for a mask: at most as many as the smallest projection it feeds.
    std::vector<uint32_t> indices(size_t sender, long mask, bool dup) const
    {
        size_t lim = 320;
        for (auto &f : s.feeds)
            if (f.second == sender) lim = std::min(lim, std::max<size_t>(1, s.pop_size(s.projs[f.first].pre)));
        std::vector<uint32_t> v;
        size_t stride = lim > 20 ? lim / 10 : 1;
        if (mask >> 10 & 1)
            for (size_t i = 0; i < lim; ++i) v.push_back(static_cast<uint32_t>(i));
        else
        for (size_t i = 0; i < std::min<size_t>(lim, 10); ++i)
            if (mask >> i & 1) v.push_back(static_cast<uint32_t>(i * stride));
        if (v.empty()) v.push_back(0);
        if (mask & 512) std::reverse(v.begin(), v.end());
        if (dup) v.push_back(v[0]);
        return v;
    }
    void apply_locks(size_t step)
    {
        for (auto &e : s.events)
        {
            if (e.step != step || e.kind != Event::LOCK) continue;
            bool lock = e.a[1];
            if (e.a[0] < 0) lock ? n.b->stop_learning() : n.b->start_learning();
            else
            {
                Quiet q;
                kc::UID u = proj_uid(static_cast<size_t>(e.a[0]));
                n.each_proj([&](auto &p) { if (p.get_uid() == u) lock ? p.lock_weights() : p.unlock_weights(); });
            }
        }
    }
    void send_inputs(size_t step)
    {
        for (auto &e : s.events)
        {
            if (e.step != step) continue;
            if (e.kind == Event::SPIKES)
            {
                if (external) continue;
                km::SpikeMessage m;
                m.header_ = {sender_uid(static_cast<size_t>(e.a[0])), step};
                m.neuron_indexes_ = indices(static_cast<size_t>(e.a[0]), e.a[1], e.a[2] & 1);
                in.send_message(m);
            }
            else if (e.kind == Event::IMPACT)
            {
                if (!s.pops[static_cast<size_t>(e.a[0])].n) continue;
                in.send_message(external_impact(s, e));
            }
        }
    }
    // Called before step `step`.
    bool pre(size_t step)
    {
        if (step < prepared) return true;
        prepared = step + 1;
        apply_locks(step);
        send_inputs(step);
        return true;
    }
    size_t last_post = 0;
    size_t posted() const { return last_post; }
    // Called after a step; `next` is the step number that follows it.
    bool post(size_t next)
    {
        out.receive_all_messages();
        Quiet q;
        size_t step = next - 1;
        last_post = next;
        if (tr.steps.count(step)) violation("step repeated", "step %zu was executed twice", step);
        StepRec &r = tr.steps[step];
        for (size_t i = 0; i < s.pops.size(); ++i)
        {
            r.spikes.push_back(out.unload_messages<km::SpikeMessage>(obs_uid(i)));
            for (auto &m : r.spikes.back()) tr.n_spikes += m.neuron_indexes_.size();
        }
        for (size_t i = 0; i < s.projs.size(); ++i)
        {
            r.impacts.emplace_back();
            for (auto &m : out.unload_messages<km::SynapticImpactMessage>(obs_uid(100 + i)))
            {
                kc::UID pre = s.projs[i].pre < 0 ? no_uid() : pop_uid(static_cast<size_t>(s.projs[i].pre));
                kc::UID post = s.projs[i].post < 0 ? no_uid() : pop_uid(static_cast<size_t>(s.projs[i].post));
                r.impacts.back().push_back({m.header_.send_time_, m.presynaptic_population_uid_ == pre, m.postsynaptic_population_uid_ == post, m.is_forcing_, m.impacts_});
                tr.n_impacts += m.impacts_.size();
            }
        }
        if (dump_each) r.state = n.dump();
        return true;
    }
    void run_to(size_t end)
    {
        if (n.b->get_step() >= end) return;
        n.b->start([&](kc::Step st) { return pre(st); }, [&](kc::Step st) { post(st); return st < end; });
        if (n.b->get_step() != end) violation("step counter", "the run was to end after step %zu, the counter says %zu", end, static_cast<size_t>(n.b->get_step()));
    }
};

// Impacts so small that sums of them may round.
inline bool tiny_impacts(const Trace &t)
{
    for (auto &s : t.steps)
        for (auto &v : s.second.impacts)
            for (auto &m : v)
                for (auto &x : m.impacts)
                    if (x.impact_value_ != 0 && (std::fabs(x.impact_value_) < 1.0f / (1 << 18) || std::fabs(x.impact_value_) > 1024.f)) return true;
    return false;
}

// Differences of two traces: order of entries within a message is compared only when `strict`.
inline void compare(const Spec &s, Trace &a, Trace &b, bool strict, const char *an, const char *bn)
{
    if (a.steps.size() != b.steps.size()) violation("step count", "%s executed %zu steps, %s %zu", an, a.steps.size(), bn, b.steps.size());
    for (auto &sa : a.steps)
    {
        size_t step = sa.first;
        if (!b.steps.count(step)) violation("step count", "step %zu was executed by %s but not by %s", step, an, bn);
        StepRec &x = sa.second, &y = b.steps[step];
        for (size_t i = 0; i < s.pops.size(); ++i)
        {
            if (x.spikes[i].size() != y.spikes[i].size())
                violation("spikes differ", "step %zu, population %zu: %s sent %zu spike message(s), %s %zu", step, i, an, x.spikes[i].size(), bn, y.spikes[i].size());
            for (size_t k = 0; k < x.spikes[i].size(); ++k)
            {
                auto p = x.spikes[i][k].neuron_indexes_, q = y.spikes[i][k].neuron_indexes_;
                if (x.spikes[i][k].header_.send_time_ != y.spikes[i][k].header_.send_time_)
                    violation("spikes differ", "step %zu, population %zu: spike messages are stamped %zu and %zu", step, i,
                              static_cast<size_t>(x.spikes[i][k].header_.send_time_), static_cast<size_t>(y.spikes[i][k].header_.send_time_));
                if (!strict) std::sort(p.begin(), p.end()), std::sort(q.begin(), q.end());
                if (p == q) continue;
                bool order = p.size() == q.size();
                if (order)
                {
                    auto p2 = p, q2 = q;
                    std::sort(p2.begin(), p2.end()), std::sort(q2.begin(), q2.end());
                    order = p2 == q2;
                }
                violation(order ? "spike order differs" : "spikes differ", "step %zu, population %zu: spikes of %s and %s differ (%zu and %zu indexes)", step, i, an, bn, p.size(), q.size());
            }
        }
        for (size_t i = 0; i < s.projs.size(); ++i)
        {
            if (x.impacts[i].size() != y.impacts[i].size())
                violation("impacts differ", "step %zu, projection %zu: %s sent %zu impact message(s), %s %zu", step, i, an, x.impacts[i].size(), bn, y.impacts[i].size());
            for (size_t k = 0; k < x.impacts[i].size(); ++k)
            {
                ImpactMsg &p = x.impacts[i][k], &q = y.impacts[i][k];
                if (p.send_time != q.send_time || p.forcing != q.forcing || p.pre_ok != q.pre_ok || p.post_ok != q.post_ok)
                    violation("impact header differs", "step %zu, projection %zu: time %zu/%zu forcing %d/%d presynaptic right %d/%d postsynaptic right %d/%d (%s/%s)", step, i,
                              static_cast<size_t>(p.send_time), static_cast<size_t>(q.send_time), p.forcing, q.forcing, p.pre_ok, q.pre_ok, p.post_ok, q.post_ok, an, bn);
                auto u = p.impacts, v = q.impacts;
                if (!strict) std::sort(u.begin(), u.end(), imp_less), std::sort(v.begin(), v.end(), imp_less);
                if (u.size() != v.size()) violation("impacts differ", "step %zu, projection %zu: %s emits %zu impact(s), %s %zu", step, i, an, u.size(), bn, v.size());
                for (size_t z = 0; z < u.size(); ++z)
                    if (!imp_same(u[z], v[z]))
                    {
                        std::sort(u.begin(), u.end(), imp_less), std::sort(v.begin(), v.end(), imp_less);
                        bool order = std::equal(u.begin(), u.end(), v.begin(), imp_same);
                        violation(order ? "impact order differs" : "impacts differ",
                                  "step %zu, projection %zu, entry %zu: %s has synapse %zu value %.9g target %u, %s has synapse %zu value %.9g target %u", step, i, z, an,
                                  static_cast<size_t>(p.impacts[z].connection_index_), p.impacts[z].impact_value_, p.impacts[z].postsynaptic_neuron_index_, bn,
                                  static_cast<size_t>(q.impacts[z].connection_index_), q.impacts[z].impact_value_, q.impacts[z].postsynaptic_neuron_index_);
                    }
            }
        }
        if (x.state.pops.size() && y.state.pops.size())
        {
            for (size_t i = 0; i < s.pops.size(); ++i)
                if (x.state.pops[i] != y.state.pops[i])
                {
                    size_t k = 0;
                    while (k < x.state.pops[i].size() && x.state.pops[i][k] == y.state.pops[i][k]) ++k;
                    violation("neuron states differ", "after step %zu population %zu differs between %s and %s (word %zu of its dump)", step, i, an, bn, k);
                }
            for (size_t i = 0; i < s.projs.size(); ++i)
                if (x.state.projs[i] != y.state.projs[i])
                {
                    size_t k = 0;
                    while (k < x.state.projs[i].size() && x.state.projs[i][k] == y.state.projs[i][k]) ++k;
                    violation("synapse states differ", "after step %zu projection %zu differs between %s and %s (word %zu of its dump)", step, i, an, bn, k);
                }
        }
    }
}
inline void observe(const Trace &t)
{
    for (auto &s : t.steps)
    {
        for (auto &v : s.second.spikes)
            for (auto &m : v)
                for (auto x : m.neuron_indexes_) sim::obs(s.first * 1000 + x);
        for (auto &v : s.second.impacts)
            for (auto &m : v)
                for (auto &x : m.impacts) sim::obs(x.connection_index_ * 77 + x.postsynaptic_neuron_index_);
    }
}
}  // namespace net
