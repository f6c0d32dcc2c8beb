// C31 neurons follow their models, C42 learning follows the resource rule: every step of every neuron and synapse against
// an executable reference.
#include "backend_net.h"

using namespace net;

namespace
{
using Blifat = nt::neuron_parameters<nt::BLIFATNeuron>;
using Lif = nt::neuron_parameters<nt::LIFNeuron>;
using Altai = nt::neuron_parameters<nt::AltAILIF>;
using O = st::OutputType;

// What a neuron receives in one step; current and conductance are sums, so the order of impacts cannot matter.
struct Input
{
    double current = 0, conductance = 0, dopamine = 0, magnitude = 0;
    bool forced = false, exact = true;
    std::vector<double> blocking;       // distinct values in order of appearance

    void add(const km::SynapticImpact &i, bool forcing)
    {
        double v = i.impact_value_, scaled = v * 4096;
        if (std::fabs(v) > 4096 || scaled != std::floor(scaled)) exact = false;
        if (i.synapse_type_ == O::BLOCKING)
        {
            if (std::find(blocking.begin(), blocking.end(), v) == blocking.end()) blocking.push_back(v);
            return;
        }
        magnitude += std::fabs(v);
        if (i.synapse_type_ == O::EXCITATORY) current += v, forced |= forcing;
        else if (i.synapse_type_ == O::INHIBITORY_CURRENT) current -= v;
        else if (i.synapse_type_ == O::INHIBITORY_CONDUCTANCE) conductance += v;
        else if (i.synapse_type_ == O::DOPAMINE) dopamine += v;
    }
};
bool dyadic(double v) { v *= 1 << 30; return std::fabs(v) < 9e15 && v == std::floor(v); }

// A neuron after a step of the reference; `margin` is how far its decision was from the other one.
template <class N> struct Next { N n; bool spike; double margin; };

// One timer of total blocking: negative counts up and blocks, positive counts down and lets pass, zero ends both for good.
Next<Blifat> follow(Blifat n, const Input &in, double blocking, bool has_blocking)
{
    n.n_time_steps_since_last_firing_ += 1;
    n.dynamic_threshold_ = n.dynamic_threshold_ * n.threshold_decay_;
    n.postsynaptic_trace_ = n.postsynaptic_trace_ * n.postsynaptic_trace_decay_;
    double v = n.potential_ * n.potential_decay_;
    if (n.bursting_phase_ > 0)
    {
        n.bursting_phase_ -= 1;
        if (n.bursting_phase_ == 0) v += n.reflexive_weight_;
    }
    n.pre_impact_potential_ = v;
    double g = n.inhibitory_conductance_ * n.inhibitory_conductance_decay_ + in.conductance;
    n.inhibitory_conductance_ = g;
    if (has_blocking) n.total_blocking_period_ = static_cast<int64_t>(blocking);
    if (n.total_blocking_period_ > 0)
    {
        v += in.current;
        n.total_blocking_period_ -= 1;
    }
    else if (n.total_blocking_period_ < 0 && ++n.total_blocking_period_ == 0) n.total_blocking_period_ = std::numeric_limits<int64_t>::max();
    double to = n.reversal_inhibitory_potential_;
    v = g < 1 ? v - (v - to) * g : to;
    double threshold = n.activation_threshold_ + n.dynamic_threshold_ + n.additional_threshold_;
    bool rested = n.n_time_steps_since_last_firing_ > n.absolute_refractory_period_;
    Next<Blifat> r{n, rested && v >= threshold, rested ? std::fabs(v - threshold) : 1e9};
    if (!rested) r.margin = 1e9;
    r.margin = std::min(r.margin, std::fabs(g - 1) + (g == 1 ? 1e9 : 0));
    if (r.spike)
    {
        r.n.dynamic_threshold_ += n.threshold_increment_;
        r.n.postsynaptic_trace_ += n.postsynaptic_trace_increment_;
        r.n.bursting_phase_ = n.bursting_period_;
        r.n.n_time_steps_since_last_firing_ = 0;
        v = n.potential_reset_value_;
    }
    r.n.potential_ = std::max(v, static_cast<double>(n.min_potential_));
    return r;
}
Next<Lif> follow(Lif n, const Input &in, double, bool)
{
    if (n.refract_counter_ > 0)      // deaf and silent
    {
        --n.refract_counter_;
        return {n, false, 1e9};
    }
    double v = n.potential_ * static_cast<double>(n.leak_coefficient_) + in.current;
    Next<Lif> r{n, v > n.activation_threshold_, std::fabs(v - n.activation_threshold_)};
    r.n.potential_ = static_cast<float>(r.spike ? n.potential_reset_value_ : v);
    if (r.spike) r.n.refract_counter_ = n.refract_period_;
    return r;
}
Next<Altai> follow(Altai n, const Input &in, double, bool)
{
    double v = n.do_not_save_ ? n.potential_reset_value_ : std::round(n.potential_);
    n.pre_impact_potential_ = static_cast<float>(v);
    double near = 1e9;
    v += in.current;
    if (n.leak_rev_) near = v == 0 ? 1e9 : std::fabs(v);
    v += n.leak_rev_ && v < 0 ? -n.potential_leak_ : n.potential_leak_;
    if (n.activity_time_ > 0) --n.activity_time_;
    else if (n.activity_time_ < 0) ++n.activity_time_;
    if (n.activity_time_ == 0) n.activity_time_ = std::numeric_limits<int64_t>::max();
    double threshold = n.activation_threshold_ + n.additional_threshold_, floor = -static_cast<double>(n.negative_activation_threshold_);
    near = std::min(near, std::fabs(v - threshold));
    bool above = v >= threshold, reset = false;
    if (above)
    {
        if (n.is_diff_) v -= threshold;
        if (n.is_reset_) v = n.potential_reset_value_, reset = true;
    }
    if (!reset)
    {
        if (v <= floor)
        {
            near = std::min(near, std::fabs(v - floor));
            if (n.saturate_) v = floor;
            else if (n.is_reset_) v = -static_cast<double>(n.potential_reset_value_);
            else if (n.is_diff_) v -= floor;
        }
        else near = std::min(near, std::fabs(v - floor));
    }
    Next<Altai> r{n, above && n.activity_time_ > 0, near};
    r.n.potential_ = static_cast<float>(v);
    return r;
}
// A timer yields to one of the other sign and to one that is not shorter.
void block(Altai &n, double v)
{
    if ((n.activity_time_ < 0) != std::signbit(v) || std::fabs(static_cast<double>(n.activity_time_)) <= std::fabs(v)) n.activity_time_ = static_cast<int64_t>(v);
}

struct Diff
{
    std::string what;
    double tol;
    template <class A, class B> void num(const char *name, A got, B want)
    {
        double g = static_cast<double>(got), w = static_cast<double>(want);
        if (!what.empty() || g == w || std::fabs(g - w) <= tol * (1 + std::fabs(w))) return;
        char t[200];
        std::snprintf(t, sizeof t, "%s is %.9g, the model says %.9g", name, g, w);
        what = t;
    }
    template <class A> void is(const char *name, A got, A want)
    {
        if (!what.empty() || got == want) return;
        char t[200];
        std::snprintf(t, sizeof t, "%s is %lld, the model says %lld", name, static_cast<long long>(got), static_cast<long long>(want));
        what = t;
    }
};
#define SAME(f) d.is(#f, got.f, want.f)
#define NEAR(f) d.num(#f, got.f, want.f)
void compare_fields(Diff &d, const Blifat &got, const Blifat &want, bool learns)
{
    SAME(n_time_steps_since_last_firing_), NEAR(activation_threshold_), NEAR(dynamic_threshold_), NEAR(threshold_decay_), NEAR(threshold_increment_);
    NEAR(postsynaptic_trace_), NEAR(postsynaptic_trace_decay_), NEAR(postsynaptic_trace_increment_), NEAR(inhibitory_conductance_), NEAR(inhibitory_conductance_decay_);
    NEAR(potential_), NEAR(pre_impact_potential_), NEAR(potential_decay_), SAME(bursting_phase_), SAME(bursting_period_), NEAR(reflexive_weight_);
    NEAR(reversal_inhibitory_potential_), SAME(absolute_refractory_period_), NEAR(potential_reset_value_), NEAR(min_potential_), SAME(total_blocking_period_);
    if (!learns) NEAR(additional_threshold_);
}
void compare_fields(Diff &d, const Lif &got, const Lif &want, bool)
{
    NEAR(potential_), NEAR(potential_reset_value_), NEAR(activation_threshold_), NEAR(leak_coefficient_), SAME(refract_counter_), SAME(refract_period_);
}
void compare_fields(Diff &d, const Altai &got, const Altai &want, bool learns)
{
    SAME(is_diff_), SAME(is_reset_), SAME(leak_rev_), SAME(saturate_), SAME(do_not_save_), NEAR(potential_), NEAR(pre_impact_potential_), SAME(activation_threshold_);
    SAME(negative_activation_threshold_), SAME(potential_leak_), SAME(potential_reset_value_), SAME(activity_time_);
    if (!learns) NEAR(additional_threshold_);
}

template <class N> constexpr bool learns = false;
template <class B> constexpr bool learns<nt::SynapticResourceSTDPNeuron<B>> = true;
template <class N> struct BaseOf { using type = N; };
template <class B> struct BaseOf<nt::SynapticResourceSTDPNeuron<B>> { using type = B; };

struct Shot
{
    std::vector<kc::AllPopulationsVariant> pops;
    std::vector<kc::AllProjectionsVariant> projs;
};
Shot shoot(Net &n)
{
    Quiet q;
    Shot s;
    n.each_pop([&](auto &p) { s.pops.emplace_back(p); });
    n.each_proj([&](auto &p) { s.projs.emplace_back(p); });
    return s;
}

struct Stats
{
    size_t spikes = 0, steps = 0, close = 0, blocked = 0, bursts = 0, learned = 0, continued = 0, dopamine = 0, shared = 0;
};

// What every neuron of population p receives in `step`.
std::vector<Input> inputs(const Spec &s, const Trace &t, size_t p, size_t step)
{
    std::vector<Input> in(s.pops[p].n);
    auto put = [&](const km::SynapticImpact &i, bool forcing) { if (i.postsynaptic_neuron_index_ < in.size()) in[i.postsynaptic_neuron_index_].add(i, forcing); };
    if (step)
    {
        auto &r = t.steps.at(step - 1);
        for (size_t j = 0; j < s.projs.size(); ++j)
            if (s.projs[j].post == static_cast<int>(p))
                for (auto &m : r.impacts[j])
                    for (auto &i : m.impacts) put(i, m.forcing);
    }
    for (auto &e : s.events)
        if (e.kind == Event::IMPACT && e.step == step && static_cast<size_t>(e.a[0]) == p && s.pops[p].n)
            for (auto &m : {external_impact(s, e)})
                for (auto &i : m.impacts_) put(i, m.is_forcing_);
    return in;
}

// The neurons of one population across one step.
template <class P>
void check_neurons(const Spec &s, size_t p, size_t step, const P &before, const P &after, const std::vector<Input> &in, const std::vector<km::SpikeMessage> &msgs, Stats &stats)
{
    using N = typename P::PopulationNeuronType;
    using Base = nt::neuron_parameters<typename BaseOf<N>::type>;
    constexpr bool learner = learns<N>;
    std::vector<int> fired(before.size(), 0);
    if (msgs.size() > 1) violation("spikes", "step %zu: population %zu sent %zu spike messages", step, p, msgs.size());
    for (auto &m : msgs)
        for (auto i : m.neuron_indexes_)
        {
            if (i >= fired.size()) violation("spikes", "step %zu: population %zu of %zu neurons reports a spike of neuron %u", step, p, fired.size(), i);
            if (fired[i]++) violation("spikes", "step %zu: population %zu reports neuron %u twice", step, p, i);
        }
    if (before.size() != after.size()) violation("size", "step %zu changed the size of population %zu", step, p);
    for (size_t i = 0; i < before.size(); ++i)
    {
        const Base &was = before[i], &got = after[i];
        const Input &x = in[i];
        double scale = std::fabs(static_cast<double>(was.potential_)) + x.magnitude;
        bool exact = x.exact && dyadic(was.potential_);
        if constexpr (std::is_same_v<Base, Blifat>)
            exact = exact && dyadic(was.potential_ * was.potential_decay_) && dyadic(was.inhibitory_conductance_ * was.inhibitory_conductance_decay_) &&
                    dyadic(was.dynamic_threshold_ * was.threshold_decay_) && dyadic(was.additional_threshold_) && dyadic(was.activation_threshold_) && dyadic(was.reversal_inhibitory_potential_);
        else if constexpr (std::is_same_v<Base, Lif>) exact = exact && scale < 1024 && dyadic(was.potential_ * static_cast<double>(was.leak_coefficient_)) && std::floor(was.potential_ * 4096.0) == was.potential_ * 4096.0;
        else exact = exact && scale < 1024 && dyadic(was.additional_threshold_);
        double tol = 2e-5 * (1 + scale);
        // The last of several blockings counts; which one that is depends on the order of messages.
        std::vector<Base> starts;
        std::vector<std::pair<double, bool>> blockings;
        if constexpr (std::is_same_v<Base, Altai>)
        {
            auto order = x.blocking;
            if (order.size() > 4) continue;
            std::sort(order.begin(), order.end());
            do
            {
                Base b = was;
                for (double v : order) block(b, v);
                // Twice the same value in one step, at any place.
                starts.push_back(b);
            } while (std::next_permutation(order.begin(), order.end()));
            for (double v : x.blocking)
            {
                Base b = was;
                for (double u : x.blocking) block(b, u);
                block(b, v);
                starts.push_back(b);
            }
            blockings.assign(starts.size(), {0, false});
        }
        else
        {
            for (double v : x.blocking) blockings.push_back({v, true});
            if (blockings.empty()) blockings.push_back({0, false});
            starts.assign(blockings.size(), was);
        }
        std::string first;
        bool ok = false, skipped = false, want_spike = false;
        for (size_t k = 0; k < starts.size() && !ok; ++k)
        {
            auto next = follow(starts[k], x, blockings[k].first, blockings[k].second);
            if (!exact && next.margin < tol) { skipped = true; break; }
            if (std::is_same_v<Base, Altai> && next.margin == 0 && std::fabs(static_cast<double>(got.potential_)) >= 0 &&
                static_cast<double>(was.potential_) <= 0 && !next.spike) { skipped = true; break; }      // exactly at the negative threshold the documents and the code differ
            Diff d{"", exact ? 1e-9 : 1e-4 * (1 + scale)};
            if (std::is_same_v<Base, Blifat> && exact) d.tol = 1e-12;
            if (std::is_same_v<Base, Altai> || std::is_same_v<Base, Lif>) d.tol = std::max(d.tol, 1e-6);
            if (next.spike != (fired[i] != 0))
                d.what = next.spike ? "it did not spike, the model does" : "it spiked, the model does not";
            compare_fields(d, got, next.n, learner);
            if (d.what.empty()) ok = true, want_spike = next.spike;
            else if (first.empty()) first = d.what;
        }
        if (skipped) { ++stats.close; continue; }
        if (!ok)
            violation("model", "step %zu, population %zu, neuron %zu (type %d): %s (received current %.9g, conductance %.9g, %zu blocking; potential before %.9g)", step, p, i, s.pops[p].type,
                      first.c_str(), x.current, x.conductance, x.blocking.size(), static_cast<double>(was.potential_));
        ++stats.steps;
        stats.spikes += want_spike;
        stats.blocked += !x.blocking.empty();
        if constexpr (std::is_same_v<Base, Blifat>) stats.bursts += was.bursting_phase_ == 1 && was.reflexive_weight_ != 0;
        if constexpr (learner)
        {
            // Dopamine and forcing of learning neurons are those of the step.
            if (std::fabs(after[i].dopamine_value_ - x.dopamine) > 1e-5 * (1 + x.magnitude))
                violation("model", "step %zu, population %zu, neuron %zu: dopamine is %.9g, it received %.9g", step, p, i, static_cast<double>(after[i].dopamine_value_), x.dopamine);
            if (after[i].is_being_forced_ != x.forced) violation("model", "step %zu, population %zu, neuron %zu: forced is %d, it should be %d", step, p, i, after[i].is_being_forced_, x.forced);
        }
    }
}

// ---- learning -----------------------------------------------------------------------------------------------------
struct Link { size_t proj, syn; };
using ResProj = kc::Projection<st::SynapticResourceSTDPDeltaSynapse>;

struct Learner
{
    const Spec &s;
    size_t step;
    const Shot &before, &after;
    Stats &stats;

    const st::synapse_parameters<st::SynapticResourceSTDPDeltaSynapse> &syn(const Shot &x, Link l) const
    {
        return std::get<kc::synapse_data>(std::get<ResProj>(x.projs[l.proj])[l.syn]);
    }
    static double step_of(double stability) { return std::min(std::pow(2.0, -stability), 1.0); }

    template <class P>
    void population(size_t p, const P &was, const P &now, const std::vector<char> &fired)
    {
        std::vector<std::vector<Link>> links(was.size());
        for (size_t j = 0; j < before.projs.size(); ++j)
            if (auto *x = std::get_if<ResProj>(&before.projs[j]); x && s.projs[j].post == static_cast<int>(p) && !x->is_locked())
                for (size_t k = 0; k < x->size(); ++k)
                {
                    size_t to = std::get<kc::target_neuron_id>((*x)[k]);
                    if (to < links.size()) links[to].push_back({j, k});
                }
        for (size_t i = 0; i < was.size(); ++i) neuron(p, i, was[i], now[i], fired[i], links[i]);
    }

    template <class N>
    void neuron(size_t p, size_t i, const N &was, const N &now, bool fired, const std::vector<Link> &links)
    {
        using I = nt::ISIPeriodType;
        struct S { double w, res; bool contributed, hebbian; };
        std::vector<S> syns;
        for (auto l : links)
        {
            auto &d = syn(before, l);
            syns.push_back({d.weight_, d.rule_.synaptic_resource_, d.rule_.has_contributed_, d.rule_.had_hebbian_update_});
        }
        double free = was.free_synaptic_resource_, stability = was.stability_, extra = was.additional_threshold_, scale = std::fabs(free) + std::fabs(stability);
        uint64_t last = was.last_step_, last_spike = was.last_spike_step_, first = was.first_isi_spike_;
        I isi = was.isi_status_;
        bool weights = false;
        if (fired)
        {
            last_spike = step;
            uint64_t gap = step - was.last_step_;
            if (now.is_being_forced_) isi = I::is_forced;
            else
            {
                bool within = gap < was.isi_max_;
                if (gap == was.isi_max_ && (was.isi_status_ == I::period_started || was.isi_status_ == I::period_continued)) within = now.isi_status_ == I::period_continued;   // the border is open
                if (was.isi_status_ == I::period_started) isi = within ? I::period_continued : I::period_started;
                else if (was.isi_status_ == I::period_continued) isi = within && now.dopamine_value_ == 0 ? I::period_continued : I::period_started;
                else isi = I::period_started;
                if (isi == I::period_started)
                    first = was.isi_status_ == I::period_started && now.first_isi_spike_ == was.first_isi_spike_ ? was.first_isi_spike_ : step;
                last = step;
                stats.continued += isi == I::period_continued;
            }
            if (isi == I::period_started) stability -= was.stability_change_at_isi_;
            extra = 0;
            double change = was.d_h_ * step_of(stability);
            for (size_t k = 0; k < syns.size(); ++k)
            {
                auto &d = syn(before, links[k]);
                extra += std::max(static_cast<double>(d.weight_), 0.0);
                uint64_t arrived = d.rule_.last_spike_step_ + d.delay_ - 1, period = d.rule_.dopamine_plasticity_period_;
                bool recent = step >= period ? arrived <= step && step - arrived <= period : syn(after, links[k]).rule_.has_contributed_;   // the beginning of a run is open
                if (step < period && isi == I::period_continued) syns[k].contributed = recent;
                else if (isi != I::period_continued || recent) syns[k].contributed = recent;
                if (isi != I::period_continued) syns[k].hebbian = false;
                if (isi != I::is_forced)
                {
                    syns[k].res -= d.rule_.d_u_;
                    free += d.rule_.d_u_;
                    if (syns[k].contributed && !syns[k].hebbian)
                    {
                        syns[k].res += change;
                        free -= change;
                        syns[k].hebbian = true;
                        scale += std::fabs(change);
                    }
                }
            }
            extra *= was.synapse_sum_threshold_coefficient_;
            weights = true;
        }
        double dope = now.dopamine_value_;
        if (dope > 0 || (dope < 0 && isi != I::is_forced))
        {
            double change = dope * step_of(stability);
            if (step - last_spike <= was.dopamine_plasticity_time_)
                for (auto &x : syns)
                    if (x.contributed) x.res += change, free -= change, scale += std::fabs(change);
            if (now.is_being_forced_ || dope < 0) stability = std::max(stability - dope * was.stability_change_parameter_, 0.0);
            else
            {
                double since = static_cast<double>(step - first), most = was.isi_max_;
                stability += was.stability_change_parameter_ * dope * std::max(2 - std::fabs(since - most) / most, -1.0);
            }
            scale += std::fabs(dope);
            weights = true;
            ++stats.dopamine;
        }
        bool resting = step - last > was.isi_max_ || isi == I::is_forced;
        double tol = 1e-4 * (1 + scale);
        if (resting && std::fabs(std::fabs(free) - was.synaptic_resource_threshold_) < tol && free != was.free_synaptic_resource_) { ++stats.close; return; }
        if (resting && std::fabs(free) >= was.synaptic_resource_threshold_ && links.size() + was.resource_drain_coefficient_ > 0)
        {
            double share = free / static_cast<double>(links.size() + was.resource_drain_coefficient_);
            for (auto &x : syns) x.res += share;
            free = 0;
            weights = true;
            stats.shared += !links.empty();
        }
        Diff d{"", tol};
        d.num("free_synaptic_resource_", now.free_synaptic_resource_, free);
        d.num("stability_", now.stability_, stability);
        d.num("additional_threshold_", now.additional_threshold_, extra);
        d.is("isi_status_", static_cast<int>(now.isi_status_), static_cast<int>(isi));
        d.is("last_step_", now.last_step_, last);
        d.is("last_spike_step_", now.last_spike_step_, last_spike);
        d.is("first_isi_spike_", now.first_isi_spike_, first);
        const N &got = now, &want = was;
        NEAR(synapse_sum_threshold_coefficient_), SAME(dopamine_plasticity_time_), NEAR(synaptic_resource_threshold_), SAME(resource_drain_coefficient_);
        NEAR(stability_change_parameter_), NEAR(stability_change_at_isi_), SAME(isi_max_), NEAR(d_h_);
        if (!d.what.empty())
            violation("learning of a neuron", "step %zu, population %zu, neuron %zu (type %d, %s, dopamine %g, forced %d, %zu synapses): %s", step, p, i, s.pops[p].type, fired ? "spiked" : "silent", dope,
                      now.is_being_forced_, links.size(), d.what.c_str());
        for (size_t k = 0; k < syns.size(); ++k)
        {
            auto &x = syn(before, links[k]), &y = syn(after, links[k]);
            if (weights)
            {
                double r = std::max(syns[k].res, 0.0), range = static_cast<double>(x.rule_.w_max_) - x.rule_.w_min_;
                syns[k].w = range + r > 0 ? x.rule_.w_min_ + range * r / (range + r) : x.rule_.w_min_;
            }
            Diff e{"", tol};
            e.num("synaptic_resource_", y.rule_.synaptic_resource_, syns[k].res);
            e.num("weight_", y.weight_, syns[k].w);
            e.is("has_contributed_", static_cast<int>(y.rule_.has_contributed_), static_cast<int>(syns[k].contributed));
            e.is("had_hebbian_update_", static_cast<int>(y.rule_.had_hebbian_update_), static_cast<int>(syns[k].hebbian));
            if (!e.what.empty())
                violation("learning of a synapse", "step %zu, projection %zu, synapse %zu to neuron %zu (%s, dopamine %g, forced %d, period %d): %s", step, links[k].proj, links[k].syn, i,
                          fired ? "spiked" : "silent", dope, now.is_being_forced_, static_cast<int>(isi), e.what.c_str());
            stats.learned += y.rule_.synaptic_resource_ != x.rule_.synaptic_resource_;
        }
    }
};
#undef SAME
#undef NEAR

// The last presynaptic spike of every learning synapse.
void check_arrivals(const Spec &s, const World &w, const StepRec &rec, size_t step, const Shot &before, const Shot &after)
{
    for (size_t j = 0; j < s.projs.size(); ++j)
    {
        auto *a = std::get_if<ResProj>(&before.projs[j]), *b = std::get_if<ResProj>(&after.projs[j]);
        if (!a || !b || s.projs[j].type != RESOURCE) continue;
        std::set<size_t> fired;
        if (s.projs[j].pre >= 0)
            for (auto &m : rec.spikes[static_cast<size_t>(s.projs[j].pre)]) fired.insert(m.neuron_indexes_.begin(), m.neuron_indexes_.end());
        for (auto &e : s.events)
            if (e.kind == Event::SPIKES && e.step == step && std::count(s.feeds.begin(), s.feeds.end(), std::make_pair(j, static_cast<size_t>(e.a[0]))))
                for (auto x : w.indices(static_cast<size_t>(e.a[0]), e.a[1], e.a[2] & 1)) fired.insert(x);
        for (size_t k = 0; k < a->size(); ++k)
        {
            auto &x = std::get<kc::synapse_data>((*a)[k]).rule_, &y = std::get<kc::synapse_data>((*b)[k]).rule_;
            size_t want = fired.count(std::get<kc::source_neuron_id>((*a)[k])) ? step : x.last_spike_step_;
            if (y.last_spike_step_ != want)
                violation("last spike of a synapse", "step %zu, projection %zu, synapse %zu: its last spike is at step %zu, it should be %zu", step, j, k, static_cast<size_t>(y.last_spike_step_), want);
        }
    }
}

void gen(Rng &r, Case &c, bool learning)
{
    c.p["mt"] = r.chance(0.5);
    GenOptions o;
    o.st_types = !c.p["mt"];
    o.max_steps = r.chance(0.3) ? 40 : 14;
    o.learning = learning || r.chance(0.3);
    o.locks = learning && r.chance(0.3);
    gen_net(r, c, o);
    c.p["exact"] = r.chance(learning ? 0.5 : 0.7);
    for (auto &op : c.ops)
    {
        if (op.k == "pop" && !learning && !c.p["mt"] && r.chance(0.3)) op.a[0] = ALTAI;
        if (op.k == "pop" && learning && r.chance(0.7)) op.a[0] = c.p["mt"] || r.chance(0.6) ? STDP_BLIFAT : STDP_ALTAI;
        if (op.k == "proj" && learning && r.chance(0.7)) op.a[2] = RESOURCE;
        if (op.k == "proj" && op.a[2] == ADDITIVE) op.a[2] = RESOURCE;
    }
}
void gen31(Rng &r, Case &c) { gen(r, c, false); }
void gen42(Rng &r, Case &c) { gen(r, c, true); }

void run(const Case &c, bool learning)
{
    bool mt = c.P("mt", 0, 0, 1);
    Spec s = parse(c, mt);
    Net n = mt ? make_mt(s, mt_params(c)) : make_st(s);
    World w(n, s);
    Shot b = shoot(n);
    Stats stats;
    n.b->start(
        [&](kc::Step t)
        {
            bool r = w.pre(t);
            if (learning) b = shoot(n);      // locks may have changed
            return r;
        },
        [&](kc::Step next)
        {
            w.post(next);
            size_t step = next - 1;
            Shot a = shoot(n);
            Quiet q;
            StepRec &rec = w.tr.steps.at(step);
            for (size_t p = 0; p < s.pops.size(); ++p)
                std::visit(
                    [&](auto &was)
                    {
                        using P = std::decay_t<decltype(was)>;
                        auto &now = std::get<P>(a.pops[p]);
                        if (!learning) check_neurons(s, p, step, was, now, inputs(s, w.tr, p, step), rec.spikes[p], stats);
                        else if constexpr (learns<typename P::PopulationNeuronType>)
                        {
                            std::vector<char> fired(was.size(), 0);
                            for (auto &m : rec.spikes[p])
                                for (auto i : m.neuron_indexes_)
                                    if (i < fired.size()) fired[i] = 1;
                            Learner{s, step, b, a, stats}.population(p, was, now, fired);
                        }
                    },
                    b.pops[p]);
            if (learning) check_arrivals(s, w, rec, step, b, a);
            b = std::move(a);
            return next < s.steps;
        });
    Quiet q;
    observe(w.tr);
    if (mt) sim::probe("runs on the multi-threaded backend");
    if (stats.close) sim::probe("neuron steps too close to a threshold to judge", stats.close);
    if (learning)
    {
        if (stats.learned) sim::nontrivial();
        if (stats.continued) sim::probe("spikes that continued a period", stats.continued);
        if (stats.dopamine) sim::probe("neuron steps with dopamine", stats.dopamine);
        if (stats.shared) sim::probe("redistributions of free resource", stats.shared);
        sim::probe("resource changes of synapses", stats.learned);
    }
    else
    {
        if (stats.spikes) sim::nontrivial();
        sim::probe("neuron steps judged", stats.steps);
        if (stats.spikes) sim::probe("spikes judged", stats.spikes);
        if (stats.blocked) sim::probe("neuron steps with blocking", stats.blocked);
        if (stats.bursts) sim::probe("bursts", stats.bursts);
    }
}
void run31(const Case &c) { run(c, false); }
void run42(const Case &c) { run(c, true); }

const char *const REAL = "both CPU backends with thread pool, bus, populations, projections and the learning rules";
const char *const STUB = "thread scheduling, the input source and the observer (simulator and harness)";
sim::Register r31({"C31", "neuron_models", 1, gen31, run31,
                   "Random networks of all neuron types on both backends with recurrent and external input, inhibition, blocking, bursts and refractoriness; in every step every field of every neuron "
                   "and every spike against a reference of its model fed with the impacts that were observed. Non-trivial when neurons spiked.",
                   REAL, STUB, 0, 0});
sim::Register r42({"C42", "resource_rule", 1, gen42, run42,
                   "Random learning networks on both backends with forcing, dopamine, delays, locks and silence; in every step every learning field of every neuron and synapse against a reference of the "
                   "rule. Non-trivial when synapses learned.",
                   REAL, STUB, 0, 0});
}  // namespace
