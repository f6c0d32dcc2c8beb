// C41: normalization changes the chosen value of every element once, and nothing else.
#include <knp/framework/normalization/neuron_accessors.h>
#include <knp/framework/normalization/neuron_normalizer.h>
#include <knp/framework/normalization/normalizers.h>
#include <knp/framework/normalization/synapse_accessors.h>
#include <knp/framework/normalization/synapse_normalizer.h>

#include "framework_image.h"

using namespace image_of;
using namespace rig;
namespace fn = kf::normalization;

namespace
{
// Accessors of another value than the library's own.
template <class Neuron>
struct ThresholdAccessor
{
    using Params = typename kc::Population<Neuron>::NeuronParameters;
    auto operator()(const Params &p) const { return p.activation_threshold_; }
    void operator()(Params &p, decltype(Params::activation_threshold_) v) const { p.activation_threshold_ = v; }
};
template <class Syn>
struct DelayAccessor
{
    using Params = typename kc::Projection<Syn>::SynapseParameters;
    uint32_t operator()(const Params &p) const { return p.delay_; }
    void operator()(Params &p, uint32_t v) const { p.delay_ = v; }
};

enum Target { ONE, NETWORK, COPY, TARGETS };
enum Access { OWN, OTHER, CROSSED, ACCESSES };   // library accessors; the harness's; read with one, write with the other
enum Correct { SCALE, FUNCTION, RESCALE, CORRECTS };

struct Job
{
    bool neurons;
    size_t target, which, access, correct, bomb, salt;
    double palloc;
};
// A corrector of the job: asked values are counted, it fails at a chosen call.
struct Teller
{
    const Job &j;
    size_t calls = 0;
    bool bombed = false;
    std::multiset<double> asked;
    double in0, in1, out0, out1;
    explicit Teller(const Job &job) : j(job)
    {
        in0 = static_cast<double>(j.salt % 5) - 2, in1 = in0 + (j.salt % 2 ? 8 : 4);
        out0 = static_cast<double>(j.salt % 3) + 1, out1 = out0 + (j.salt % 7 ? 2 : 16);
    }
    // Exact in every order of evaluation: small multiples of 1/8.
    double answer(double v) const { return j.correct == RESCALE ? out0 + (v - in0) * ((out1 - out0) / (in1 - in0)) : v * 2 + 3; }
    void note(double v)
    {
        {
            Quiet q;
            asked.insert(v);
            if (++calls != j.bomb) return;
            bombed = true;
        }
        throw_injected("corrector failed", j.salt);
    }
};


template <template <class> class Get, template <class> class Set, class C>
void neurons(kf::Network &net, const Job &j, std::optional<kf::Network> &made, C c)
{
    if (j.target == NETWORK) fn::normalize_neurons<Get, Set>(net, c);
    else if (j.target == COPY) made.emplace(fn::normalize_neurons<Get, Set>(static_cast<const kf::Network &>(net), c));
    else
        std::visit(
            [&](auto &p)
            {
                using N = typename std::decay_t<decltype(p)>::PopulationNeuronType;
                fn::normalize_neurons<N>(p, Get<N>(), Set<N>(), c);
            },
            net.get_population(pop_uid(j.which)));
}
template <template <class> class Get, template <class> class Set, class C>
void synapses(kf::Network &net, const Job &j, std::optional<kf::Network> &made, C c)
{
    if (j.target == NETWORK) fn::normalize_synapses<Get, Set>(net, c);
    else if (j.target == COPY) made.emplace(fn::normalize_synapses<Get, Set>(static_cast<const kf::Network &>(net), c));
    else
        std::visit(
            [&](auto &p)
            {
                using S = typename std::decay_t<decltype(p)>::ProjectionSynapseType;
                fn::normalize_synapses<S>(p, Get<S>(), Set<S>(), c);
            },
            net.get_projection(proj_uid(j.which)));
}
template <class C>
void apply(kf::Network &net, const Job &j, std::optional<kf::Network> &made, C c)
{
    if (j.neurons)
    {
        if (j.access == OWN) neurons<fn::PotentialAccessor, fn::PotentialAccessor>(net, j, made, c);
        else if (j.access == OTHER) neurons<ThresholdAccessor, ThresholdAccessor>(net, j, made, c);
        else neurons<ThresholdAccessor, fn::PotentialAccessor>(net, j, made, c);
    }
    else if (j.access == OWN) synapses<fn::WeightAccessor, fn::WeightAccessor>(net, j, made, c);
    else if (j.access == OTHER) synapses<DelayAccessor, DelayAccessor>(net, j, made, c);
    else synapses<DelayAccessor, fn::WeightAccessor>(net, j, made, c);
}
template <class R>
struct Told
{
    R scale;
    Teller *t;
    template <class T>
    auto operator()(const T &v)
    {
        t->note(static_cast<double>(v));
        return scale(static_cast<double>(v));
    }
};

// Every element the job is about, in the order of a walk over the network.
template <class F>
void each(const kf::Network &net, const Job &j, F f)
{
    size_t n = 0;
    if (j.neurons)
        for (auto &v : net.get_populations())
            std::visit(
                [&](auto &p)
                {
                    if (j.target != ONE || p.get_uid() == pop_uid(j.which))
                        for (auto &e : p) f(n++, const_cast<typename std::decay_t<decltype(p)>::NeuronParameters &>(e), 0);
                },
                v);
    else
        for (auto &v : net.get_projections())
            std::visit(
                [&](auto &p)
                {
                    if (j.target != ONE || p.get_uid() == proj_uid(j.which))
                        for (auto &e : p) f(n++, const_cast<typename std::decay_t<decltype(p)>::SynapseParameters &>(std::get<0>(e)), 'a');
                },
                v);
}
template <class T, class F> void value(T &e, size_t access, int, F f) { access == OTHER ? f(e.activation_threshold_) : f(e.potential_); }
template <class T, class F> void value(T &e, size_t access, char, F f) { access == OTHER ? f(e.delay_) : f(e.weight_); }
template <class T> double asked_of(const T &e, size_t access, int) { return access == OWN ? static_cast<double>(e.potential_) : static_cast<double>(e.activation_threshold_); }
template <class T> double asked_of(const T &e, size_t access, char) { return access == OWN ? static_cast<double>(e.weight_) : static_cast<double>(e.delay_); }

void gen41(Rng &r, Case &c)
{
    GenOptions o;
    o.st_types = true, o.mt_params = false;
    o.max_steps = 2;
    gen_net(r, c, o);
    c.p["alloc"] = r.chance(0.3) ? r.range(1, 60) : 0;
    for (long n = r.range(1, 5); n > 0; --n)
        c.op("norm", {r.range(0, 1), r.range(0, TARGETS - 1), r.range(0, 20), r.range(0, ACCESSES - 1), r.range(0, CORRECTS - 1), r.chance(0.2) ? r.range(1, 30) : 0, r.range(0, 1000)});
}
void run41(const Case &c)
{
    Spec s = parse(c, false);
    const double palloc = static_cast<double>(c.P("alloc", 0, 0, 300)) / 1000.0;
    kf::Network net;
    {
        Quiet q;
        for (size_t i = 0; i < s.pops.size(); ++i)
        {
            auto p = make_pop(s, i);
            if (s.pops[i].seed & 1) std::visit([&](auto &x) { x.get_tags().get_tag("label") = std::string("population ") + std::to_string(i); }, p);
            net.add_population(std::move(p));
        }
        for (size_t i = 0; i < s.projs.size(); ++i)
        {
            auto p = make_proj(s, i);
            if (s.projs[i].seed & 1) std::visit([&](auto &x) { x.get_tags()[kc::tags::io_type_tag] = kc::tags::IOType::input; }, p);
            net.add_projection(std::move(p));
        }
    }
    size_t done = 0, failed = 0;
    for (size_t step = 0; step < c.ops.size(); ++step)
    {
        auto &op = c.ops[step];
        if (op.k != "norm") continue;
        Job j{op.A(0) != 0, op.idx(1, TARGETS), 0, op.idx(3, ACCESSES), op.idx(4, CORRECTS), op.idx(5, 1000), op.idx(6, 10000), palloc};
        if (j.access == OTHER && j.correct == RESCALE) j.correct = SCALE;   // these values are not negative
        if (j.target == ONE && (j.neurons ? s.pops.empty() : s.projs.empty())) continue;
        j.which = op.idx(2, std::max<size_t>(1, j.neurons ? s.pops.size() : s.projs.size()));
        Teller t(j);
        kf::Network before, want;
        std::vector<double> old, answers;
        Image original;
        {
            Quiet q;
            // Values that tell the elements apart.
            each(net, j,
                 [&](size_t n, auto &e, auto kind)
                 {
                     size_t k = 0;
                     value(e, OWN, kind, [&](auto &v) { v = static_cast<std::decay_t<decltype(v)>>(static_cast<double>((n * 7 + j.salt) % 64) / 4 - 2); });
                     value(e, OTHER, kind, [&](auto &v) { k = (n * 3 + j.salt) % 200 + 1, v = static_cast<std::decay_t<decltype(v)>>(k); });
                 });
            before = net, want = net;
            each(want, j,
                 [&](size_t, auto &e, auto kind)
                 {
                     const double a = t.answer(asked_of(e, j.access, kind));
                     old.push_back(asked_of(e, j.access, kind));
                     value(e, j.access, kind, [&](auto &v) { v = static_cast<std::decay_t<decltype(v)>>(a); });
                 });
            original = image_of::image(before);
        }
        std::optional<kf::Network> made;
        bool threw = false, counted = true;
        try
        {
            sim::AllocFaults a(palloc);
            if (j.correct == SCALE)
                apply(net, j, made, [&t](const auto &v) { t.note(static_cast<double>(v)); return v * 2 + 3; });
            else if (j.correct == FUNCTION)
            {
                fn::ValueCorrector<double> f = [&t](const double &v) { t.note(v); return t.answer(v); };
                apply(net, j, made, f);
            }
            else if (j.salt % 4 == 0) counted = false, apply(net, j, made, fn::Rescaler<double>(t.in0, t.in1, t.out0, t.out1));
            else if (j.salt % 4 == 1)
                counted = false, apply(net, j, made, fn::Rescaler<float>(static_cast<float>(t.in0), static_cast<float>(t.in1), static_cast<float>(t.out0), static_cast<float>(t.out1)));
            else if (j.salt % 4 == 2) apply(net, j, made, Told<fn::Rescaler<double>>{{t.in0, t.in1, t.out0, t.out1}, &t});
            else
                apply(net, j, made, Told<fn::Rescaler<float>>{{static_cast<float>(t.in0), static_cast<float>(t.in1), static_cast<float>(t.out0), static_cast<float>(t.out1)}, &t});
        }
        catch (const std::bad_alloc &)
        {
            if (palloc == 0) violation("failure", "out of memory although there is enough");
            threw = true;
            sim::probe("no memory");
        }
        catch (const Injected &) { threw = true; }
        catch (const Foreign &) { threw = true; }
        catch (const char *) { threw = true; }
        Quiet q;
        sim::obs(t.calls * 2 + threw);
        if (t.bombed && !threw) violation("failure swallowed", "operation %zu: the corrector failed, normalization succeeded", step);
        if (t.bombed) sim::probe("correctors failed");
        // It is asked with present values, each once.
        std::multiset<double> all(old.begin(), old.end());
        if (counted && !threw && t.asked != all)
            violation("corrector calls", "operation %zu: the corrector got %zu value(s) that are not those of the %zu element(s)", step, t.calls, old.size());
        if (threw)
            for (double v : std::set<double>(t.asked.begin(), t.asked.end()))
                if (t.asked.count(v) > all.count(v)) violation("corrector calls", "operation %zu: the corrector got a value more often than it occurs", step);
        if (j.target == COPY)
        {
            same(image_of::image(net), original, "original changed", "the original", "the original before", step);
            if (!threw) same(image_of::image(*made), image_of::image(want), "wrong copy", "the normalized copy", "the expected one", step);
        }
        else if (!threw)
            same(image_of::image(net), image_of::image(want), "wrong values", "the normalized network", "the expected one", step);
        else
        {
            // Stopped halfway: each element is as before or as corrected.
            std::vector<double> a, b;
            const size_t written = j.access == OTHER ? OTHER : OWN;
            auto values = [&](kf::Network &x, std::vector<double> &to)
            { each(x, j, [&](size_t, auto &e, auto kind) { value(e, written, kind, [&](auto &v) { to.push_back(static_cast<double>(v)); }); }); };
            values(before, a), values(want, b);
            size_t changed = 0;
            each(net, j,
                 [&](size_t n, auto &e, auto kind)
                 {
                     value(e, written, kind,
                           [&](auto &v)
                           {
                               const double x = static_cast<double>(v);
                               if (x == a[n]) return;
                               if (x != b[n]) violation("wrong values", "operation %zu: element %zu is neither as before nor corrected after a failure", step, n);
                               ++changed;
                               v = static_cast<std::decay_t<decltype(v)>>(a[n]);
                           });
                 });
            if (changed > t.calls) violation("wrong values", "operation %zu: %zu elements changed, the corrector was asked %zu times", step, changed, t.calls);
            same(image_of::image(net), original, "other values changed", "the network after a failure", "the network before", step);
        }
        if (!old.empty()) ++(threw ? failed : done);
    }
    if (done) sim::nontrivial();
    if (done && failed) sim::probe("runs with failures and normalizations");
}
sim::Register r41({"C41", "normalize", 1, gen41, run41,
                   "Random networks of all neuron and synapse types; populations, projections and whole networks normalized in place or into a copy, by the library's accessors, other ones, or reading one value "
                   "and writing another, with functions and rescalers that fail at a chosen call, and failing allocations. Non-trivial when something was normalized.",
                   "normalization, accessors, rescaler, network and its copies", "allocator failures, correctors (harness)", 0, 0});
}  // namespace
