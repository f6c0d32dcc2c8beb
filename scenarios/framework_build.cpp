// C30: builders of connections and populations make what they promise.
#include <knp/framework/population/creators.h>
#include <knp/framework/projection/connectors.h>
#include <knp/framework/projection/creators.h>

#include <cstring>
#include <deque>

#include "framework_rig.h"

using namespace rig;
namespace pc = kf::projection::creators;
namespace pg = kf::projection::synapse_generators;
namespace pp = kf::projection::parameters_generators;
namespace nc = kf::population::creators;

namespace
{
enum Kind { ALL, ALIGNED, EXCLUSIVE, ONE, CONTAINER, MAP, INDEX, CLONE, CONNECT, CONNECT_GENERATOR, KINDS };
const char *const NAMES[KINDS] = {"all_to_all", "aligned", "exclusive", "one_to_one", "from_container", "from_map", "index_based", "clone_projection",
                                  "connect_populations", "connect_populations with a generator"};
using Pairs = std::map<std::pair<size_t, size_t>, size_t>;

struct Plan
{
    size_t kind, pre, post, bomb, form, salt;   // form: 0 generator, 1 default parameters, 2 copied parameters, 3 generator and added to an existing projection
    bool ids;
};
float weight_of(size_t i, size_t j) { return static_cast<float>(i * 512 + j + 1); }
template <class Params> Params params_of(size_t i, size_t j)
{
    Params p;
    p.weight_ = weight_of(i, j);
    p.delay_ = static_cast<uint32_t>(1 + i % 50 + 50 * (j % 7));
    p.output_type_ = static_cast<st::OutputType>((i + 2 * j) % 5);
    return p;
}
template <class A, class B> bool same_params(const A &a, const B &b) { return a.weight_ == b.weight_ && a.delay_ == b.delay_ && a.output_type_ == b.output_type_; }

struct Result { size_t built = 0, failures = 0; };

// What the documentation of a builder says it connects.
Pairs promised(const Plan &b, const std::vector<std::pair<size_t, size_t>> &list)
{
    Pairs want;
    switch (b.kind)
    {
        case ALL: case CONNECT:
            for (size_t i = 0; i < b.pre; ++i) for (size_t j = 0; j < b.post; ++j) want[{i, j}] = 1;
            break;
        case EXCLUSIVE:
            for (size_t i = 0; i < b.pre; ++i) for (size_t j = 0; j < b.pre; ++j) if (i != j) want[{i, j}] = 1;
            break;
        case ONE:
            for (size_t i = 0; i < b.pre; ++i) want[{i, i}] = 1;
            break;
        case INDEX:
            for (size_t i = 0; i < b.pre; ++i) for (size_t j = 0; j < b.post; ++j) if ((i * 7 + j * 3 + b.salt) % 5) want[{i, j}] = 1;
            break;
        default:
            for (auto &x : list) ++want[x];
    }
    return want;
}

template <class Syn, class Other>
void build(const Plan &b, double palloc, Result &result)
{
    using P = kc::Projection<Syn>;
    using Params = typename P::SynapseParameters;
    using Synapse = typename P::Synapse;
    const char *name = NAMES[b.kind];
    const kc::UID from = uid(30, 1), to = uid(30, 2);
    Pairs asked;
    size_t calls = 0;
    bool bombed = false;
    auto count = [&](size_t i, size_t j)
    {
        { Quiet q; ++asked[{i, j}]; if (++calls != b.bomb) return; bombed = true; }
        throw_injected("generator failed", b.salt);
    };
    auto two = [&](size_t i, size_t j) { count(i, j); return params_of<Params>(i, j); };
    auto one = [&](size_t i) { count(i, i); return params_of<Params>(i, i); };
    auto maybe = [&](size_t i, size_t j) -> std::optional<Params>
    {
        count(i, j);
        if ((i * 7 + j * 3 + b.salt) % 5 == 0) return std::nullopt;
        return params_of<Params>(i, j);
    };

    // What it is built from.
    std::vector<std::pair<size_t, size_t>> list;
    std::vector<Synapse> synapses;
    std::deque<Synapse> queue;
    std::map<std::tuple<size_t, size_t>, Params> map;
    std::optional<kc::Projection<Other>> source;
    std::optional<kc::Population<nt::BLIFATNeuron>> src;
    std::optional<kc::Population<nt::AltAILIF>> dst;
    std::optional<P> proj;
    const size_t before = b.form == 3 ? 3 : 0;
    {
        Quiet q;
        Rng r(b.salt * 31 + b.pre * 7 + b.post);
        if (b.kind == CONTAINER || b.kind == MAP || b.kind == CLONE || b.kind == CONNECT_GENERATOR)
            for (size_t n = r.below(b.pre * b.post + 1); n > 0; --n) list.emplace_back(r.below(b.pre), r.below(b.post));
        if (b.kind == MAP)
        {
            for (auto &x : list) map[{x.first, x.second}] = params_of<Params>(x.first, x.second);
            list.clear();
            for (auto &x : map) list.emplace_back(std::get<0>(x.first), std::get<1>(x.first));
        }
        for (auto &x : list) synapses.emplace_back(params_of<Params>(x.first, x.second), x.first, x.second);
        queue.assign(synapses.begin(), synapses.end());
        if (b.kind == CLONE)
            source.emplace(uid(31, 2), from, to,
                           [&](size_t i) { return std::make_tuple(typename kc::Projection<Other>::SynapseParameters(), list[i].first, list[i].second); }, list.size());
        if (b.kind >= CONNECT)
        {
            src.emplace(from, [](size_t) { return nt::neuron_parameters<nt::BLIFATNeuron>(); }, b.pre);
            dst.emplace(to, [](size_t) { return nt::neuron_parameters<nt::AltAILIF>(); }, b.post);
        }
        if (before) proj.emplace(uid(31, 1), from, to, [](size_t i) { Params p; p.weight_ = -1 - static_cast<float>(i); return std::make_tuple(p, i, i); }, before);
    }
    auto listed = [&](size_t i) -> std::optional<Synapse>
    {
        count(i, 0);
        return synapses[i];
    };
    const kc::UID other_from = uid(30, 3), other_to = uid(30, 4);
    const bool ids = b.kind == CLONE && b.ids;
    // The numbers of the parameters' forms that a builder has.
    const bool made = b.form == 0 || b.form == 3;
    Params base = params_of<Params>(b.salt % 100, 5);
    const pp::CopySynapseGen<Syn> copied(base);
    bool threw = false;
    try
    {
        sim::AllocFaults a(palloc);
        switch (b.kind)
        {
            case ALL:
                if (b.form == 3) proj->add_synapses(pg::all_to_all<Syn>(b.pre, b.post, two), b.pre * b.post);
                else proj.emplace(b.form == 0 ? pc::all_to_all<Syn>(from, to, b.pre, b.post, two) : b.form == 1 ? pc::all_to_all<Syn>(from, to, b.pre, b.post) : pc::all_to_all<Syn>(from, to, b.pre, b.post, copied));
                break;
            case ALIGNED:
                if (b.form == 3) proj->add_synapses(pg::aligned<Syn>(b.pre, b.post, two), std::max(b.pre, b.post));
                else proj.emplace(b.form == 0 ? pc::aligned<Syn>(from, to, b.pre, b.post, two) : b.form == 1 ? pc::aligned<Syn>(from, to, b.pre, b.post) : pc::aligned<Syn>(from, to, b.pre, b.post, copied));
                break;
            case EXCLUSIVE:
                if (b.form == 3) proj->add_synapses(pg::exclusive<Syn>(b.pre, two), b.pre * (b.pre - 1));
                else proj.emplace(b.form == 0 ? pc::exclusive<Syn>(from, to, b.pre, two) : b.form == 1 ? pc::exclusive<Syn>(from, to, b.pre) : pc::exclusive<Syn>(from, to, b.pre, copied));
                break;
            case ONE:
                if (b.form == 3) proj->add_synapses(pg::one_to_one<Syn>(b.pre, one), b.pre);
                else if (b.form == 0) proj.emplace(pc::one_to_one<Syn>(from, to, b.pre, one));
                else proj.emplace(pc::one_to_one<Syn>(from, to, b.pre));
                break;
            case CONTAINER:
                if (b.form == 3) proj->add_synapses(pg::from_container<Syn>(synapses), synapses.size());
                else if (b.form) proj.emplace(pc::from_container<Syn>(from, to, queue));
                else proj.emplace(pc::from_container<Syn>(from, to, synapses));
                break;
            case MAP:
                if (b.form == 3) proj->add_synapses(pg::FromMap<Syn, std::map>(map), map.size());
                else proj.emplace(pc::from_map<Syn, std::map>(from, to, map));
                break;
            case INDEX:
                if (b.form == 3) proj->add_synapses(pg::index_based<Syn>(b.pre, b.post, maybe), b.pre * b.post);
                else proj.emplace(pc::index_based<Syn>(from, to, b.pre, b.post, maybe));
                break;
            case CLONE:
                if (b.form == 3) proj->add_synapses(pg::clone_projection<Syn, Other>(*source, one), source->size());
                else if (ids) proj.emplace(pc::clone_projection<Syn, Other>(*source, one, b.salt % 3 ? std::optional<kc::UID>(other_from) : std::nullopt, b.salt % 3 != 1 ? std::optional<kc::UID>(other_to) : std::nullopt));
                else if (b.form == 0) proj.emplace(pc::clone_projection<Syn, Other>(*source, one));
                else proj.emplace(pc::clone_projection<Syn, Other>(*source));
                break;
            case CONNECT:
                if (b.form == 1) proj.emplace(kf::projection::connect_populations<Syn>(*src, *dst));
                else if (b.form == 2) proj.emplace(kf::projection::connect_populations<Syn>(*src, *dst, copied));
                else proj.emplace(kf::projection::connect_populations<Syn>(*src, *dst, two));
                break;
            default: proj.emplace(kf::projection::connect_populations<Syn>(*src, *dst, listed, synapses.size()));
        }
    }
    catch (const std::bad_alloc &)
    {
        if (palloc == 0) violation("failure", "%s is out of memory although there is enough", name);
        threw = true;
    }
    catch (const Injected &) { threw = true; if (!bombed) violation("failure", "%s fails although no generator did", name); }
    catch (const Foreign &) { threw = true; }
    catch (const char *) { threw = true; }
    Quiet q;
    if (!threw && bombed) violation("failure swallowed", "the synapse generator failed, %s succeeded", name);
    if (threw) ++result.failures;
    // What it was built from is as before.
    bool intact = queue.size() == synapses.size() && synapses.size() == list.size() && (b.kind != MAP || map.size() == list.size());
    for (size_t i = 0; intact && i < list.size(); ++i)
    {
        const auto want = params_of<Params>(list[i].first, list[i].second);
        intact = same_params(std::get<0>(synapses[i]), want) && same_params(std::get<0>(queue[i]), want) && std::get<1>(synapses[i]) == list[i].first && std::get<2>(queue[i]) == list[i].second;
        if (b.kind == MAP) intact = intact && same_params(map[{list[i].first, list[i].second}], want);
        if (source) intact = intact && source->size() == list.size() && std::get<1>((*source)[i]) == list[i].first && std::get<2>((*source)[i]) == list[i].second;
    }
    if (!intact) violation("source changed", "%s changes what it builds from", name);
    const bool appended = b.form == 3 && b.kind < CONNECT;
    if (!proj) return;
    if (b.form == 3 && !appended && threw) return;
    const kc::UID want_from = ids && b.form != 3 && b.salt % 3 ? other_from : from, want_to = ids && b.form != 3 && b.salt % 3 != 1 ? other_to : to;
    if (!(proj->get_presynaptic() == want_from) || !(proj->get_postsynaptic() == want_to)) violation("wrong populations", "%s connects other populations", name);
    Pairs have;
    std::vector<size_t> load(std::max(b.pre, b.post));
    size_t n = 0, kept = 0;
    std::vector<std::pair<size_t, size_t>> order;
    for (auto &s : *proj)
    {
        const Params &p = std::get<0>(s);
        const size_t i = std::get<1>(s), j = std::get<2>(s);
        if (appended && p.weight_ < 0) { ++kept; continue; }
        if (i >= b.pre || j >= (b.kind == EXCLUSIVE || b.kind == ONE ? b.pre : b.post))
            violation("no such neuron", "%s connects neuron %zu of %zu with %zu of %zu", name, i, b.pre, j, b.post);
        bool right = true;
        if (b.kind == CLONE) right = same_params(p, made || ids ? params_of<Params>(n, n) : Params());
        else if (b.kind == ONE && !made) right = same_params(p, Params());
        else if (made || (b.kind > ONE && b.kind != CONNECT)) right = same_params(p, params_of<Params>(i, j));
        else right = same_params(p, b.form == 1 ? Params() : base);
        if (!right) violation("wrong parameters", "%s gives synapse %zu the parameters of another one", name, n);
        ++have[{i, j}];
        order.emplace_back(i, j);
        ++n;
    }
    sim::obs(n);
    if (appended && kept != before) violation("synapses lost", "%s left %zu of %zu earlier synapses", name, kept, before);
    if (b.kind == ALIGNED)
    {
        // One synapse for each neuron of the larger population, shared out evenly and in order among those of the smaller one.
        const size_t large = std::max(b.pre, b.post), small = std::min(b.pre, b.post);
        std::vector<size_t> partner(large, ~size_t(0)), shares(small);
        for (auto &x : order)
        {
            const size_t l = b.pre >= b.post ? x.first : x.second, s = b.pre >= b.post ? x.second : x.first;
            if (partner[l] != ~size_t(0)) violation("connected twice", "aligned connects a neuron of the larger population twice (%zu to %zu)", b.pre, b.post);
            partner[l] = s;
            ++shares[s];
        }
        if (!threw)
        {
            if (!small)
            {
                if (n) violation("wrong connections", "aligned connects %zu synapses to no neuron", n);
                return void(++result.built);
            }
            if (n != large) violation("wrong connections", "aligned makes %zu synapses for populations of %zu and %zu", n, b.pre, b.post);
            if (!std::is_sorted(partner.begin(), partner.end())) violation("wrong connections", "aligned connects neurons of %zu and %zu out of order", b.pre, b.post);
            for (size_t s : shares)
                if (s < large / small || s > (large + small - 1) / small) violation("wrong connections", "aligned gives a neuron %zu of %zu synapses, there are %zu neurons", s, n, small);
        }
    }
    else
    {
        const Pairs want = promised(b, list);
        if (!threw && have != want) violation("wrong connections", "%s makes %zu synapses for populations of %zu and %zu that are not the promised ones", name, n, b.pre, b.post);
        for (auto &x : have)
        {
            auto w = want.find(x.first);
            if (w == want.end() || w->second < x.second) violation("wrong connections", "%s connects neurons %zu and %zu too often", name, x.first.first, x.first.second);
        }
        if ((b.kind == CONTAINER || b.kind == CLONE || b.kind == CONNECT_GENERATOR) && !std::equal(order.begin(), order.end(), list.begin()))
            violation("wrong order", "%s changes the order of synapses", name);
    }
    if (threw)
    {
        sim::probe("additions failed");
        return;
    }
    if (b.kind == INDEX || ((made || ids) && (b.kind <= ONE || b.kind >= CLONE)))
    {
        // The generator of parameters was asked once for each.
        Pairs want;
        if (b.kind == INDEX) for (size_t i = 0; i < b.pre; ++i) for (size_t j = 0; j < b.post; ++j) want[{i, j}] = 1;
        else if (b.kind == CLONE) for (size_t i = 0; i < n; ++i) want[{i, i}] = 1;
        else if (b.kind == CONNECT_GENERATOR) for (size_t i = 0; i < n; ++i) want[{i, 0}] = 1;
        else want = have;
        if (asked != want) violation("generator calls", "%s does not ask the generator once for each synapse", name);
    }
    // Look-ups find what was built.
    for (size_t i = 0; i < std::min<size_t>(b.pre, 3); ++i)
    {
        size_t k = (i * 5 + b.salt) % b.pre, expect = 0;
        for (auto &s : *proj) expect += std::get<1>(s) == k;
        if (proj->find_synapses(k, P::Search::by_presynaptic).size() != expect) violation("not found", "%s: look-up of the synapses of a neuron does not find all", name);
    }
    ++result.built;
}

// Parameters that tell a neuron from others, in every field.
void mark(nt::neuron_parameters<nt::BLIFATNeuron> &n, size_t i)
{
    Rng r(i * 977 + 5);
    n = blifat(r, false, false, false);
    n.potential_ = static_cast<double>(i % 97 + 1);
}
void mark(nt::neuron_parameters<nt::AltAILIF> &n, size_t i)
{
    n.potential_ = static_cast<float>(i % 97 + 1), n.is_diff_ = i & 1, n.is_reset_ = i & 2, n.leak_rev_ = i & 4, n.saturate_ = i & 8, n.do_not_save_ = i & 16;
    n.activation_threshold_ = static_cast<uint16_t>(i % 89 + 3), n.negative_activation_threshold_ = static_cast<uint16_t>(i % 50 + 1);
    n.potential_leak_ = static_cast<int16_t>(i % 7) - 3, n.potential_reset_value_ = static_cast<uint16_t>(i % 11);
}
template <class B>
void mark(nt::neuron_parameters<nt::SynapticResourceSTDPNeuron<B>> &n, size_t i)
{
    Rng r(i * 31 + 7);
    mark(static_cast<nt::neuron_parameters<B> &>(n), i);
    stdp_neuron(n, r, false, 0);
}
template <class N> bool equal(const N &a, const N &b)
{
    Bits x, y;
    dump_fields(x, a), dump_fields(y, b);
    return x == y;
}
template <class N> bool marked(const N &n, size_t i) { N m; mark(m, i); return equal(n, m); }
template <class Neuron>
void populate(size_t kind, size_t n, size_t salt, double palloc, Result &result)
{
    using P = kc::Population<Neuron>;
    using Params = typename P::NeuronParameters;
    std::vector<Params> v;
    std::deque<Params> d;
    Params source;
    {
        Quiet q;
        mark(source, salt);
        v.resize(n);
        for (size_t i = 0; i < n; ++i) mark(v[i], i * 13 + salt);
        d.assign(v.begin(), v.end());
    }
    std::optional<P> pop;
    try
    {
        sim::AllocFaults a(palloc);
        if (kind == 0) pop.emplace(nc::make_default<Neuron>(n));
        else if (kind == 1) pop.emplace(nc::make_clone<Neuron>(n, source));
        else if (kind == 2) pop.emplace(nc::from_container<Neuron>(v));
        else pop.emplace(nc::from_container<Neuron>(d));
    }
    catch (const std::bad_alloc &)
    {
        if (palloc == 0) violation("failure", "out of memory although there is enough");
        ++result.failures;
        return;
    }
    Quiet q;
    if (pop->size() != n) violation("wrong number", "a population of %zu neurons was asked for, it has %zu", n, pop->size());
    const Params plain;
    for (size_t i = 0; i < n; ++i)
    {
        const Params &p = (*pop)[i];
        bool right = kind == 0 ? equal(p, plain) : kind == 1 ? marked(p, salt) : marked(p, i * 13 + salt);
        if (!right) violation("wrong parameters", "neuron %zu of %zu has other parameters than asked for", i, n);
    }
    if (!marked(source, salt)) violation("source changed", "the cloned neuron changed");
    ++result.built;
}

void gen30(Rng &r, Case &c)
{
    c.p["alloc"] = r.chance(0.3) ? r.range(2, 80) : 0;
    for (long n = r.range(1, 8); n > 0; --n)
    {
        const bool large = r.chance(0.03);
        auto size = [&] { return r.chance(0.02) ? 0 : r.chance(0.15) ? 1 : large ? r.range(30, 200) : r.chance(0.2) ? r.range(8, 40) : r.range(1, 8); };
        const long a = size(), b = r.chance(0.25) ? a * r.range(1, large ? 2 : 5) : size();
        if (r.chance(0.01))   // more neurons than a byte counts
        {
            const long kind = r.range(ALL, ONE), p = r.range(256, 300), q = kind == ALIGNED ? r.range(256, 300) : r.range(1, 3);
            const bool flip = kind == ALL && r.chance(0.5);
            c.op("build", {kind, flip ? q : p, flip ? p : q, 0, r.range(0, 3), r.range(0, 200), 0, r.range(0, 2)});
        }
        else if (r.chance(0.85)) c.op("build", {static_cast<long>(r.below(KINDS)), a, b, r.chance(0.2) ? r.range(1, std::max(a * b, 1L)) : 0, r.range(0, 3), r.range(0, 200), r.range(0, 1), r.range(0, 2)});
        else c.op("populate", {r.range(0, 3), r.chance(0.1) ? 0 : a, r.range(0, 90), r.range(0, 2)});
    }
}
void run30(const Case &c)
{
    const double palloc = static_cast<double>(c.P("alloc", 0, 0, 300)) / 1000.0;
    Result result;
    for (auto &op : c.ops)
    {
        if (op.k == "build")
        {
            Plan b{op.idx(0, KINDS), op.idx(1, 301), op.idx(2, 500), op.idx(3, 50000), op.idx(4, 4), op.idx(5, 1000), op.A(6) != 0};
            const bool chosen = b.kind == CONTAINER || b.kind == MAP || b.kind == CLONE || b.kind == CONNECT_GENERATOR;
            if (!b.pre && chosen) b.pre = 1;
            if (!b.post && chosen) b.post = 1;
            switch (op.idx(7, 3))
            {
                case 0: build<st::DeltaSynapse, st::AdditiveSTDPDeltaSynapse>(b, palloc, result); break;
                case 1: build<st::SynapticResourceSTDPDeltaSynapse, st::DeltaSynapse>(b, palloc, result); break;
                default: build<st::AdditiveSTDPDeltaSynapse, st::SynapticResourceSTDPDeltaSynapse>(b, palloc, result);
            }
        }
        else if (op.k == "populate")
        {
            const size_t kind = op.idx(0, 4), n = op.idx(1, 1000), salt = op.idx(2, 1000);
            switch (op.idx(3, 3))
            {
                case 0: populate<nt::BLIFATNeuron>(kind, n, salt, palloc, result); break;
                case 1: populate<nt::SynapticResourceSTDPBLIFATNeuron>(kind, n, salt, palloc, result); break;
                default: populate<nt::AltAILIF>(kind, n, salt, palloc, result);
            }
        }
    }
    if (result.built) sim::nontrivial();
    if (result.built && result.failures) sim::probe("runs with faults and builds");
}
sim::Register r30({"C30", "builders", 1, gen30, run30,
                   "Random sequences of building projections (all-to-all, aligned, exclusive, one-to-one, from a container or map, by an index rule, by cloning, between populations; new or added to an "
                   "existing one) and populations, with synapse generators that fail at a chosen call and failing allocations. Non-trivial when something was built.",
                   "connection and population builders and generators, projections, populations", "allocator failures, synapse generators (harness)", 0, 0});
}  // namespace
