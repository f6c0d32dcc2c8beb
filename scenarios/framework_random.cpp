// C40 projections and populations built at random keep their builder's promises, whatever is drawn.
#include <knp/framework/population/creators.h>
#include <knp/framework/projection/creators.h>

#include <cmath>

#include "framework_rig.h"

using namespace rig;
namespace pc = kf::projection::creators;
namespace pg = kf::projection::synapse_generators;

namespace
{
using DProj = kc::Projection<st::DeltaSynapse>;
using RProj = kc::Projection<st::SynapticResourceSTDPDeltaSynapse>;
enum Builder { PROBABILITY, POST, PRE, BUILDERS };
const char *const NAMES[BUILDERS] = {"fixed_probability", "fixed_number_post", "fixed_number_pre"};
using Pairs = std::map<std::pair<size_t, size_t>, size_t>;

void gen40(Rng &r, Case &c)
{
    c.p["entropy"] = static_cast<long>(r.below(1 << 30));
    c.p["efail"] = r.chance(0.3) ? r.range(5, 40) : 0;
    c.p["alloc"] = r.chance(0.3) ? r.range(2, 60) : 0;
    if (r.chance(0.15))     // many times the same: every pair of neurons has the promised frequency
        c.op("often", {static_cast<long>(r.below(BUILDERS)), r.range(1, 5), r.range(1, 5), r.range(1, 3), r.range(50, 950), r.range(150, 400)});
    long n = r.range(1, 6);
    for (long i = 0; i < n; ++i)
    {
        bool small = r.chance(0.7);
        auto size = [&] { return r.chance(0.15) ? 1 : small ? r.range(1, 8) : r.range(8, 40); };
        long a = size(), b = size();
        double u = r.unit();
        if (u < 0.85)
        {
            long p = r.chance(0.15) ? 0 : r.chance(0.15) ? 1000 : r.chance(0.1) ? r.range(-500, 1500) : r.range(1, 999);
            c.op("build", {static_cast<long>(r.below(BUILDERS)), a, b, r.chance(0.1) ? 0 : r.range(1, small ? 6 : 30), p, r.range(0, 1), r.chance(0.15) ? r.range(1, a * b) : 0, r.chance(0.3)});
        }
        else c.op("random", {r.chance(0.1) ? 0 : r.range(1, 40), r.range(0, 1)});
    }
}
double tail(size_t n) { return std::sqrt(static_cast<double>(n) * 14.2); }     // Hoeffding: beyond it with probability below 1e-12

struct Build
{
    size_t kind, pre, post, count;
    double prob;
    size_t bomb;
    bool append;
};
template <class Syn>
void build(const Build &b, double palloc, double pe, size_t &built, size_t &failures)
{
    using P = kc::Projection<Syn>;
    using Params = typename P::SynapseParameters;
    Pairs asked;
    size_t calls = 0;
    auto weight_of = [](size_t i, size_t j) { return static_cast<float>(i * 64 + j + 1); };
    auto generator = [&](size_t i, size_t j)
    {
        { Quiet q; ++asked[{i, j}]; if (++calls == b.bomb) throw_injected("generator failed", b.bomb); }
        Params p;
        p.weight_ = weight_of(i, j);
        p.delay_ = static_cast<uint32_t>(1 + i);
        return p;
    };
    const size_t all = b.pre * b.post, tries = b.kind == PROBABILITY ? all : (b.kind == POST ? b.pre : b.post) * b.count;
    kc::UID from = uid(30, 1), to = uid(30, 2);
    std::optional<P> first;
    bool threw = false, refused = false;
    const size_t before = b.append ? 3 : 0;
    if (b.append)
    {
        sim::NoAllocFaults na;
        first.emplace(uid(31, 1), from, to, [](size_t i) { Params p; p.weight_ = -1 - static_cast<float>(i); return std::make_tuple(p, i, i); }, before);
    }
    try
    {
        sim::AllocFaults a(palloc);
        if (b.append)
        {
            if (b.kind == PROBABILITY) first->add_synapses(pg::FixedProbability<Syn>(b.pre, b.post, b.prob, generator), tries);
            else if (b.kind == POST) first->add_synapses(pg::FixedNumberPost<Syn>(b.pre, b.post, generator), tries);
            else first->add_synapses(pg::FixedNumberPre<Syn>(b.pre, b.post, generator), tries);
        }
        else if (b.kind == PROBABILITY) first.emplace(pc::fixed_probability<Syn>(from, to, b.pre, b.post, b.prob, generator));
        else if (b.kind == POST) first.emplace(pc::fixed_number_post<Syn>(from, to, b.pre, b.post, b.count, generator));
        else first.emplace(pc::fixed_number_pre<Syn>(from, to, b.pre, b.post, b.count, generator));
    }
    catch (const std::bad_alloc &) { if (palloc == 0) violation("failure", "%s is out of memory although there is enough", NAMES[b.kind]); threw = true; }
    catch (const Injected &) { threw = true; }
    catch (const Foreign &) { threw = true; }
    catch (const char *) { threw = true; }
    catch (const std::logic_error &) { refused = true; }
    catch (const std::runtime_error &) { if (pe == 0) violation("failure", "%s lacks entropy although there is some", NAMES[b.kind]); threw = true; }
    Quiet q;
    const bool wrong = b.kind == PROBABILITY && (b.prob < 0 || b.prob > 1);
    if (refused && !wrong) violation("refused", "%s is refused", NAMES[b.kind]);
    if (wrong && !refused && !threw) violation("not refused", "a connection probability of %g is accepted", b.prob);
    if (threw || refused)
    {
        failures += threw;
        sim::probe(threw ? "builders failed by a fault" : "builders refused");
        return;
    }
    if (b.bomb && calls >= b.bomb) violation("failure swallowed", "the synapse generator failed, %s succeeded", NAMES[b.kind]);
    const P &proj = *first;
    if (!(proj.get_presynaptic() == from) || !(proj.get_postsynaptic() == to)) violation("wrong populations", "%s connects other populations", NAMES[b.kind]);
    Pairs have;
    size_t n = 0, kept = 0;
    for (auto &s : proj)
    {
        const Params &p = std::get<0>(s);
        size_t i = std::get<1>(s), j = std::get<2>(s);
        if (p.weight_ < 0) { ++kept; continue; }
        ++n;
        if (i >= b.pre || j >= b.post) violation("no such neuron", "%s connects neuron %zu of %zu with %zu of %zu", NAMES[b.kind], i, b.pre, j, b.post);
        if (p.weight_ != weight_of(i, j) || p.delay_ != 1 + i) violation("wrong parameters", "%s gives a synapse the parameters of another pair", NAMES[b.kind]);
        ++have[{i, j}];
        sim::obs(i * 64 + j);
    }
    if (kept != before) violation("synapses lost", "%s left %zu of %zu earlier synapses", NAMES[b.kind], kept, before);
    if (have != asked) violation("generator calls", "%s did not ask the synapse generator once for each synapse", NAMES[b.kind]);
    if (b.kind == PROBABILITY)
    {
        for (auto &x : have)
            if (x.second > 1) violation("connected twice", "fixed_probability connects a pair of neurons %zu times", x.second);
        if (b.prob == 0 && n) violation("wrong probability", "%zu synapses with a connection probability of 0", n);
        if (b.prob == 1 && n != all) violation("wrong probability", "%zu of %zu synapses with a connection probability of 1", n, all);
        if (std::fabs(static_cast<double>(n) - b.prob * static_cast<double>(all)) > tail(all)) violation("wrong probability", "%zu of %zu pairs are connected with a probability of %g", n, all, b.prob);
    }
    else
    {
        std::vector<size_t> own(b.kind == POST ? b.pre : b.post), other(b.kind == POST ? b.post : b.pre);
        for (auto &x : have)
        {
            own[b.kind == POST ? x.first.first : x.first.second] += x.second;
            other[b.kind == POST ? x.first.second : x.first.first] += x.second;
        }
        for (size_t x : own)
            if (x != b.count) violation("wrong number", "%s: a neuron has %zu synapses instead of %zu", NAMES[b.kind], x, b.count);
        for (size_t x : other)
        {
            double mean = static_cast<double>(n) / static_cast<double>(other.size());
            if (std::fabs(static_cast<double>(x) - mean) > tail(n)) violation("not uniform", "%s: %zu of %zu synapses are of one neuron of %zu", NAMES[b.kind], x, n, other.size());
            if (!x && mean > 60) violation("not uniform", "%s never takes one of the %zu neurons in %zu choices", NAMES[b.kind], other.size(), n);
        }
    }
    ++built;

    const bool rich = b.kind == PROBABILITY ? all >= 100 && b.prob > 0.4 && b.prob < 0.6 : (b.kind == POST ? b.post : b.pre) > 1 && n >= 100;
    if (!rich) return;
    // Built once more, as long as there is entropy: at least 2^50 other outcomes are as probable.
    try
    {
        auto plain = [&](size_t, size_t) { return Params(); };
        P again = b.kind == PROBABILITY ? pc::fixed_probability<Syn>(from, to, b.pre, b.post, b.prob, plain)
                  : b.kind == POST      ? pc::fixed_number_post<Syn>(from, to, b.pre, b.post, b.count, plain)
                                        : pc::fixed_number_pre<Syn>(from, to, b.pre, b.post, b.count, plain);
        Pairs other;
        for (auto &s : again) ++other[{std::get<1>(s), std::get<2>(s)}];
        if (other == have) violation("not random", "%s draws the same %zu synapses again", NAMES[b.kind], n);
        sim::probe("built twice");
    }
    catch (const std::runtime_error &) { sim::probe("builders failed by a fault"); }
}
void often(size_t kind, size_t pre, size_t post, size_t count, double prob, size_t times)
{
    using Params = DProj::SynapseParameters;
    Pairs seen;
    auto generator = [](size_t, size_t) { return Params(); };
    for (size_t k = 0; k < times; ++k)
    {
        const kc::UID from = uid(30, 1), to = uid(30, 2);
        DProj p = kind == PROBABILITY ? pc::fixed_probability<st::DeltaSynapse>(from, to, pre, post, prob, generator)
                  : kind == POST      ? pc::fixed_number_post<st::DeltaSynapse>(from, to, pre, post, count, generator)
                                      : pc::fixed_number_pre<st::DeltaSynapse>(from, to, pre, post, count, generator);
        for (auto &s : p) ++seen[{std::get<1>(s), std::get<2>(s)}];
    }
    const size_t draws = kind == PROBABILITY ? times : times * count;
    const double mean = kind == PROBABILITY ? prob : 1.0 / static_cast<double>(kind == POST ? post : pre);
    for (size_t i = 0; i < pre; ++i)
        for (size_t j = 0; j < post; ++j)
        {
            auto x = static_cast<double>(seen[{i, j}]), m = mean * static_cast<double>(draws);
            // Beyond either bound (Hoeffding's, and the chance of never being drawn) with probability below 1e-12.
            if (std::fabs(x - m) > tail(draws) || (x == 0 && static_cast<double>(draws) * std::log1p(-mean) < -28))
                violation("wrong frequency", "%s connects neuron %zu of %zu with %zu of %zu %.0f times instead of %.1f", NAMES[kind], i, pre, j, post, x, m);
        }
    sim::probe("built many times");
}
void run40(const Case &c)
{
    double palloc = static_cast<double>(c.P("alloc", 0, 0, 300)) / 1000.0, pe = static_cast<double>(c.P("efail", 0, 0, 90)) / 100.0;
    sim::set_entropy(static_cast<uint64_t>(c.P("entropy", 1, 0, 1L << 40)), pe);
    size_t built = 0, failures = 0;
    for (auto &op : c.ops)
        if (op.k == "build")
        {
            Build b{op.idx(0, BUILDERS), 1 + op.idx(1, 40), 1 + op.idx(2, 40), op.idx(3, 40), static_cast<double>(op.A(4)) / 1000.0, op.idx(6, 2000), op.A(7) != 0};
            if (op.A(5)) build<st::SynapticResourceSTDPDeltaSynapse>(b, palloc, pe, built, failures);
            else build<st::DeltaSynapse>(b, palloc, pe, built, failures);
        }
        else if (op.k == "often")
        {
            try
            {
                often(op.idx(0, BUILDERS), 1 + op.idx(1, 5), 1 + op.idx(2, 5), 1 + op.idx(3, 3), static_cast<double>(1 + op.idx(4, 999)) / 1000.0, 1 + op.idx(5, 500));
                ++built;
            }
            catch (const std::runtime_error &) { if (pe == 0) violation("failure", "no entropy although there is some"); ++failures; }
        }
        else if (op.k == "random")
        {
            size_t n = op.idx(0, 64);
            try
            {
                std::optional<kc::Population<nt::BLIFATNeuron>> a;
                {
                    sim::AllocFaults f(palloc);
                    a.emplace(kf::population::creators::make_random<nt::BLIFATNeuron>(n));
                }
                if (a->size() != n) violation("wrong number", "a random population has %zu of %zu neurons", a->size(), n);
                // Bytes drawn at random: over many neurons none of the parameters stays the same.
                if (n > 8)
                {
                    bool differ = false;
                    for (size_t i = 1; i < n; ++i) differ = differ || std::memcmp(&(*a)[0].potential_, &(*a)[i].potential_, sizeof(*a)[0].potential_);
                    if (!differ) violation("not random", "all neurons of a random population are the same");
                }
                ++built;
            }
            catch (const std::bad_alloc &) { if (palloc == 0) violation("failure", "out of memory although there is enough"); ++failures; }
            catch (const std::runtime_error &) { if (pe == 0) violation("failure", "no entropy although there is some"); ++failures; }
        }
    if (built) sim::nontrivial();
    if (built && failures) sim::probe("runs with faults and builds");
}
sim::Register r40({"C40", "random_builders", 1, gen40, run40,
                   "Random sequences of building projections (connection by probability, fixed numbers of either side; new or added to an existing one) and populations over a seeded random source "
                   "that fails, with failing synapse generators and allocations. Non-trivial when something was built.",
                   "random connection builders and generators, projections, populations", "random source (std::random_device), allocator failures, synapse generators (harness)", 0, 0});
}  // namespace
