// C24 projections, C25 identifiers, C26 populations: histories of edits and look-ups with failures part-way.
#include <knp/core/population.h>
#include <knp/core/projection.h>

#include <algorithm>
#include <atomic>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <thread>

#include "common.h"

using namespace common;
using sim::Case;
using sim::Op;
using sim::Quiet;
using sim::Rng;
using sim::violation;

namespace
{
struct Broken : std::exception
{
};
// Callbacks throw what they like: not every exception is a std::exception.
struct NotStandard
{
};
[[noreturn]] void throw_broken(size_t kind)
{
    if (kind & 1) throw NotStandard();
    throw Broken();
}
// An edit that failed part-way: how far it got is not specified. Every element to be kept is there, nothing else than
// elements that were there, in their order.
template <class T>
void plausible_removal(const std::vector<T> &before, const std::vector<T> &keep, const std::vector<T> &now)
{
    for (auto &s : keep)
        if (std::find(now.begin(), now.end(), s) == now.end()) violation("wrong contents", "a failed removal lost an element that was not to be removed");
    for (auto &s : now)
        if (std::find(before.begin(), before.end(), s) == before.end()) violation("wrong contents", "a failed removal changed an element");
}
// A failed addition: the elements of before, then the first few of those made.
template <class T>
void plausible_addition(const std::vector<T> &before, std::vector<T> &made, size_t size)
{
    if (size >= before.size() && size < before.size() + made.size()) made.resize(size - before.size());
}
// ---- C24 ----------------------------------------------------------------------------------------------------------
constexpr size_t MANY = 512;   // the largest count in one edit
struct Syn
{
    unsigned id;
    size_t src, dst;
    bool operator==(const Syn &o) const { return id == o.id && src == o.src && dst == o.dst; }
};
void gen24(Rng &r, Case &c)
{
    c.p["type"] = r.range(0, 1);
    c.p["alloc"] = r.chance(0.3);
    c.p["ctor"] = r.range(0, 8);
    // A few cases are large: many neurons, many synapses.
    bool wide = r.chance(0.04);
    c.p["neurons"] = wide ? (r.chance(0.5) ? r.range(6, 40) : r.range(40, 1200)) : 6;
    long nn = c.p["neurons"];
    long n = r.range(2, wide ? 15 : 30);
    double look = r.unit();
    for (long i = 0; i < n; ++i)
    {
        if (r.chance(look)) { c.op("find", {r.range(0, nn), r.range(0, 1)}); continue; }
        long nested = r.chance(0.2) ? r.range(1, 6) : 0, bomb = r.chance(0.15) ? r.range(1, 6) : 0;
        switch (r.below(9))
        {
            case 0: case 1: case 2: c.op("add", {wide && r.chance(0.6) ? r.range(10, MANY - 1) : r.range(0, 9), static_cast<long>(r.below(1 << 16)), bomb, nested}); break;
            case 3: c.op("rm", {static_cast<long>(r.below(wide ? 4096 : 64))}); break;
            case 4: c.op("if", {r.range(2, 5), r.range(0, 4), bomb, nested}); break;
            case 5: c.op("post", {r.range(0, nn)}); break;
            case 6: c.op("pre", {r.range(0, nn)}); break;
            case 7: c.op(r.chance(0.3) ? "clear" : "post", {r.range(0, nn)}); break;
            default: c.op("copy", {r.range(0, 3)}); break;
        }
    }
}
template <class S>
struct Proj24
{
    using P = kc::Projection<S>;
    using Synapse = typename P::Synapse;
    std::unique_ptr<P> p;
    std::vector<Syn> model;
    unsigned next = 1;
    size_t found = 0, nested_lookups = 0, failures = 0, NEURONS = 6;

    static Synapse make(const Syn &s)
    {
        typename P::SynapseParameters q;
        q.delay_ = s.id;
        return Synapse{q, s.src, s.dst};
    }
    static Syn read(const Synapse &x) { return {std::get<kc::synapse_data>(x).delay_, std::get<kc::source_neuron_id>(x), std::get<kc::target_neuron_id>(x)}; }
    std::vector<Syn> contents()
    {
        std::vector<Syn> v;
        for (const auto &x : *p) v.push_back(read(x));
        return v;
    }
    // Look-ups agree with the given synapses.
    void lookup(const std::vector<Syn> &now, size_t neuron, bool post, const char *when)
    {
        auto got = static_cast<const P &>(*p).find_synapses(neuron, post ? P::Search::by_postsynaptic : P::Search::by_presynaptic);
        Quiet q;
        std::sort(got.begin(), got.end());
        std::vector<size_t> want;
        for (size_t i = 0; i < now.size(); ++i)
            if ((post ? now[i].dst : now[i].src) == neuron) want.push_back(i);
        if (got != want)
            violation("wrong lookup", "looking up the synapses %s neuron %zu %s gives %zu of %zu synapse(s)%s", post ? "to" : "from", neuron, when, got.size(), want.size(),
                      got.size() == want.size() ? ", not the right ones" : "");
        found += got.size();
        sim::obs(got.size());
    }
    void check(const char *when)
    {
        auto now = contents();
        Quiet q;
        if (p->size() != now.size()) violation("wrong size", "after %s the size is %zu, iteration yields %zu", when, p->size(), now.size());
        if (!(now == model)) violation("wrong contents", "after %s the projection holds %zu synapse(s), expected %zu%s", when, now.size(), model.size(), now.size() == model.size() ? ", or others" : "");
        for (size_t i = 0; i < now.size(); ++i)
            if (!(read((*p)[i]) == now[i])) violation("wrong contents", "after %s synapse %zu differs from what iteration yields", when, i);
        sim::obs(now.size());
    }
    // The generator of an addition: every pair is a function of the seed, some calls make nothing, one may fail.
    size_t asked = 0;
    char seen[MANY] = {};
    typename P::SynapseGenerator generator(uint64_t seed, size_t bomb, size_t nested, std::vector<Syn> &made)
    {
        return [this, seed, bomb, nested, &made](size_t i) -> std::optional<Synapse>
        {
            Syn s{next++, 0, 0};
            {
                Quiet q;
                ++asked;
                if (i >= MANY || seen[i]++) violation("wrong index", "a generator is asked for number %zu %s", i, i >= MANY ? "" : "twice");
                Rng r(seed * 31 + i);
                s.src = r.below(NEURONS), s.dst = r.below(NEURONS);
                if (bomb && i + 1 == bomb) throw_broken(bomb);
                if (r.chance(0.2)) return std::nullopt;
            }
            if (nested && i % nested == 0 && nested_lookups < 60 && p)
            {
                sim::NoAllocFaults na;
                // Which of the synapses made so far are there already is not specified; the look-up agrees with what is there.
                lookup(contents(), s.dst, i & 1, "from a generator");
                ++nested_lookups;
            }
            Quiet q;
            made.push_back(s);
            return make(s);
        };
    }
    // An operation that may fail; returns whether it did.
    template <class F>
    bool failing(bool alloc, F f)
    {
        try
        {
            sim::AllocFaults af(alloc ? 0.08 : 0);
            f();
            return false;
        }
        catch (const std::bad_alloc &) { sim::probe("operations failed for lack of memory"); }
        catch (const Broken &) { sim::probe("operations failed in a callback"); }
        catch (const NotStandard &) { sim::probe("operations failed in a callback"); }
        ++failures;
        return true;
    }
    void run(const Case &c)
    {
        bool alloc = c.P("alloc", 0, 0, 1);
        NEURONS = static_cast<size_t>(c.P("neurons", 6, 1, 2000));
        std::vector<Syn> made;
        made.reserve(MANY);
        size_t n0 = static_cast<size_t>(c.P("ctor", 0, 0, 12));
        if (n0) p = std::make_unique<P>(uid(2, 1), uid(1, 1), uid(1, 2), generator(77, 0, 0, made), n0);
        else p = std::make_unique<P>(uid(2, 1), uid(1, 1), uid(1, 2));
        { Quiet q; model = made; }
        check("construction");
        size_t ops = 0;
        for (auto &op : c.ops)
        {
            if (++ops > 60) break;
            if (op.k == "find")
            {
                bool bad = failing(alloc, [&] { lookup(model, op.idx(0, NEURONS + 1), op.A(1) & 1, "between edits"); });
                (void)bad;
            }
            else if (op.k == "add")
            {
                size_t count = op.idx(0, MANY), told = 0;
                { Quiet q; made.clear(), asked = 0, std::fill(seen, seen + MANY, 0); }
                bool bad = failing(alloc, [&] { told = p->add_synapses(generator(static_cast<uint64_t>(op.A(1)), op.idx(2, 10), op.idx(3, 10), made), count); });
                Quiet q;
                if (bad) plausible_addition(model, made, p->size());
                else if (asked != count || (count && !seen[count - 1])) violation("wrong index", "a generator of %zu synapse(s) is asked %zu time(s)", count, asked);
                else if (told != made.size()) violation("wrong count", "adding %zu synapse(s) reports %zu", made.size(), told);
                model.insert(model.end(), made.begin(), made.end());
            }
            else if (op.k == "rm")
            {
                if (model.empty()) continue;
                size_t i = op.idx(0, model.size());
                p->remove_synapse(i);
                Quiet q;
                model.erase(model.begin() + static_cast<long>(i));
            }
            else if (op.k == "if")
            {
                size_t m = 2 + op.idx(0, 5), k = op.idx(1, 5), bomb = op.idx(2, 10), nested = op.idx(3, 10), calls = 0, told = 0;
                std::vector<Syn> keep;
                { Quiet q; for (auto &s : model) if (s.id % m != k % m) keep.push_back(s); }
                bool bad = failing(alloc, [&] {
                    told = p->remove_synapse_if([&](const Synapse &x)
                    {
                        ++calls;
                        if (bomb && calls == bomb) throw_broken(bomb);
                        if (nested && calls % nested == 0 && nested_lookups < 60)
                        {
                            // Whatever the projection holds in the middle of this, looking it up must not spoil later look-ups.
                            sim::NoAllocFaults na;
                            (void)p->find_synapses(calls % NEURONS, calls & 1 ? P::Search::by_postsynaptic : P::Search::by_presynaptic);
                            ++nested_lookups;
                        }
                        Quiet q;
                        return read(x).id % m == k % m;
                    });
                });
                auto now = contents();
                Quiet q;
                if (bad)
                {
                    plausible_removal(model, keep, now);
                    model = now;
                }
                else
                {
                    if (told != model.size() - keep.size()) violation("wrong count", "removing %zu synapse(s) by condition reports %zu", model.size() - keep.size(), told);
                    model = keep;
                }
            }
            else if (op.k == "post" || op.k == "pre")
            {
                bool post = op.k == "post";
                size_t n = op.idx(0, NEURONS + 1), told = 0;
                bool bad = failing(alloc, [&] { told = post ? p->remove_postsynaptic_neuron_synapses(n) : p->remove_presynaptic_neuron_synapses(n); });
                auto now = contents();
                Quiet q;
                std::vector<Syn> keep;
                for (auto &s : model)
                    if ((post ? s.dst : s.src) != n) keep.push_back(s);
                if (!bad && told != model.size() - keep.size()) violation("wrong count", "removing %zu synapse(s) %s neuron %zu reports %zu", model.size() - keep.size(), post ? "to" : "from", n, told);
                if (bad) plausible_removal(model, keep, now), model = now;
                else model = keep;
            }
            else if (op.k == "clear")
            {
                p->clear();
                Quiet q;
                model.clear();
            }
            else if (op.k == "copy")
            {
                size_t how = op.idx(0, 4);
                failing(alloc, [&]
                {
                    if (how == 0) p = std::make_unique<P>(*p);
                    else if (how == 1) { P other(uid(2, 1), uid(1, 1), uid(1, 2)); other = *p; *p = other; }
                    else if (how == 2)
                    {
                        // A move that fails may leave its source empty: not claimed.
                        sim::NoAllocFaults na;
                        auto other = std::make_unique<P>(std::move(*p));
                        p = std::move(other);
                    }
                    else { P other(*p); other.clear(); (void)other.find_synapses(1, P::Search::by_presynaptic); }
                });
            }
            check(op.k.c_str());
        }
        for (size_t n = 0; n <= NEURONS; ++n) lookup(model, n, false, "at the end"), lookup(model, n, true, "at the end");
        if (ops > 2 && found) sim::nontrivial();
        sim::probe("synapses looked up", found);
        sim::probe("look-ups from inside edits", nested_lookups);
    }
};
void run24(const Case &c)
{
    if (c.P("type", 0, 0, 1)) Proj24<knp::synapse_traits::SynapticResourceSTDPDeltaSynapse>().run(c);
    else Proj24<knp::synapse_traits::DeltaSynapse>().run(c);
}
sim::Register r24({"C24", "projection_edits", 1, gen24, run24,
                   "A case is a history of additions, removals of every kind, copies and look-ups on a projection, with generators and conditions that fail or look synapses up themselves. A run is non-trivial when look-ups found synapses between edits.",
                   "Projection (two synapse types) with its index", "generators, predicates, memory allocator failures", 0, 0});

// ---- C26 ----------------------------------------------------------------------------------------------------------
void gen26(Rng &r, Case &c)
{
    c.p["type"] = r.range(0, 1);
    c.p["alloc"] = r.chance(0.3);
    c.p["ctor"] = r.range(0, 8);
    bool wide = r.chance(0.04);
    long n = r.range(1, 25), far = wide ? 4096 : 64;
    for (long i = 0; i < n; ++i)
        switch (r.below(8))
        {
            case 0: case 1: c.op("add", {wide && r.chance(0.6) ? r.range(10, MANY - 1) : r.range(0, 9), static_cast<long>(r.below(1 << 16)), r.chance(0.2) ? r.range(1, 6) : 0}); break;
            case 2: c.op("rm", {static_cast<long>(r.below(static_cast<uint64_t>(far)))}); break;
            case 3: case 4:
            {
                std::vector<long> v;
                long k = wide && r.chance(0.5) ? r.range(7, 300) : r.range(0, 6);
                for (long j = 0; j < k; ++j) v.push_back(static_cast<long>(r.below(wide ? 4096 : 32)));
                if (r.chance(0.3)) std::sort(v.begin(), v.end());
                if (r.chance(0.6)) { std::set<long> u(v.begin(), v.end()); std::vector<long> w; for (auto x : v) if (u.erase(x)) w.push_back(x); v = w; }
                c.op("rms", v);
                break;
            }
            case 5: c.op("set", {static_cast<long>(r.below(static_cast<uint64_t>(far))), r.range(0, 1)}); break;
            case 6: c.op("all", {wide && r.chance(0.5) ? r.range(10, MANY - 1) : r.range(0, 9), r.range(0, 1)}); break;
            default: c.op("copy", {r.range(0, 2)}); break;
        }
}
template <class N>
struct Pop26
{
    using P = kc::Population<N>;
    using Par = typename P::NeuronParameters;
    std::unique_ptr<P> p;
    std::vector<uint64_t> model;
    uint64_t next = 1;
    size_t edits = 0;
    static Par make(uint64_t id)
    {
        Par q;
        q.n_time_steps_since_last_firing_ = id;
        q.potential_ = static_cast<double>(id);
        return q;
    }
    std::vector<uint64_t> contents()
    {
        std::vector<uint64_t> now;
        for (const auto &x : static_cast<const P &>(*p)) now.push_back(x.n_time_steps_since_last_firing_);
        return now;
    }
    void check(const char *when)
    {
        std::vector<uint64_t> now;
        bool whole = true;
        for (const auto &x : static_cast<const P &>(*p)) now.push_back(x.n_time_steps_since_last_firing_), whole &= static_cast<uint64_t>(x.potential_) == now.back();
        Quiet q;
        if (!whole) violation("wrong contents", "after %s a neuron has parameters of two neurons", when);
        if (p->size() != now.size() || p->get_neurons_parameters().size() != now.size()) violation("wrong size", "after %s the size is %zu, iteration yields %zu", when, p->size(), now.size());
        if (now != model) violation("wrong contents", "after %s the population holds %zu neuron(s), expected %zu%s", when, now.size(), model.size(), now.size() == model.size() ? ", or others" : "");
        for (size_t i = 0; i < now.size(); ++i)
            if ((*p)[i].n_time_steps_since_last_firing_ != now[i] || p->get_neuron_parameters(i).n_time_steps_since_last_firing_ != now[i])
                violation("wrong contents", "after %s neuron %zu differs from what iteration yields", when, i);
        sim::obs(now.size());
        for (auto x : now) sim::obs(x);
    }
    size_t asked = 0;
    char seen[MANY] = {};
    typename P::NeuronGenerator generator(uint64_t seed, size_t bomb, std::vector<uint64_t> &made)
    {
        return [this, seed, bomb, &made](size_t i) -> std::optional<Par>
        {
            Quiet q;
            ++asked;
            if (i >= MANY || seen[i]++) violation("wrong index", "a generator is asked for number %zu %s", i, i >= MANY ? "" : "twice");
            Rng r(seed * 131 + i);
            if (bomb && i + 1 == bomb) throw_broken(bomb);
            if (r.chance(0.2)) return std::nullopt;
            made.push_back(next++);
            return make(made.back());
        };
    }
    template <class F>
    bool failing(bool alloc, F f)
    {
        try
        {
            sim::AllocFaults af(alloc ? 0.15 : 0);
            f();
            return false;
        }
        catch (const std::bad_alloc &) { sim::probe("operations failed for lack of memory"); }
        catch (const Broken &) { sim::probe("operations failed in a callback"); }
        catch (const NotStandard &) { sim::probe("operations failed in a callback"); }
        return true;
    }
    void run(const Case &c)
    {
        bool alloc = c.P("alloc", 0, 0, 1);
        std::vector<uint64_t> made;
        made.reserve(MANY);
        p = std::make_unique<P>(uid(1, 1), generator(5, 0, made), static_cast<size_t>(c.P("ctor", 0, 0, 12)));
        { Quiet q; model = made; }
        check("construction");
        size_t ops = 0;
        for (auto &op : c.ops)
        {
            if (++ops > 60) break;
            if (op.k == "add")
            {
                { Quiet q; made.clear(), asked = 0, std::fill(seen, seen + MANY, 0); }
                size_t count = op.idx(0, MANY);
                bool bad = failing(alloc, [&] { p->add_neurons(generator(static_cast<uint64_t>(op.A(1)), op.idx(2, 10), made), count); });
                Quiet q;
                if (!bad && (asked != count || (count && !seen[count - 1]))) violation("wrong index", "a generator of %zu neuron(s) is asked %zu time(s)", count, asked);
                if (bad) plausible_addition(model, made, p->size());
                model.insert(model.end(), made.begin(), made.end());
                edits += made.size();
            }
            else if (op.k == "rm")
            {
                if (model.empty()) continue;
                size_t i = op.idx(0, model.size());
                p->remove_neuron(i);
                Quiet q;
                model.erase(model.begin() + static_cast<long>(i));
                ++edits;
            }
            else if (op.k == "rms")
            {
                std::vector<size_t> which;
                if (model.size())
                    for (size_t i = 0; i < op.a.size() && i < MANY; ++i) which.push_back(op.idx(i, model.size()));
                auto given = which;
                bool bad = failing(alloc, [&] { p->remove_neurons(which); });
                auto now = contents();
                Quiet q;
                if (which != given) violation("argument changed", "the caller's list of neurons to remove was changed");
                std::set<size_t> drop(which.begin(), which.end());
                std::vector<uint64_t> keep;
                for (size_t i = 0; i < model.size(); ++i)
                    if (!drop.count(i)) keep.push_back(model[i]);
                if (bad) plausible_removal(model, keep, now), model = now;
                else edits += drop.size(), model = keep;
                if (!std::is_sorted(which.begin(), which.end())) sim::probe("removals in another order");
                if (drop.size() < which.size()) sim::probe("removals naming a neuron twice");
            }
            else if (op.k == "set")
            {
                if (model.empty()) continue;
                size_t i = op.idx(0, model.size());
                Quiet q;
                model[i] = next++;
                if (op.A(1) & 1) (*p)[i] = make(model[i]);
                else p->set_neuron_parameters(i, make(model[i]));
                ++edits;
            }
            else if (op.k == "all")
            {
                std::vector<Par> v;
                std::vector<uint64_t> ids;
                {
                    Quiet q;
                    for (size_t i = 0; i < op.idx(0, MANY); ++i) ids.push_back(next++), v.push_back(make(ids.back()));
                }
                bool bad = failing(alloc, [&] { if (op.A(1) & 1) p->set_neurons_parameters(std::move(v)); else p->set_neurons_parameters(v); });
                auto now = contents();
                Quiet q;
                // A replacement that failed: nothing is said about what is there, except that the population stays consistent.
                model = bad ? now : ids;
                ++edits;
            }
            else if (op.k == "copy")
                failing(alloc, [&]
                {
                    if (op.idx(0, 3) == 0) p = std::make_unique<P>(*p);
                    else if (op.idx(0, 3) == 1)
                    {
                        sim::NoAllocFaults na;
                        auto other = std::make_unique<P>(std::move(*p));
                        p = std::move(other);
                    }
                    else { P other(*p); if (other.size()) other.remove_neuron(0); }
                });
            check(op.k.c_str());
        }
        if (edits > 2) sim::nontrivial();
        sim::probe("neurons added, removed and set", edits);
    }
};
void run26(const Case &c)
{
    if (c.P("type", 0, 0, 1)) Pop26<knp::neuron_traits::SynapticResourceSTDPBLIFATNeuron>().run(c);
    else Pop26<knp::neuron_traits::BLIFATNeuron>().run(c);
}
sim::Register r26({"C26", "population_edits", 1, gen26, run26,
                   "A case is a history of additions, removals, replacements and copies of neurons in a population, with generators and allocations that fail. A run is non-trivial when more than two neurons were edited.",
                   "Population (two neuron types)", "generators, memory allocator failures", 0, 0});

// ---- C25 ----------------------------------------------------------------------------------------------------------
void gen25(Rng &r, Case &c)
{
    bool wide = r.chance(0.02);
    c.p["threads"] = wide ? r.range(6, 24) : r.range(1, 6);
    c.p["entropy"] = static_cast<long>(r.below(1u << 30));
    c.p["fail"] = r.chance(0.5) ? r.range(1, 60) : 0;
    long rounds = r.range(1, 3);
    for (long i = 0; i < rounds; ++i)
        c.op("round", {r.chance(0.4) ? r.range(1, 1 << 20) : r.chance(0.3) ? -r.range(1, 8) : 0, wide ? r.range(12, 400 / c.p["threads"] + 12) : r.range(1, 12)});
}
void run25(const Case &c)
{
    size_t threads = static_cast<size_t>(c.P("threads", 2, 1, 32)), made = 0, refused = 0;
    sim::set_entropy(static_cast<uint64_t>(c.P("entropy", 1, 0, 1L << 40)), static_cast<double>(c.P("fail", 0, 0, 90)) / 100);
    std::set<kc::UID> random_ids;
    std::set<boost::uuids::uuid> counted;
    size_t round = 0;
    for (auto &op : c.ops)
    {
        if (op.k != "round" || ++round > 4) continue;
        size_t per = 1 + op.idx(1, MANY);
        if (op.A(0))
        {
            // A reset with nobody using the generator starts a new period; negative: near the end of the counter's bytes.
            kc::continuously_uid_generator::reset(op.A(0) > 0 ? static_cast<uint64_t>(op.A(0)) : (1ull << (8 * (1 + op.idx(0, 7)))) - 3);
            Quiet q;
            counted.clear();
        }
        std::vector<std::vector<kc::UID>> ids(threads);
        std::vector<std::vector<boost::uuids::uuid>> cnt(threads);
        std::vector<size_t> bad(threads);
        auto work = [&](size_t t)
        {
            for (size_t k = 0; k < per; ++k)
            {
                try
                {
                    kc::UID u{false};
                    switch ((k + t) % 4)
                    {
                        case 0: u = kc::UID(); break;
                        case 1: u = kc::UID(true); break;
                        case 2: u = kc::BaseData{}.uid_; break;
                        default: u = kc::Projection<knp::synapse_traits::DeltaSynapse>(uid(1, 1), uid(1, 2)).get_uid(); break;
                    }
                    Quiet q;
                    ids[t].push_back(u);
                }
                catch (const std::exception &)
                {
                    Quiet q;
                    ++bad[t];
                }
                auto x = kc::continuously_uid_generator()();
                Quiet q;
                cnt[t].push_back(x);
            }
        };
        std::vector<std::thread> v;
        for (size_t t = 1; t < threads; ++t) v.emplace_back(work, t);
        work(0);
        for (auto &t : v) t.join();
        Quiet q;
        for (size_t t = 0; t < threads; ++t)
        {
            for (auto &u : ids[t])
            {
                if (!u || u == kc::UID{false}) violation("empty identifier", "thread %zu got an empty identifier", t);
                if (!random_ids.insert(u).second) violation("identifier repeated", "identifier %s was handed out twice", std::string(u).c_str());
                std::stringstream ss;
                kc::UID back{false};
                ss << u;
                ss >> back;
                if (!(back == u) || back != u || std::string(back) != std::string(u) || kc::uid_hash()(back) != kc::uid_hash()(u)) violation("text form", "identifier %s does not survive being written and read", std::string(u).c_str());
                ++made;
                sim::obs_bytes(u.tag.data, 16);
            }
            for (auto &x : cnt[t])
            {
                if (x.is_nil()) violation("empty identifier", "the counting generator gave an empty identifier");
                if (!counted.insert(x).second) violation("identifier repeated", "the counting generator gave an identifier twice between resets");
            }
            for (size_t k = 1; k < cnt[t].size(); ++k)
                if (cnt[t][k] == cnt[t][k - 1]) violation("identifier repeated", "the counting generator repeated itself on one thread");
            refused += bad[t];
        }
        // A refusal needs a failing source.
        if (refused && !c.P("fail", 0, 0, 90)) violation("refused", "an identifier was refused although the source of entropy never failed");
    }
    Quiet q;
    for (auto &a : random_ids)
        for (auto &b : random_ids)
            if (!(a == b) && !((a < b) != (b < a))) violation("order", "two different identifiers are not ordered");
    if (made > 1) sim::nontrivial();
    sim::probe("identifiers made", made);
    sim::probe("identifiers refused for lack of entropy", refused);
    if (sim::entropy_calls()) sim::probe("reads of the entropy source", sim::entropy_calls());
}
sim::Register r25({"C25", "identifiers", 1, gen25, run25,
                   "A case is a number of threads creating identifiers in rounds, a seeded source of entropy that answers in portions, is interrupted or fails, and resets of the counting generator between rounds. A run is non-trivial when at least two identifiers were made.",
                   "UID, its random and counting generators, BaseData, Projection", "thread scheduling, getrandom/getentropy", 0, 0});
}  // namespace
