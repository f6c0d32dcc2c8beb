// C35 networks and models hold what was added, C37 validation, C38 loading backends from libraries.
#include <dlfcn.h>
#include <link.h>

#include <knp/framework/network_validation/executor.h>
#include <knp/framework/network_validation/validators/connectivity.h>

#include "fakedl.h"
#include "framework_image.h"

using namespace image_of;
using namespace rig;

namespace
{
constexpr size_t SLOTS = 40, CHANNELS = 40;
size_t slots = SLOTS, channels = CHANNELS;     // those a case uses
kc::UID chan_uid(size_t i) { return uid(20, static_cast<unsigned>(i)); }

// ---- C35 ----------------------------------------------------------------------------------------------------------
void gen35(Rng &r, Case &c)
{
    c.p["alloc"] = r.chance(0.5) ? r.range(5, 200) : 0;
    // A few networks are larger and have many channels.
    bool wide = r.chance(0.03);
    long n = r.range(4, wide ? 150 : r.chance(0.7) ? 20 : 60), few = wide && r.chance(0.3) ? 1 : static_cast<long>(CHANNELS) - 1;
    c.p["slots"] = wide ? SLOTS : 6, c.p["channels"] = wide ? CHANNELS : 4;
    auto slot = [&] { return r.range(0, wide ? static_cast<long>(SLOTS) - 1 : 5); };
    for (long i = 0; i < n; ++i)
    {
        double u = r.unit();
        if (u < 0.25) c.op("addpop", {slot(), r.range(0, 2), r.range(0, 5), r.chance(0.1) ? 0 : r.range(1, 6), static_cast<long>(r.below(1 << 16))});
        else if (u < 0.45)
            c.op("addproj", {slot(), r.range(0, 3), r.range(0, 2), r.chance(0.2) ? -1 : slot(), r.chance(0.1) ? -1 : slot(), r.chance(0.1) ? 0 : r.range(1, 9), static_cast<long>(r.below(1 << 16)),
                             r.chance(0.3) ? r.range(0, 9) : -1});
        else if (u < 0.53) c.op("connect", {slot(), slot(), r.range(0, 1), r.range(0, 6), r.chance(0.2) ? r.range(0, 6) : -1});
        else if (u < 0.62) c.op("rmpop", {slot()});
        else if (u < 0.70) c.op("rmproj", {slot()});
        else if (u < 0.78) c.op("edit", {r.range(0, 1), slot(), static_cast<long>(r.below(1000))});
        else if (u < 0.84) c.op("wrong", {r.range(0, 1), slot()});
        else if (u < 0.90) c.op("copy", {static_cast<long>(r.below(2))});
        else for (long k = wide ? 4 : 1; k > 0; --k) c.op("channel", {r.range(0, 1), r.range(0, wide ? few : 3), slot()});
    }
}
struct Book
{
    Image img;
    std::multiset<std::pair<size_t, size_t>> in, out;   // (channel, slot)
    Entity *find(std::vector<Entity> &v, const kc::UID &u)
    {
        for (auto &e : v)
            if (e.uid == u) return &e;
        return nullptr;
    }
};
template <class F>
const char *attempt(double p, F f)
{
    try
    {
        sim::AllocFaults a(p);
        f();
        return nullptr;
    }
    catch (const std::bad_alloc &)
    {
        sim::probe("call failed for lack of memory");
        return "memory";
    }
    catch (const Injected &)
    {
        sim::probe("generator failed");
        return "generator";
    }
    catch (const Foreign &)
    {
        sim::probe("generator failed");
        return "generator";
    }
    catch (const char *)
    {
        sim::probe("generator failed");
        return "generator";
    }
    catch (const std::bad_variant_access &)
    {
        return "type";
    }
    catch (const std::logic_error &)
    {
        return "logic";
    }
}
void check_network(kf::Network &net, Book &b, size_t step)
{
    Quiet q;
    same(image_of::image(net), b.img, "network differs", "the network", "the record of what was added", step);
    const kf::Network &cn = net;
    if (net.populations_count() != b.img.pops.size() || net.projections_count() != b.img.projs.size())
        violation("wrong count", "operation %zu: %zu population(s) and %zu projection(s) counted, %zu and %zu added", step, net.populations_count(), net.projections_count(), b.img.pops.size(),
                  b.img.projs.size());
    if (static_cast<size_t>(net.end_populations() - net.begin_populations()) != b.img.pops.size() || static_cast<size_t>(cn.end_populations() - cn.begin_populations()) != b.img.pops.size() ||
        static_cast<size_t>(net.end_projections() - net.begin_projections()) != b.img.projs.size() || static_cast<size_t>(cn.end_projections() - cn.begin_projections()) != b.img.projs.size())
        violation("wrong range", "operation %zu: iterating gives another number of entities than were added", step);
    for (size_t i = 0; i < slots; ++i)
    {
        bool pop = b.find(b.img.pops, pop_uid(i)), proj = b.find(b.img.projs, proj_uid(i));
        if (cn.is_population_exists(pop_uid(i)) != pop) violation("wrong existence", "operation %zu: population %zu %s reported as existing", step, i, pop ? "is not" : "is");
        if (cn.is_projection_exists(proj_uid(i)) != proj) violation("wrong existence", "operation %zu: projection %zu %s reported as existing", step, i, proj ? "is not" : "is");
        bool got = true;
        try
        {
            kc::UID u = std::visit([](auto &p) { return p.get_uid(); }, net.get_population(pop_uid(i)));
            if (u != pop_uid(i)) violation("wrong entity", "operation %zu: asking for population %zu gives another one", step, i);
        }
        catch (const std::logic_error &)
        {
            got = false;
        }
        if (got != pop) violation("wrong look-up", "operation %zu: looking up population %zu %s", step, i, got ? "finds something that was removed" : "fails");
        got = true;
        try
        {
            kc::UID u = std::visit([](auto &p) { return p.get_uid(); }, net.get_projection(proj_uid(i)));
            if (u != proj_uid(i)) violation("wrong entity", "operation %zu: asking for projection %zu gives another one", step, i);
        }
        catch (const std::logic_error &)
        {
            got = false;
        }
        if (got != proj) violation("wrong look-up", "operation %zu: looking up projection %zu %s", step, i, got ? "finds something that was removed" : "fails");
    }
}
void check_channels(const kf::Model &m, const Book &b, size_t step)
{
    Quiet q;
    auto cmp = [&](const std::unordered_multimap<kc::UID, kc::UID, kc::uid_hash> &real, const std::multiset<std::pair<size_t, size_t>> &want, bool in)
    {
        size_t n = 0;
        for (size_t ch = 0; ch < channels; ++ch)
            for (size_t s = 0; s < slots; ++s)
            {
                size_t k = 0;
                auto range = real.equal_range(chan_uid(ch));
                for (auto it = range.first; it != range.second; ++it) k += it->second == (in ? proj_uid(s) : pop_uid(s));
                n += k;
                if (k != want.count({ch, s}))
                    violation("wrong channels", "operation %zu: %s channel %zu is connected %zu time(s) to entity %zu, %zu expected", step, in ? "input" : "output", ch, k, s, want.count({ch, s}));
            }
        if (n != real.size()) violation("wrong channels", "operation %zu: the model lists channels nobody added", step);
    };
    cmp(m.get_input_channels(), b.in, true);
    cmp(m.get_output_channels(), b.out, false);
}
void run35(const Case &c)
{
    double p = static_cast<double>(c.P("alloc", 0, 0, 300)) / 1000.0;
    kf::Model model{kf::Network(uid(21, 1))};
    kf::Network &net = model.get_network();
    Book b;
    Spec s;
    slots = static_cast<size_t>(c.P("slots", 6, 1, SLOTS)), channels = static_cast<size_t>(c.P("channels", 4, 1, CHANNELS));
    s.pops.assign(SLOTS, PopSpec{BLIFAT, 3, 1});
    s.projs.assign(SLOTS, ProjSpec{-1, 0, DELTA, 1, 1, 1, false, 0});
    size_t step = 0, done = 0;
    auto expect = [&](const char *got, const char *want, const char *what)
    {
        if (got && !std::strcmp(got, "memory")) return false;
        if ((got == nullptr) != (want == nullptr) || (got && want && std::strcmp(got, want)))
            violation("wrong result", "operation %zu (%s): %s, expected %s", step, what, got ? got : "succeeded", want ? want : "success");
        if (!got) ++done;
        return got == nullptr;
    };
    for (auto &op : c.ops)
    {
        ++step;
        size_t k = op.idx(0, slots);
        if (op.k == "addpop")
        {
            auto q = std::make_unique<Quiet>();
            s.pops[k] = {static_cast<int>(op.idx(2, 6)), op.idx(3, 33), static_cast<uint64_t>(op.A(4))};
            kc::AllPopulationsVariant v = make_pop(s, k);
            if (op.A(4) & 1) std::visit([&](auto &x) { x.get_tags().get_tag("label") = std::string("pop ") + std::to_string(op.A(4)); }, v);
            Entity e = std::visit([](auto &x) { return pop_image(x); }, v);
            bool dup = b.find(b.img.pops, pop_uid(k));
            int how = static_cast<int>(op.idx(1, 3));
            if (dup && how == 0) how = 1;
            q.reset();
            const char *r = attempt(p,
                                    [&]
                                    {
                                        if (how == 0) net.add_population(std::move(v));
                                        else
                                            std::visit(
                                                [&](auto &x)
                                                {
                                                    using T = std::decay_t<decltype(x)>;
                                                    if (how == 1) net.add_population<T>(std::move(x));
                                                    else net.add_population<T>(x);
                                                },
                                                v);
                                    });
            if (expect(r, dup ? "logic" : nullptr, "adding a population"))
            {
                Quiet qq;
                b.img.pops.push_back(e);
            }
        }
        else if (op.k == "addproj")
        {
            auto q = std::make_unique<Quiet>();
            auto end = [&](size_t i) { return op.A(i, -1) < 0 ? -1 : static_cast<int>(op.idx(i, slots)); };
            s.projs[k] = {end(3), end(4), static_cast<int>(op.idx(2, 3)), op.idx(5, 40), static_cast<uint64_t>(op.A(6)), 3, (op.A(6) & 1) != 0, static_cast<int>(op.A(6) & 7)};
            ProjSpec &ps = s.projs[k];
            if (!s.pop_size(ps.pre) || !s.pop_size(ps.post)) ps.nsyn = 0;
            kc::AllProjectionsVariant v = make_proj(s, k);
            if (op.A(6) & 2) std::visit([&](auto &x) { x.get_tags().get_tag("label") = std::string("proj ") + std::to_string(op.A(6)); }, v);
            bool dup = b.find(b.img.projs, proj_uid(k));
            int how = static_cast<int>(op.idx(1, 4));
            if (dup && how == 0) how = 1;
            Entity e;
            if (how != 3) e = std::visit([](auto &x) { return proj_image(x); }, v);
            long fail = how == 3 ? op.A(7, -1) : -1;
            size_t made = 0;
            q.reset();
            const char *r = attempt(p,
                                    [&]
                                    {
                                        if (how == 0) net.add_projection(std::move(v));
                                        else
                                            std::visit(
                                                [&](auto &x)
                                                {
                                                    using T = std::decay_t<decltype(x)>;
                                                    if (how == 1) net.add_projection<T>(std::move(x));
                                                    else if (how == 2) net.add_projection<T>(x);
                                                    else
                                                        net.add_projection<typename T::ProjectionSynapseType>(
                                                            x.get_uid(), x.get_presynaptic(), x.get_postsynaptic(),
                                                            [&](size_t i) -> std::optional<typename T::Synapse>
                                                            {
                                                                if (static_cast<long>(i) == fail) throw_injected("generator", i);
                                                                if (op.A(6) & 8 && i % 3 == 1) return std::nullopt;
                                                                made = i + 1;
                                                                return x[i];
                                                            },
                                                            x.size());
                                                },
                                                v);
                                    });
            Quiet qq;
            bool thrown = fail >= 0 && static_cast<size_t>(fail) < ps.nsyn;
            bool ok = false;
            if (r && !std::strcmp(r, "generator"))
            {
                if (!thrown) violation("wrong result", "operation %zu: adding a projection failed in a generator that did not fail", step);
            }
            else ok = expect(r, dup ? "logic" : nullptr, "adding a projection");
            if (ok)
            {
                if (how == 3)
                {
                    // built from the synapses that the generator returned
                    e = std::visit(
                        [&](auto &x)
                        {
                            using T = std::decay_t<decltype(x)>;
                            T want(x.get_uid(), x.get_presynaptic(), x.get_postsynaptic());
                            for (size_t i = 0; i < x.size(); ++i)
                                if (!(op.A(6) & 8 && i % 3 == 1)) want.add_synapses([&](size_t) -> std::optional<typename T::Synapse> { return x[i]; }, 1);
                            return proj_image(want);
                        },
                        v);
                }
                b.img.projs.push_back(e);
            }
        }
        else if (op.k == "connect")
        {
            auto q = std::make_unique<Quiet>();
            size_t k2 = op.idx(1, slots);
            long fail = op.A(4, -1);
            kc::AllPopulationsVariant a = make_pop(s, k), z = make_pop(s, k2);
            bool known = b.find(b.img.pops, pop_uid(k)) && b.find(b.img.pops, pop_uid(k2));
            size_t np = std::visit([](auto &x) { return x.size(); }, a), nq = std::visit([](auto &x) { return x.size(); }, z), n = op.idx(3, 12);
            kc::UID made = no_uid();
            size_t calls = 0;
            q.reset();
            const char *r = attempt(p,
                                    [&]
                                    {
                                        std::visit(
                                            [&](auto &x, auto &y)
                                            {
                                                using A = typename std::decay_t<decltype(x)>::PopulationNeuronType;
                                                using B = typename std::decay_t<decltype(y)>::PopulationNeuronType;
                                                if (op.A(2) & 1)
                                                    made = net.connect_populations<st::DeltaSynapse, A, B>(
                                                        x, y,
                                                        [&](size_t i) -> std::optional<kc::Projection<st::DeltaSynapse>::Synapse>
                                                        {
                                                            ++calls;
                                                            if (static_cast<long>(i) == fail) throw_injected("generator", i);
                                                            return std::make_tuple(kc::Projection<st::DeltaSynapse>::SynapseParameters{static_cast<float>(i), 1, st::OutputType::EXCITATORY}, i, i + 1);
                                                        },
                                                        n);
                                                else made = net.connect_populations<st::DeltaSynapse, A, B>(x, y);
                                            },
                                            a, z);
                                    });
            Quiet qq;
            bool thrown = op.A(2) & 1 && fail >= 0 && static_cast<size_t>(fail) < n;
            if (r && !std::strcmp(r, "generator"))
            {
                if (!thrown || !known) violation("wrong result", "operation %zu: connecting populations failed in a generator", step);
            }
            else if (expect(r, known ? nullptr : "logic", "connecting populations"))
            {
                kc::AllProjectionsVariant *v = nullptr;
                try
                {
                    v = &net.get_projection(made);
                }
                catch (const std::logic_error &)
                {
                    violation("wrong look-up", "operation %zu: the projection that connects two populations is not in the network", step);
                }
                auto *pj = std::get_if<kc::Projection<st::DeltaSynapse>>(v);
                if (!pj || !(pj->get_presynaptic() == pop_uid(k)) || !(pj->get_postsynaptic() == pop_uid(k2))) violation("wrong connection", "operation %zu: connecting populations %zu and %zu made something else", step, k, k2);
                std::map<std::pair<size_t, size_t>, int> seen;
                for (auto &x : *pj) ++seen[{std::get<kc::source_neuron_id>(x), std::get<kc::target_neuron_id>(x)}];
                size_t want = op.A(2) & 1 ? n : np * nq;
                if (pj->size() != want || seen.size() != want) violation("wrong connection", "operation %zu: connecting populations made %zu synapse(s), %zu distinct, %zu expected", step, pj->size(), seen.size(), want);
                b.img.projs.push_back(proj_image(*pj));
            }
        }
        else if (op.k == "rmpop")
        {
            Entity *e = b.find(b.img.pops, pop_uid(k));
            if (expect(attempt(0, [&] { net.remove_population(pop_uid(k)); }), e ? nullptr : "logic", "removing a population") && e) b.img.pops.erase(b.img.pops.begin() + (e - b.img.pops.data()));
        }
        else if (op.k == "rmproj")
        {
            Entity *e = b.find(b.img.projs, proj_uid(k));
            if (expect(attempt(0, [&] { net.remove_projection(proj_uid(k)); }), e ? nullptr : "logic", "removing a projection") && e) b.img.projs.erase(b.img.projs.begin() + (e - b.img.projs.data()));
        }
        else if (op.k == "edit")
        {
            size_t at = op.idx(1, slots);
            bool pop = op.A(0) & 1;
            Entity *e = pop ? b.find(b.img.pops, pop_uid(at)) : b.find(b.img.projs, proj_uid(at));
            if (!e) continue;
            std::string label = "edited " + std::to_string(op.A(2));
            // through the typed reference, which must be the entity itself
            if (pop)
                std::visit(
                    [&](auto &x)
                    {
                        using N = typename std::decay_t<decltype(x)>::PopulationNeuronType;
                        net.get_population<N>(pop_uid(at)).get_tags()["label"] = label;
                        if (&static_cast<const kf::Network &>(net).get_population<N>(pop_uid(at)) != &x) violation("wrong entity", "operation %zu: a typed look-up gives another object", step);
                    },
                    net.get_population(pop_uid(at)));
            else
                std::visit(
                    [&](auto &x)
                    {
                        using S = typename std::decay_t<decltype(x)>::ProjectionSynapseType;
                        net.get_projection<S>(proj_uid(at)).get_tags()["label"] = label;
                        if (&static_cast<const kf::Network &>(net).get_projection<S>(proj_uid(at)) != &x) violation("wrong entity", "operation %zu: a typed look-up gives another object", step);
                    },
                    net.get_projection(proj_uid(at)));
            e->tag = label;
            ++done;
        }
        else if (op.k == "wrong")
        {
            // a typed look-up with a type that is not the entity's
            size_t at = op.idx(1, slots);
            if (op.A(0) & 1)
            {
                Entity *e = b.find(b.img.pops, pop_uid(at));
                bool is = e && e->type == kc::AllPopulationsVariant(kc::Population<nt::LIFNeuron>(no_uid(), [](size_t) { return std::nullopt; }, 0)).index();
                expect(attempt(0, [&] { (void)net.get_population<nt::LIFNeuron>(pop_uid(at)); }), !e ? "logic" : is ? nullptr : "type", "typed look-up of a population");
            }
            else
            {
                Entity *e = b.find(b.img.projs, proj_uid(at));
                bool is = e && e->type == kc::AllProjectionsVariant(kc::Projection<st::DeltaSynapse>(no_uid(), no_uid())).index();
                expect(attempt(0, [&] { (void)net.get_projection<st::DeltaSynapse>(proj_uid(at)); }), !e ? "logic" : is ? nullptr : "type", "typed look-up of a projection");
            }
        }
        else if (op.k == "copy")
        {
            std::unique_ptr<kf::Network> copy;
            if (attempt(p, [&] { copy = std::make_unique<kf::Network>(net); })) continue;
            check_network(*copy, b, step);
            // what happens to the copy does not reach the original
            if (op.A(0) & 1)
            {
                for (auto it = copy->begin_populations(); it != copy->end_populations(); ++it) std::visit([](auto &x) { x.get_tags()["label"] = std::string("of the copy"); }, *it);
                while (copy->populations_count()) copy->remove_population(std::visit([](auto &x) { return x.get_uid(); }, *copy->begin_populations()));
                while (copy->projections_count()) copy->remove_projection(std::visit([](auto &x) { return x.get_uid(); }, *copy->begin_projections()));
            }
            copy.reset();
            ++done;
        }
        else if (op.k == "channel")
        {
            size_t ch = op.idx(1, channels), at = op.idx(2, slots);
            bool in = op.A(0) & 1, known = in ? b.find(b.img.projs, proj_uid(at)) != nullptr : b.find(b.img.pops, pop_uid(at)) != nullptr;
            const char *r = attempt(p, [&] { in ? model.add_input_channel(chan_uid(ch), proj_uid(at)) : model.add_output_channel(chan_uid(ch), pop_uid(at)); });
            if (expect(r, known ? nullptr : "logic", "connecting a channel")) (in ? b.in : b.out).insert({ch, at});
        }
        check_network(net, b, step);
        check_channels(model, b, step);
    }
    if (net.get_uid() != uid(21, 1)) violation("wrong identifier", "the network reports another identifier than it was made with");
    sim::obs(done);
    for (auto &e : b.img.pops) sim::obs(e.bits.size() * 7 + e.type);
    for (auto &e : b.img.projs) sim::obs(e.bits.size() * 11 + e.type);
    if (done > 2 && (b.img.pops.size() || b.img.projs.size())) sim::nontrivial();
}

// ---- C37 ----------------------------------------------------------------------------------------------------------
namespace nv = kf::network_validation;
void gen37(Rng &r, Case &c)
{
    c.p["alloc"] = r.chance(0.4) ? r.range(5, 150) : 0;
    bool wide = r.chance(0.03);
    long np = r.range(0, wide ? 16 : 4), nj = r.range(0, wide ? 40 : 5), far = wide ? 15 : 4;
    for (long i = 0; i < np; ++i) c.op("pop", {r.range(0, 5), r.range(0, 3), static_cast<long>(r.below(1000))});
    for (long i = 0; i < nj; ++i) c.op("proj", {r.chance(wide ? 0.05 : 0.3) ? -1 : r.range(0, far), r.chance(wide ? 0.05 : 0.3) ? -1 : r.range(0, far), r.range(0, 2)});
    long n = r.range(1, wide ? 40 : 8);
    for (long i = 0; i < n; ++i)
    {
        c.op("val", {r.range(0, 3), r.range(0, 1), r.range(0, wide && r.chance(0.3) ? 60 : 3), static_cast<long>(r.below(1000)), r.chance(0.2) ? r.range(0, far + 2) : -1, r.chance(0.05)});
        if (r.chance(0.5)) c.op("run");
    }
    c.op("run");
}
struct Val
{
    int kind;       // 0 population, 1 projection, 2 network, 3 connectivity
    kc::UID id = no_uid();
    std::string name;
    bool named;
    size_t issues;
    long seed, fail;
    bool bad_severity;
    size_t calls = 0, ordinal = 0;
    std::vector<kc::UID> seen;
};
nv::Report issues_of(const Val &v, const kc::UID &e)
{
    sim::NoAllocFaults na;    // an identifier turns into an empty string when there is no memory
    nv::Report r;
    for (size_t i = 0; i < v.issues; ++i)
        r.push_back({static_cast<nv::IssueSeverity>((static_cast<size_t>(v.seed) + i) % 3), std::to_string(v.seed) + " " + std::to_string(i) + " " + std::string(e), std::error_code(static_cast<int>(i), std::generic_category())});
    if (v.bad_severity && v.issues) r.back().severity_ = static_cast<nv::IssueSeverity>(9);
    return r;
}
std::multiset<std::string> flat(const nv::Report &r)
{
    std::multiset<std::string> s;
    for (auto &i : r) s.insert(std::to_string(static_cast<int>(i.severity_)) + "|" + i.message_ + "|" + std::to_string(i.code_.value()) + "|" + i.code_.category().name());
    return s;
}
void run37(const Case &c)
{
    double p = static_cast<double>(c.P("alloc", 0, 0, 300)) / 1000.0;
    sim::set_entropy(static_cast<uint64_t>(c.ops.size()) * 77 + 5, 0);
    Spec s;
    for (auto &op : c.ops)
    {
        if (op.k == "pop" && s.pops.size() < 16) s.pops.push_back({static_cast<int>(op.idx(0, 6)), op.idx(1, 6), static_cast<uint64_t>(op.A(2))});
    }
    size_t in_net = s.pops.size();
    while (s.pops.size() < 16) s.pops.push_back({BLIFAT, 2, 1});
    for (auto &op : c.ops)
        if (op.k == "proj" && s.projs.size() < 40)
            s.projs.push_back({op.A(0, -1) < 0 ? -1 : static_cast<int>(op.idx(0, 16)), op.A(1, -1) < 0 ? -1 : static_cast<int>(op.idx(1, 16)), static_cast<int>(op.idx(2, 3)), 0, 1, 1, false, 0});
    kf::Network net;
    {
        Quiet q;
        for (size_t i = 0; i < in_net; ++i) net.add_population(make_pop(s, i));
        for (size_t i = 0; i < s.projs.size(); ++i) net.add_projection(make_proj(s, i));
    }
    nv::Executor ex;
    std::vector<std::unique_ptr<Val>> vals;
    std::map<int, size_t> per_kind;
    size_t runs = 0, judged = 0;
    for (auto &op : c.ops)
    {
        if (op.k == "val" && vals.size() < 40)
        {
            auto v = std::make_unique<Val>();
            v->kind = static_cast<int>(op.idx(0, 4)), v->named = op.A(1) & 1, v->issues = op.idx(2, 64), v->seed = op.A(3), v->fail = op.A(4, -1), v->bad_severity = op.A(5) & 1;
            v->name = "validator " + std::to_string(v->seed);
            Val *w = v.get();
            auto before = [w](const kc::UID &e)
            {
                Quiet q;
                sim::NoAllocFaults na;
                w->seen.push_back(e);
                if (static_cast<long>(w->calls++) == w->fail) throw_injected("validator", w->calls);
            };
            nv::PopulationValidator vp = [w, before](const kf::Network::AllPopulationVariants &x)
            {
                kc::UID e = std::visit([](auto &y) { return y.get_uid(); }, x);
                before(e);
                return issues_of(*w, e);
            };
            nv::ProjectionValidator vj = [w, before](const kf::Network::AllProjectionVariants &x)
            {
                kc::UID e = std::visit([](auto &y) { return y.get_uid(); }, x);
                before(e);
                return issues_of(*w, e);
            };
            nv::NetworkValidator vn = [w, before](const kf::Network &x)
            {
                before(x.get_uid());
                return issues_of(*w, x.get_uid());
            };
            if (v->kind == 3) vn = nv::Connectivity(), v->issues = 0;
            try
            {
                if (v->kind == 0) v->id = v->named ? ex.add_validator(v->name, vp) : ex.add_validator(vp);
                else if (v->kind == 1) v->id = v->named ? ex.add_validator(v->name, vj) : ex.add_validator(vj);
                else v->id = v->named ? ex.add_validator(v->name, vn) : ex.add_validator(vn);
            }
            catch (const std::bad_alloc &)
            {
                violation("wrong result", "adding a validator failed");
            }
            for (auto &o : vals)
                if (o->id == v->id) violation("same identifier", "two validators have the same identifier");
            vals.push_back(std::move(v));
        }
        else if (op.k == "run")
        {
            ++runs;
            for (auto &v : vals) v->seen.clear();
            std::vector<nv::Executor::ValidatorResult> res;
            bool thrown = false, may_throw = false;
            for (auto &v : vals)
            {
                size_t n = v->kind == 0 ? net.populations_count() : v->kind == 1 ? net.projections_count() : 1;
                may_throw = may_throw || (v->fail >= 0 && v->kind != 3 && static_cast<long>(v->calls) <= v->fail && v->fail < static_cast<long>(v->calls + n));
                may_throw = may_throw || (v->bad_severity && v->issues && n);
            }
            try
            {
                sim::AllocFaults a(p);
                res = ex.run_validators(net);
            }
            catch (const std::bad_alloc &)
            {
                thrown = true;
                sim::probe("validation failed for lack of memory");
            }
            catch (const std::logic_error &)
            {
                thrown = true;
                if (!may_throw) violation("wrong result", "validation rejected a report that is in order");
                sim::probe("report with an unknown severity");
            }
            catch (...)
            {
                thrown = true;
                if (!may_throw) violation("wrong result", "validation failed although no validator did");
                sim::probe("validator failed");
            }
            Quiet q;
            // nobody is asked twice about the same entity in one validation
            for (auto &v : vals)
            {
                auto x = v->seen;
                std::sort(x.begin(), x.end());
                if (std::adjacent_find(x.begin(), x.end()) != x.end()) violation("asked twice", "validation %zu asked a validator twice about the same entity", runs);
            }
            if (thrown) continue;
            if (may_throw) violation("failure lost", "validation %zu succeeded although a validator failed or reported an unknown severity", runs);
            ++judged;
            std::map<std::string, std::vector<const nv::Executor::ValidatorResult *>> by;
            for (auto &r : res) by[std::string(r.uid_)].push_back(&r);
            size_t expected = 0;
            for (auto &v : vals)
            {
                std::vector<kc::UID> ents;
                if (v->kind == 0) for (auto &x : net.get_populations()) ents.push_back(std::visit([](auto &y) { return y.get_uid(); }, x));
                else if (v->kind == 1) for (auto &x : net.get_projections()) ents.push_back(std::visit([](auto &y) { return y.get_uid(); }, x));
                else ents.push_back(net.get_uid());
                expected += ents.size();
                if (v->kind != 3)
                {
                    auto a = v->seen, b = ents;
                    std::sort(a.begin(), a.end()), std::sort(b.begin(), b.end());
                    if (a != b) violation("not asked", "validation %zu asked a validator about %zu of %zu entities", runs, a.size(), b.size());
                }
                auto &got = by[std::string(v->id)];
                if (got.size() != ents.size()) violation("wrong results", "validation %zu returns %zu report(s) of a validator, %zu expected", runs, got.size(), ents.size());
                std::multiset<std::multiset<std::string>> have, want;
                for (auto *r : got)
                {
                    if (v->named && r->validator_name_ != v->name) violation("wrong results", "a report carries the name of another validator");
                    if (!v->named && r->validator_name_.empty()) violation("wrong results", "a report carries no name");
                    if (v->kind != 3) have.insert(flat(r->report_));
                    else
                    {
                        // Connectivity: exactly the entities that nothing is connected to. An identifier turns into an empty string when there is no memory.
                        std::multiset<std::string> a, b;
                        for (auto &i : r->report_)
                        {
                            if (i.severity_ != nv::IssueSeverity::error || &i.code_.category() != &nv::Connectivity::error_category()) violation("wrong connectivity report", "an issue of another kind");
                            std::string what;
                            for (size_t k = 0; k < in_net; ++k)
                                if (i.message_.find(std::string(pop_uid(k))) != std::string::npos) what = "population " + std::to_string(k);
                            for (size_t k = 0; k < s.projs.size(); ++k)
                                if (i.message_.find(std::string(proj_uid(k))) != std::string::npos) what = "projection " + std::to_string(k);
                            a.insert((p > 0 ? "" : what) + (i.code_.value() == nv::Connectivity::population_not_connected ? "p" : "j"));
                        }
                        for (size_t k = 0; k < in_net; ++k)
                        {
                            bool conn = false;
                            for (auto &j : s.projs) conn = conn || j.pre == static_cast<int>(k) || j.post == static_cast<int>(k);
                            if (!conn) b.insert((p > 0 ? "" : "population " + std::to_string(k)) + "p");
                        }
                        for (size_t k = 0; k < s.projs.size(); ++k)
                            if (s.projs[k].pre < 0 && s.projs[k].post < 0) b.insert((p > 0 ? "" : "projection " + std::to_string(k)) + "j");
                        if (a != b) violation("wrong connectivity report", "the connectivity validator reports %zu issue(s), %zu entities are not connected", a.size(), b.size());
                    }
                }
                if (v->kind != 3) for (auto &e : ents) want.insert(flat(issues_of(*v, e)));
                if (have != want) violation("wrong results", "validation %zu returns other issues than a validator reported", runs);
            }
            if (expected != res.size()) violation("wrong results", "validation %zu returns %zu report(s), %zu expected", runs, res.size(), expected);
            sim::obs(res.size());
        }
    }
    if (judged && vals.size() > 1) sim::nontrivial();
    if (judged > 1) sim::probe("runs with several validations");
}

// ---- C38 ----------------------------------------------------------------------------------------------------------
constexpr size_t LIBS = 6;    // three good ones, then: no creator, creator returns nothing, creator throws
const char *const LIB_NAMES[LIBS] = {"good0", "good1", "good2", "nosymbol", "nothing", "thrower"};
// Libraries in different folders may share a file name.
const char *const LIB_DIRS[LIBS] = {"/no/such/folder", "/no/such/place", "/no/such/place", "/no/such/folder", "/no/such/place", "/no/such/folder"};
const char *const LIB_FILES[LIBS] = {"plugin", "plugin", "other", "broken", "broken", "thrower"};
struct Made : ST
{
    size_t lib, number;
    explicit Made(size_t l) : lib(l), number(++counter) { ++living[lib]; }
    ~Made() override { --living[lib]; }
    static size_t counter, living[LIBS];
};
size_t Made::counter = 0, Made::living[LIBS] = {};
// An endpoint taken from a backend: its code and that of its control block belong to the backend's library.
struct Taken
{
    size_t lib;
    kc::MessageEndpoint endpoint;
};
template <size_t L>
std::shared_ptr<kc::Backend> create_in()
{
    if (L == 4) return nullptr;
    if (L == 5) throw_injected("creator", Made::counter);
    return std::make_shared<Made>(L);
}
using Creator = std::shared_ptr<kc::Backend> (*)();
Creator creators[LIBS] = {create_in<0>, create_in<1>, create_in<2>, nullptr, create_in<4>, create_in<5>};
struct Fake : fakedl::Loader
{
    // Boost.DLL takes a handle for the dynamic linker's own record.
    struct H : link_map { size_t lib, refs; bool keep; std::string path; };
    std::vector<std::unique_ptr<H>> handles;
    double p = 0;
    size_t failed = 0, opened = 0;
    std::string error;
    std::vector<std::unique_ptr<Taken>> taken;
    void *open(const char *path, int flags) override
    {
        Quiet q;
        sim::NoAllocFaults na;
        for (size_t i = 0; i < LIBS; ++i)
            if (path && std::string(path) == std::string(LIB_DIRS[i]) + "/lib" + LIB_FILES[i] + ".so")
            {
                if (sim::fault("dlopen", p))
                {
                    ++failed;
                    error = "cannot allocate memory in static TLS block";
                    return nullptr;
                }
                ++opened;
                for (auto &h : handles)
                    if (h->lib == i)
                    {
                        ++h->refs;
                        h->keep |= (flags & RTLD_NODELETE) != 0;
                        return static_cast<link_map *>(h.get());
                    }
                handles.push_back(std::make_unique<H>(H{{}, i, 1, (flags & RTLD_NODELETE) != 0, path}));
                handles.back()->l_name = handles.back()->path.data();
                return static_cast<link_map *>(handles.back().get());
            }
        error = "cannot open shared object file: No such file or directory";
        return nullptr;
    }
    H *find(void *h)
    {
        for (auto &x : handles)
            if (static_cast<link_map *>(x.get()) == h) return x.get();
        return nullptr;
    }
    bool owns(void *h) override { Quiet q; return find(h) != nullptr; }
    void *sym(void *h, const char *name) override
    {
        Quiet q;
        H *x = find(h);
        if (!x->refs) violation("library used after closing", "a symbol is looked up in a library that was closed");
        if (creators[x->lib] && !std::strcmp(name, "create_knp_backend")) return &creators[x->lib];
        error = "undefined symbol";
        return nullptr;
    }
    int close(void *h) override
    {
        Quiet q;
        H *x = find(h);
        if (!x->refs) violation("library closed twice", "a library is closed more often than it was opened");
        if (--x->refs == 0 && !x->keep)
        {
            if (Made::living[x->lib]) violation("library unloaded in use", "library '%s' is unloaded while %zu backend(s) it made are alive", LIB_NAMES[x->lib], Made::living[x->lib]);
            for (auto &t : taken)
                if (t->lib == x->lib) violation("library unloaded in use", "library '%s' is unloaded while an endpoint of a backend it made is alive", LIB_NAMES[x->lib]);
            sim::probe("library unloaded");
        }
        return 0;
    }
    const char *err() override { return error.empty() ? nullptr : error.c_str(); }
};
void gen38(Rng &r, Case &c)
{
    c.p["pfail"] = r.chance(0.5) ? r.range(20, 500) : 0;
    c.p["alloc"] = r.chance(0.4) ? r.range(5, 100) : 0;
    c.p["order"] = r.range(0, 5);
    long n = r.range(2, r.chance(0.03) ? 150 : 16);
    for (long i = 0; i < n; ++i)
    {
        double u = r.unit();
        long lib = r.chance(0.6) ? r.range(0, 2) : r.range(0, static_cast<long>(LIBS));
        if (u < 0.55) c.op("load", {r.range(0, 1), lib});
        else if (u < 0.70) c.op("check", {0, lib});
        else if (u < 0.80) c.op("drop", {static_cast<long>(r.below(16))});
        else if (u < 0.84) c.op("take", {static_cast<long>(r.below(16))});
        else if (u < 0.87) c.op("return", {static_cast<long>(r.below(16))});
        else if (u < 0.93) c.op("copy", {r.range(0, 1)});
        else c.op("renew", {r.range(0, 1)});
    }
}
void run38(const Case &c)
{
    double p = static_cast<double>(c.P("alloc", 0, 0, 300)) / 1000.0;
    Made::counter = 0;
    std::fill(std::begin(Made::living), std::end(Made::living), 0);
    Fake fake;
    fake.p = static_cast<double>(c.P("pfail", 0, 0, 900)) / 1000.0;
    fakedl::install(&fake);
    std::unique_ptr<kf::BackendLoader> loaders[2] = {std::make_unique<kf::BackendLoader>(), std::make_unique<kf::BackendLoader>()};
    std::vector<std::shared_ptr<kc::Backend>> alive;
    size_t loaded = 0, failures = 0;
    auto path_of = [](size_t lib) { return lib < LIBS ? std::string(LIB_DIRS[lib]) + "/" + LIB_FILES[lib] : std::string("/no/such/folder/missing"); };
    auto last = [&](size_t lib, size_t which)
    {
        size_t before = fake.failed;
        std::shared_ptr<kc::Backend> b;
        bool memory = false, other = false;
        try
        {
            sim::AllocFaults a(p);
            b = loaders[which]->load(path_of(lib));
        }
        catch (const std::bad_alloc &)
        {
            memory = true;
        }
        catch (...)
        {
            other = true;
        }
        Quiet q;
        bool good = lib < 3, injected = fake.failed != before;
        if (memory && p == 0) violation("wrong result", "loading fails for lack of memory although there is enough");
        if (other && good && !injected && !memory && p == 0) violation("load failed", "loading a backend from a library that is in order failed");
        if (b)
        {
            if (!good) violation("wrong backend", "loading from library '%s' returned a backend", lib < LIBS ? LIB_NAMES[lib] : "missing");
            auto *m = dynamic_cast<Made *>(b.get());
            if (!m || m->lib != lib) violation("wrong backend", "loading from library '%s' returned a backend of another library", LIB_NAMES[lib]);
            for (auto &x : alive)
                if (x.get() == b.get()) violation("backend shared", "two loads returned the same backend");
            if (b->running() || b->get_step() != 0) violation("backend not fresh", "a loaded backend was used before");
            alive.push_back(b);
            ++loaded;
        }
        else if (!memory && !other) violation("nothing returned", "loading from library '%s' returned no backend and reported no failure", lib < LIBS ? LIB_NAMES[lib] : "missing");
        else
        {
            ++failures;
            sim::probe(injected ? "load failed by a fault" : "load failed");
        }
        sim::obs(b ? lib + 1 : 0);
    };
    for (auto &op : c.ops)
    {
        size_t lib = op.idx(1, LIBS + 1);
        if (op.k == "load") last(lib, op.idx(0, 2));
        else if (op.k == "check")
        {
            bool r = false, thrown = false, want = lib < LIBS && lib != 3;
            size_t before = fake.failed;
            try
            {
                sim::AllocFaults a(p);
                r = kf::BackendLoader::is_backend(path_of(lib));
            }
            catch (const std::exception &)
            {
                thrown = true;
            }
            if (thrown && lib < LIBS && fake.failed == before && p == 0) violation("wrong check", "checking library '%s' failed", LIB_NAMES[lib]);
            if (!thrown && r != want) violation("wrong check", "library '%s' is reported to be%s a backend", lib < LIBS ? LIB_NAMES[lib] : "missing", r ? "" : " not");
        }
        else if (op.k == "drop")
        {
            if (!alive.empty()) alive.erase(alive.begin() + static_cast<long>(op.idx(0, alive.size())));
        }
        else if (op.k == "take" && !alive.empty())
        {
            auto &b = alive[op.idx(0, alive.size())];
            try
            {
                sim::AllocFaults a(p);
                auto t = std::make_unique<Taken>(Taken{dynamic_cast<Made *>(b.get())->lib, b->get_message_bus().create_endpoint()});
                sim::NoAllocFaults na;
                fake.taken.push_back(std::move(t));
                sim::probe("endpoint taken");
            }
            catch (const std::bad_alloc &)
            {
            }
        }
        else if (op.k == "return" && !fake.taken.empty())
        {
            auto t = std::move(fake.taken[op.idx(0, fake.taken.size())]);
            fake.taken.erase(std::find(fake.taken.begin(), fake.taken.end(), nullptr));
        }
        else if (op.k == "copy")
        {
            size_t w = op.idx(0, 2);
            try
            {
                sim::AllocFaults a(p);
                loaders[w] = std::make_unique<kf::BackendLoader>(*loaders[1 - w]);
            }
            catch (const std::bad_alloc &)
            {
            }
        }
        else if (op.k == "renew") loaders[op.idx(0, 2)] = std::make_unique<kf::BackendLoader>();
    }
    // After faults stop every good library loads, with a loader that has seen failures too.
    fake.p = p = 0;
    for (size_t lib = 0; lib < 3; ++lib)
        for (size_t w = 0; w < 2; ++w)
        {
            size_t n = alive.size();
            last(lib, w);
            if (alive.size() != n + 1) violation("load failed", "a library cannot be loaded after failures have ended");
        }
    // Loaders, backends and endpoints go in any order; what is left stays usable.
    auto use = [&]
    {
        for (auto &b : alive)
            if (b->running() || b->get_step() != 0) violation("backend changed", "a backend that nobody used changed when its loader or another backend went");
        for (auto &t : fake.taken) t->endpoint.receive_all_messages();
    };
    size_t order = static_cast<size_t>(c.P("order", 0, 0, 5));
    for (size_t i = 0; i < 3; ++i)
    {
        static const int orders[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
        int what = orders[order][i];
        if (what == 0) alive.clear();
        else if (what == 1)
        {
            loaders[0].reset();
            use();
            loaders[1].reset();
        }
        else
            while (!fake.taken.empty())
            {
                auto t = std::move(fake.taken.back());
                fake.taken.pop_back();
            }
        use();
    }
    fakedl::install(nullptr);
    if (loaded > 6) sim::nontrivial();
    if (loaded && failures) sim::probe("runs with loads and failures");
}

sim::Register r35({"C35", "network_edits", 1, gen35, run35,
                   "Random histories of adding (every overload), connecting, removing, editing, looking up and copying populations and projections of every type, and of connecting channels, with "
                   "allocation failures and failing generators, against a record of what was added. Non-trivial when more than two calls succeeded and something is left.",
                   "network, model, populations, projections, tags, projection creators", "allocator failures, synapse generators (harness)", 0, 0});
sim::Register r37({"C37", "validation", 1, gen37, run37,
                   "Random networks and sets of validators of every kind, some of which throw or report unknown severities, validated several times with allocation failures. Non-trivial when a "
                   "validation by more than one validator succeeded.",
                   "validation executor, connectivity validator, network", "validators other than connectivity (harness), allocator failures, random numbers of identifiers", 0, 0});
sim::Register r38({"C38", "backend_loader", 1, gen38, run38,
                   "Random histories of loading, checking, dropping, copying and renewing loaders over six plugin libraries (three in order, three broken) and a missing one, with the dynamic linker "
                   "failing at random. Non-trivial when the history itself loaded a backend.",
                   "backend loader, Boost.DLL, single-threaded backend construction", "dynamic linker (dlopen, dlsym, dlclose), plugin libraries, allocator failures", 0, 0});
}  // namespace
