// C17: copying the network out of a backend.
#include <knp/framework/synchronization.h>

#include "framework_image.h"

using namespace image_of;
using namespace rig;

namespace
{
std::vector<kc::AllPopulationsVariant> tagged_pops(const Spec &s)
{
    std::vector<kc::AllPopulationsVariant> v;
    for (size_t i = 0; i < s.pops.size(); ++i)
    {
        v.push_back(make_pop(s, i));
        if (s.pops[i].seed & 1) std::visit([&](auto &p) { p.get_tags().get_tag("label") = std::string("population ") + std::to_string(i); }, v.back());
        if (s.pops[i].seed & 2) std::visit([&](auto &p) { p.get_tags()[kc::tags::io_type_tag] = kc::tags::IOType::output; }, v.back());
    }
    return v;
}
std::vector<kc::AllProjectionsVariant> tagged_projs(const Spec &s)
{
    std::vector<kc::AllProjectionsVariant> v;
    for (size_t i = 0; i < s.projs.size(); ++i)
    {
        v.push_back(make_proj(s, i));
        if (s.projs[i].seed & 1) std::visit([&](auto &p) { p.get_tags().get_tag("label") = std::string("projection ") + std::to_string(i); }, v.back());
        if (s.projs[i].seed & 2) std::visit([&](auto &p) { p.get_tags()[kc::tags::io_type_tag] = kc::tags::IOType::input; }, v.back());
    }
    return v;
}


// A backend whose step counter starts anywhere: learning rules remember step numbers.
template <class B>
struct Later : B
{
    using B::B;
    void skip(size_t n)
    {
        while (n--) (void)this->gad_step();
    }
};

struct Snap
{
    size_t step;
    int ruined;
    bool cont, cont_mt;
};
struct Taken
{
    Snap snap;
    std::unique_ptr<kf::Network> copy;
    Image img;
};

void gen17(Rng &r, Case &c)
{
    GenOptions o;
    c.p["mt"] = r.chance(0.5);
    o.st_types = !c.p["mt"];
    o.cuts = r.chance(0.5);
    o.locks = r.chance(0.3);
    o.impacts = r.chance(0.5);
    o.learning = r.chance(0.6);
    gen_net(r, c, o);
    c.p["exact"] = r.chance(0.4);
    c.p["alloc"] = r.chance(0.4) ? r.range(1, 80) : 0;
    long n = r.range(1, 3), steps = c.p["steps"];
    for (long i = 0; i < n; ++i)
    {
        long at = r.range(0, steps), quiet = r.chance(0.6) ? r.range(1, 6) : 0;
        c.op("snap", {at, r.range(-1, 2), r.chance(0.7), r.chance(0.5)});
        if (quiet) c.op("hush", {at - quiet < 0 ? 0 : at - quiet, at});
    }
}

// Whether an impact may be on its way at the start of step k.
bool in_flight(const Spec &s, Trace &tr, size_t k)
{
    for (size_t j = 0; j < s.projs.size(); ++j)
    {
        size_t d = s.projs[j].maxdelay;
        for (size_t t = k > d ? k - d - 1 : 0; t < k; ++t)
        {
            if (t + d < k) continue;
            if (s.projs[j].pre >= 0 && tr.steps.count(t))
                for (auto &m : tr.steps[t].spikes[static_cast<size_t>(s.projs[j].pre)])
                    if (m.neuron_indexes_.size()) return true;
            for (auto &f : s.feeds)
                if (f.first == j)
                    for (auto &e : s.events)
                        if (e.kind == Event::SPIKES && e.step == t && static_cast<size_t>(e.a[0]) == f.second) return true;
        }
    }
    return false;
}

void run17(const Case &c)
{
    bool mt = c.P("mt", 0, 0, 1);
    double alloc = static_cast<double>(c.P("alloc", 0, 0, 1000)) / 1000.0;
    Spec s = parse(c, mt);
    std::vector<Snap> snaps;
    for (auto &op : c.ops)
    {
        if (op.k == "snap" && snaps.size() < 4) snaps.push_back({op.idx(0, s.steps + 1), static_cast<int>(op.A(1) < 0 ? -1 : op.idx(1, 3)), (op.A(2) & 1) != 0, (op.A(3) & 1) != 0});
        if (op.k == "hush")
        {
            std::vector<Event> keep;
            for (auto &e : s.events)
                if (e.kind == Event::LOCK || static_cast<long>(e.step) < op.A(0) || static_cast<long>(e.step) >= op.A(1)) keep.push_back(e);
            s.events = keep;
        }
    }
    auto make = [&](bool as_mt)
    {
        Net n = as_mt ? make_mt(s, mt_params(c), false) : make_st(s, false);
        return n;
    };
    auto fill = [&](Net &n)
    {
        n.b->load_all_populations(tagged_pops(s));
        n.b->load_all_projections(tagged_projs(s));
        feed(n, s);
    };
    // The run that nobody copies.
    Net ref = make(mt);
    fill(ref);
    World wr(ref, s);
    wr.dump_each = true;
    wr.run_to(s.steps);

    Net n = make(mt);
    fill(n);
    World w(n, s);
    w.dump_each = true;
    std::vector<Taken> taken;
    size_t failed = 0;
    auto take = [&](size_t step, bool inside)
    {
        for (auto &sn : snaps)
        {
            if (sn.step != step) continue;
            Image now;
            { Quiet q; now = image(n); }
            Taken t{sn, nullptr, now};
            for (int attempt = 0; !t.copy; ++attempt)
            {
                try
                {
                    sim::AllocFaults af(attempt < 2 ? alloc : 0.0);
                    t.copy = std::make_unique<kf::Network>(kf::synchronization::get_network_copy(*n.b));
                }
                catch (const std::bad_alloc &)
                {
                    if (attempt >= 2 || alloc == 0) violation("unexpected failure", "copying the network failed with bad_alloc although no allocation was refused");
                    Quiet q;
                    ++failed;
                    sim::probe("copies that failed");
                    same(now, image(n), "backend changed by a failed copy", "the backend before", "the backend after", step);
                }
            }
            Quiet q;
            same(now, image(*t.copy), "copy differs", "the backend", "the copy", step);
            same(now, image(n), "backend changed by the copy", "the backend before", "the backend after", step);
            if (sn.ruined >= 0)
            {
                // the ruined network is a copy of its own, taken from the backend too
                kf::Network own = kf::synchronization::get_network_copy(*n.b);
                for (auto it = own.begin_populations(); it != own.end_populations(); ++it)
                    std::visit(
                        [&](auto &p)
                        {
                            p.get_tags().get_tag("label") = std::string("ruined");
                            for (auto &x : p) x.potential_ = 42, x.activation_threshold_ += 1;
                            if (sn.ruined == 1 && p.size()) p.remove_neuron(0);
                        },
                        *it);
                for (auto it = own.begin_projections(); it != own.end_projections(); ++it)
                    std::visit(
                        [&](auto &p)
                        {
                            p.get_tags().get_tag("label") = std::string("ruined");
                            for (auto &x : p) std::get<kc::synapse_data>(x).weight_ += 5, std::get<kc::synapse_data>(x).delay_ += 2;
                            p.is_locked() ? p.unlock_weights() : p.lock_weights();
                            if (sn.ruined == 1 && p.size()) p.remove_synapse(0);
                            if (sn.ruined == 2) p.clear();
                        },
                        *it);
                same(now, image(n), "backend changed through the copy", "the backend before", "the backend after", step);
                same(now, image(*t.copy), "copy changed through another copy", "the copy before", "the copy after", step);
                sim::probe("copies changed at once");
            }
            if (inside) sim::probe("copies taken inside a run");
            taken.push_back(std::move(t));
        }
    };
    std::set<size_t> cuts = s.cuts;
    cuts.insert(s.steps);
    for (size_t end : cuts)
    {
        if (n.b->get_step() >= end) continue;
        n.b->start([&](kc::Step st) { return take(st, true), w.pre(st); }, [&](kc::Step st) { return w.post(st), st < end; });
    }
    take(s.steps, false);
    {
        Quiet q;
        compare(s, wr.tr, w.tr, true, "the run without copies", "the run with copies");
        for (auto &t : taken) same(t.img, image(*t.copy), "copy changed by the run", "the copy when it was taken", "the copy now", t.snap.step);
    }
    // A fresh backend continues like the original.
    for (auto &t : taken)
    {
        if (!t.snap.cont || t.snap.step >= s.steps || in_flight(s, wr.tr, t.snap.step)) continue;
        Net f;
        if (mt && t.snap.cont_mt)
        {
            MtParams p = mt_params(c);
            auto b = std::make_shared<Later<MT>>(p.threads, p.pop_part, p.proj_part);
            b->skip(t.snap.step);
            f.mt = b, f.b = b;
        }
        else
        {
            auto b = std::make_shared<Later<ST>>();
            b->skip(t.snap.step);
            f.st = b, f.b = b;
        }
        std::unique_ptr<kf::Model> model;
        std::unique_ptr<kf::ModelExecutor> ex;
        if (t.snap.ruined >= 1)
        {
            model = std::make_unique<kf::Model>(kf::Network(*t.copy));
            ex = std::make_unique<kf::ModelExecutor>(*model, f.b, kf::ModelLoader::InputChannelMap{});
        }
        else
        {
            f.b->load_all_populations(t.copy->get_populations());
            f.b->load_all_projections(t.copy->get_projections());
        }
        feed(f, s);
        World wf(f, s);
        wf.dump_each = true;
        wf.prepared = t.snap.step;
        wf.run_to(s.steps);
        Quiet q;
        Trace rest;
        for (auto &x : wr.tr.steps)
            if (x.first >= t.snap.step) rest.steps[x.first] = x.second;
        bool same_kind = mt == (mt && t.snap.cont_mt);
        if (same_kind || (s.exact && !tiny_impacts(wr.tr))) compare(s, rest, wf.tr, same_kind, "the original backend", "the backend loaded with the copy");
        sim::probe("continuations");
        if (t.snap.step && wf.tr.n_impacts) sim::nontrivial(), sim::probe("continuations with impacts, from a later step");
    }
    Quiet q;
    observe(w.tr);
    if (taken.size() && w.tr.n_impacts) sim::nontrivial();
    if (mt) sim::probe("runs on the multi-threaded backend");
}

sim::Register r17({"C17", "network_copies", 1, gen17, run17,
                   "The network of a running backend is copied at random step boundaries, in and between runs, also with refused allocations; copies are compared with the backend, kept "
                   "over the run, changed, and loaded into fresh backends that must continue like the original. Non-trivial when something was copied and impacts flowed.",
                   "both CPU backends with thread pool, bus, populations and projections; network, network copy, model loader and executor",
                   "thread scheduling and memory allocation (simulator)", 0, 0});
}  // namespace
