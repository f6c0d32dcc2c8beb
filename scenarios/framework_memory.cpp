// C36: long runs need bounded memory, and what is destroyed releases everything.
#include <knp/framework/synchronization.h>

#include "framework_rig.h"

using namespace rig;

namespace
{
constexpr size_t MAXSTEPS = 2000;
struct Sample { size_t blocks, bytes; };
struct Curve
{
    Sample at[MAXSTEPS];
    size_t n = 0;
    void add() { if (n < MAXSTEPS) at[n++] = {sim::heap_live_blocks(), sim::heap_live_bytes()}; }
    // Extremes over a window.
    Sample lo(size_t a, size_t b) const
    {
        Sample s = at[a];
        for (size_t i = a; i < b; ++i) s.blocks = std::min(s.blocks, at[i].blocks), s.bytes = std::min(s.bytes, at[i].bytes);
        return s;
    }
    Sample hi(size_t a, size_t b) const
    {
        Sample s = at[a];
        for (size_t i = a; i < b; ++i) s.blocks = std::max(s.blocks, at[i].blocks), s.bytes = std::max(s.bytes, at[i].bytes);
        return s;
    }
    // Memory that never returns to what it was: every quarter of the run needs more at its least than the quarter before at its most, or the last quarter needs far more than the first.
    void judge(const char *what, size_t warm, size_t bytes_slack) const
    {
        if (n < warm + 160) return;
        size_t q = (n - warm) / 4;
        bool blocks = true, bytes = true;
        for (size_t k = 0; k < 3; ++k)
        {
            Sample h = hi(warm + k * q, warm + (k + 1) * q), l = lo(warm + (k + 1) * q, warm + (k + 2) * q);
            blocks = blocks && l.blocks > h.blocks + 1;
            bytes = bytes && l.bytes > h.bytes + 32;
        }
        Sample first = hi(warm, warm + q), last = lo(warm + 3 * q, n);
        if (blocks || bytes || last.blocks > first.blocks + 150 || last.bytes > first.bytes + bytes_slack)
            violation("memory grows", "%s: after %zu rounds at least %zu blocks (%zu bytes) are in use, after %zu rounds at most %zu (%zu)", what, warm + 3 * q, last.blocks, last.bytes, warm + q, first.blocks,
                      first.bytes);
    }
};
Curve curve;

// One life of a backend, with or without a model executor, that keeps no record of anything.
struct Life
{
    const Spec &s;
    size_t period;
    bool exec;
    Net n;
    std::unique_ptr<kf::Model> model;
    std::unique_ptr<kf::ModelExecutor> ex;
    std::unique_ptr<kc::MessageEndpoint> in, out;
    Curve *curve = nullptr;
    size_t handled = 0, seen = 0;

    Life(const Spec &spec, const Case &c, bool mt, bool with_exec) : s(spec), period(spec.steps), exec(with_exec)
    {
        sim::NoAllocFaults na;
        n = mt ? make_mt(s, mt_params(c), !exec) : make_st(s, !exec);
        Quiet q;
        if (exec)
        {
            kf::Network network;
            for (size_t i = 0; i < s.pops.size(); ++i) network.add_population(make_pop(s, i));
            for (size_t i = 0; i < s.projs.size(); ++i) network.add_projection(make_proj(s, i));
            model = std::make_unique<kf::Model>(std::move(network));
            kf::ModelLoader::InputChannelMap map;
            std::set<size_t> used;
            for (auto &f : std::set<std::pair<size_t, size_t>>(s.feeds.begin(), s.feeds.end()))
            {
                model->add_input_channel(sender_uid(f.second), proj_uid(f.first));
                used.insert(f.second);
            }
            for (size_t k : used) map[sender_uid(k)] = [this, k](kc::Step step) { return data(k, step); };
            for (size_t i = 0; i < s.pops.size(); ++i) model->add_output_channel(uid(14, static_cast<unsigned>(i)), pop_uid(i));
            ex = std::make_unique<kf::ModelExecutor>(*model, n.b, map);
            for (auto &p : s.projs)
                if (p.pre >= 0)
                {
                    size_t j = static_cast<size_t>(&p - s.projs.data()), lim = s.pop_size(p.pre);
                    ex->add_spike_message_handler(
                        [this, lim](std::vector<km::SpikeMessage> &m)
                        {
                            ++handled;
                            return handle(m, lim);
                        },
                        {pop_uid(0)}, {proj_uid(j)});
                    break;
                }
            ex->add_observer<km::SpikeMessage>([this](const std::vector<km::SpikeMessage> &m) { seen += m.size(); }, {pop_uid(0)});
            std::vector<kc::UID> all;
            for (size_t i = 0; i < s.projs.size(); ++i) all.push_back(proj_uid(i));
            ex->add_observer<km::SynapticImpactMessage>([this](const std::vector<km::SynapticImpactMessage> &m) { seen += m.size(); }, all);
        }
        for (size_t i = 0; i < s.pops.size(); ++i) n.b->subscribe<km::SynapticImpactMessage>(pop_uid(i), {sender_uid(SENDERS + i)});
        in = std::make_unique<kc::MessageEndpoint>(n.b->get_message_bus().create_endpoint());
        out = std::make_unique<kc::MessageEndpoint>(n.b->get_message_bus().create_endpoint());
        for (size_t i = 0; i < s.pops.size(); ++i) out->subscribe<km::SpikeMessage>(obs_uid(i), {pop_uid(i)});
        for (size_t i = 0; i < s.projs.size(); ++i) out->subscribe<km::SynapticImpactMessage>(obs_uid(100 + i), {proj_uid(i)});
    }
    km::SpikeData data(size_t k, size_t step) const
    {
        km::SpikeData d;
        size_t lim = 10;
        for (auto &f : s.feeds)
            if (f.second == k) lim = std::min(lim, std::max<size_t>(1, s.pop_size(s.projs[f.first].pre)));
        for (auto &e : s.events)
            if (e.kind == Event::SPIKES && e.step == step % period && static_cast<size_t>(e.a[0]) == k)
                for (size_t i = 0; i < lim; ++i)
                    if (e.a[1] >> i & 1) d.push_back(static_cast<uint32_t>(i));
        return d;
    }
    void send(size_t step)
    {
        if (!exec)
            for (size_t k = 0; k < SENDERS; ++k)
            {
                km::SpikeMessage m{{sender_uid(k), step}, data(k, step)};
                if (!m.neuron_indexes_.empty()) in->send_message(m);
            }
        for (auto &e : s.events)
            if (e.step == step % period && e.kind == Event::IMPACT && s.pops[static_cast<size_t>(e.a[0])].n)
            {
                size_t p = static_cast<size_t>(e.a[0]);
                km::SynapticImpactMessage m{{sender_uid(SENDERS + p), step}, no_uid(), pop_uid(p), false, {}};
                m.impacts_.push_back({0, static_cast<float>(e.a[2] % 33) / 16.F, st::OutputType::EXCITATORY, 0, static_cast<uint32_t>(static_cast<size_t>(e.a[1]) % s.pops[p].n)});
                in->send_message(m);
            }
    }
    // A consumer that keeps up: whatever was sent is taken.
    void drain()
    {
        out->receive_all_messages();
        for (size_t i = 0; i < s.pops.size(); ++i) seen += out->unload_messages<km::SpikeMessage>(obs_uid(i)).size();
        for (size_t i = 0; i < s.projs.size(); ++i) seen += out->unload_messages<km::SynapticImpactMessage>(obs_uid(100 + i)).size();
        if (ex)
            for (auto &o : ex->get_loader().get_outputs())
            {
                size_t now = n.b->get_step();
                o.update();
                seen += o.read_some_from_buffer(0, now).size();
            }
    }
    // Runs up to step `end`, or until something fails.
    bool run(size_t end, size_t cut)
    {
        auto b = n.b;
        while (b->get_step() < end)
        {
            size_t to = std::min<size_t>(end, b->get_step() + (cut ? cut : end));
            auto pre = [&](kc::Step st)
            {
                if (st >= to) return false;
                if (curve && st)
                {
                    Quiet q;
                    drain();
                    curve->add();
                }
                send(st);
                return true;
            };
            if (ex) ex->start(pre);
            else b->start(pre);
            drain();
        }
        return true;
    }
};

// Longest spike history of a synapse under the additive rule.
template <class R> size_t history(const R &) { return 0; }
template <class S> size_t history(const st::STDPAdditiveRule<S> &r)
{
    size_t need = r.tau_plus_ + r.tau_minus_;    // spikes of either side that an update waits for
    return std::max(r.presynaptic_spike_times_.size(), r.postsynaptic_spike_times_.size()) - std::min(need, std::max(r.presynaptic_spike_times_.size(), r.postsynaptic_spike_times_.size()));
}
template <class S> size_t synapse_history(const st::synapse_parameters<S> &) { return 0; }
template <template <typename> class R, class S> size_t synapse_history(const st::synapse_parameters<st::STDP<R, S>> &d) { return history(d.rule_); }

// ---- growth -------------------------------------------------------------------------------------------------------
void gen_growth(Rng &r, Case &c)
{
    GenOptions o;
    o.st_types = r.chance(0.4);
    o.scale = false;
    o.max_pop = 5;
    o.max_syn = 10;
    o.locks = false;
    gen_net(r, c, o);
    c.p["mt"] = o.st_types ? 0 : r.chance(0.5);
    c.p["exec"] = r.chance(0.5);
    c.p["rounds"] = r.chance(0.8) ? r.range(240, 400) : r.range(400, 1500);
    c.p["cut"] = r.chance(0.3) ? r.range(1, 40) : 0;
    bool additive = r.chance(0.1);
    for (auto &op : c.ops)
        if (op.k == "proj" && op.a[2] == ADDITIVE && !additive) op.a[2] = RESOURCE;
}
void run_growth(const Case &c)
{
    bool mt = c.P("mt", 0, 0, 1);
    Spec s = parse(c, mt);
    size_t rounds = static_cast<size_t>(c.P("rounds", 300, 1, static_cast<long>(MAXSTEPS) - 1));
    curve.n = 0;
    Life l(s, c, mt, c.P("exec", 0, 0, 1));
    l.curve = &curve;
    l.run(rounds, static_cast<size_t>(c.P("cut", 0, 0, 1000)));
    Quiet q;
    size_t longest = 0;
    l.n.each_proj([&](auto &p) { for (auto &x : p) longest = std::max(longest, synapse_history(std::get<kc::synapse_data>(x))); });
    if (longest > 64 && longest > rounds / 8)
        violation("additive spike history grows", "after %zu steps a synapse of an additive projection keeps %zu spikes more than its rule needs", rounds, longest);
    curve.judge("run", 60, 16384);
    sim::obs(l.seen);
    sim::obs(l.handled);
    sim::probe("steps", rounds);
    if (l.seen > rounds / 4) sim::nontrivial();
}

// ---- lives --------------------------------------------------------------------------------------------------------
void gen_lives(Rng &r, Case &c)
{
    gen_growth(r, c);
    c.p["rounds"] = r.range(2, 25);
    c.p["alloc"] = r.chance(0.7) ? r.range(1, 60) : 0;
    c.p["tries"] = r.range(1, 6);
    c.p["copy"] = r.chance(0.3);
}
void run_lives(const Case &c)
{
    bool mt = c.P("mt", 0, 0, 1), exec = c.P("exec", 0, 0, 1);
    Spec s = parse(c, mt);
    size_t rounds = static_cast<size_t>(c.P("rounds", 8, 1, 60)), cut = static_cast<size_t>(c.P("cut", 0, 0, 1000));
    double p = static_cast<double>(c.P("alloc", 0, 0, 300)) / 1000.0;
    size_t base_blocks = 0, base_bytes = 0, seen = 0, failures = 0;
    for (int life = 0; life < 4; ++life)
    {
        bool faulty = life == 1 || life == 2;
        {
            Life l(s, c, mt, exec);
            if (faulty && p > 0)
            {
                long tries = c.P("tries", 2, 1, 10);
                for (long t = 0; t < tries && l.n.b->get_step() < rounds; ++t)
                    try
                    {
                        sim::AllocFaults a(p);
                        if (mt) sim::alloc_faults_everywhere(p / 4);
                        l.run(rounds, cut);
                        sim::alloc_faults_everywhere(0);
                    }
                    catch (const std::bad_alloc &)
                    {
                        sim::alloc_faults_everywhere(0);
                        ++failures;
                        sim::probe("run failed for lack of memory");
                    }
            }
            else l.run(rounds, cut);
            if (c.P("copy", 0, 0, 1))
            {
                try
                {
                    sim::AllocFaults a(faulty ? p : 0);
                    kf::Network copy = kf::synchronization::get_network_copy(*l.n.b);
                    seen += copy.populations_count();
                }
                catch (const std::bad_alloc &)
                {
                    sim::probe("copy failed for lack of memory");
                }
            }
            seen += l.seen;
        }
        if (!life) base_blocks = sim::heap_live_blocks(), base_bytes = sim::heap_live_bytes();
        else if (sim::heap_live_blocks() != base_blocks || sim::heap_live_bytes() != base_bytes)
            violation("memory lost", "life %d of the same backend left %zu block(s) (%zu bytes) behind%s", life + 1, sim::heap_live_blocks() - base_blocks, sim::heap_live_bytes() - base_bytes,
                      failures ? " after failures for lack of memory" : "");
    }
    sim::obs(seen);
    if (seen > 4) sim::nontrivial();
}

// ---- bus ----------------------------------------------------------------------------------------------------------
void gen_bus(Rng &r, Case &c)
{
    c.p["zmq"] = r.chance(0.3);
    c.p["rounds"] = r.range(200, 500);
    long n = r.range(3, 25);
    for (long i = 0; i < n; ++i)
    {
        double u = r.unit();
        if (u < 0.3) c.op("open", {r.range(0, 5), r.range(0, 1), r.range(0, 5), r.range(0, 3)});
        else if (u < 0.4) c.op("close", {r.range(0, 5)});
        else if (u < 0.5) c.op("unsub", {r.range(0, 5), r.range(0, 1), r.range(0, 3)});
        else if (u < 0.8) c.op("send", {r.range(0, 5), r.range(0, 1), r.range(0, 5), r.range(0, 8)});
        else if (u < 0.9) c.op("route");
        else c.op("take", {r.range(0, 5)});
    }
}
void run_bus(const Case &c)
{
    size_t rounds = static_cast<size_t>(c.P("rounds", 200, 1, static_cast<long>(MAXSTEPS) - 1)), taken = 0;
    std::shared_ptr<kc::MessageBus> bus = c.P("zmq", 0, 0, 1) ? kc::MessageBus::construct_zmq_bus() : kc::MessageBus::construct_cpu_bus();
    std::unique_ptr<kc::MessageEndpoint> ep[6];
    curve.n = 0;
    auto take = [&](size_t k)
    {
        ep[k]->receive_all_messages();
        for (unsigned r = 0; r < 4; ++r)
        {
            taken += ep[k]->unload_messages<km::SpikeMessage>(uid(5, r)).size();
            taken += ep[k]->unload_messages<km::SynapticImpactMessage>(uid(5, r)).size();
        }
    };
    for (size_t round = 0; round < rounds; ++round)
    {
        for (auto &op : c.ops)
        {
            size_t k = op.idx(0, 6);
            if (op.k == "open")
            {
                if (!ep[k]) ep[k] = std::make_unique<kc::MessageEndpoint>(bus->create_endpoint());
                std::vector<kc::UID> from{uid(1, static_cast<unsigned>(op.idx(2, 6)))};
                if (op.A(1) & 1) ep[k]->subscribe<km::SpikeMessage>(uid(5, static_cast<unsigned>(op.idx(3, 4))), from);
                else ep[k]->subscribe<km::SynapticImpactMessage>(uid(5, static_cast<unsigned>(op.idx(3, 4))), from);
            }
            else if (op.k == "close")
            {
                if (ep[k]) ep[k].reset();
            }
            else if (!ep[k] && op.k != "route") continue;
            else if (op.k == "unsub")
            {
                if (op.A(1) & 1) ep[k]->unsubscribe<km::SpikeMessage>(uid(5, static_cast<unsigned>(op.idx(2, 4))));
                else ep[k]->unsubscribe<km::SynapticImpactMessage>(uid(5, static_cast<unsigned>(op.idx(2, 4))));
            }
            else if (op.k == "send")
            {
                if (op.A(1) & 1) ep[k]->send_message(common::make_spikes(static_cast<unsigned>(op.idx(2, 6)), round, op.idx(3, 20)));
                else ep[k]->send_message(common::make_impacts(static_cast<unsigned>(op.idx(2, 6)), round, op.idx(3, 20)));
            }
            else if (op.k == "route") bus->route_messages();
            else if (op.k == "take") take(k);
        }
        // The end of a round: everything that was sent is routed and taken.
        bus->route_messages();
        for (size_t k = 0; k < 6; ++k)
            if (ep[k]) take(k);
        curve.add();
    }
    curve.judge("bus", 20, 4096);
    sim::obs(taken);
    for (auto &e : ep) e.reset();
    bus.reset();
    if (taken > rounds) sim::nontrivial();
}
// The same twice; the second bus leaves nothing behind.
void run_bus_lives(const Case &c)
{
    size_t blocks = 0, bytes = 0;
    for (int life = 0; life < 3; ++life)
    {
        run_bus(c);
        if (life && (sim::heap_live_blocks() != blocks || sim::heap_live_bytes() != bytes))
            violation("memory lost", "life %d of the same bus left %ld block(s) (%ld bytes) behind", life + 1, static_cast<long>(sim::heap_live_blocks() - blocks), static_cast<long>(sim::heap_live_bytes() - bytes));
        blocks = sim::heap_live_blocks(), bytes = sim::heap_live_bytes();
    }
}

sim::Register rg({"C36", "memory_growth", 3, gen_growth, run_growth,
                  "Random networks with periodic input run for 240 to 1500 steps on both backends, raw or behind a model executor with a handler and observers, in pieces or at once; live heap blocks and "
                  "bytes measured before every step. Non-trivial when messages arrived throughout.",
                  "backends, bus, pool, executor, channels, handlers, observers", "consumers that keep up (harness)", 0, 0});
sim::Register rl({"C36", "memory_lives", 3, gen_lives, run_lives,
                  "The same backend, model executor and network are made, run and destroyed four times, twice of them with allocation failures; each life returns exactly the heap it took. Non-trivial "
                  "when messages arrived.",
                  "backends, bus, pool, executor, channels, handlers, observers, network copies", "allocator failures", 0, 0});
sim::Register rb({"C36", "memory_bus", 2, gen_bus, run_bus_lives,
                  "A random round of opening, subscribing, sending, routing, taking and closing repeated 200 to 500 times on each bus, three lives of it; live heap measured after every round. Non-trivial "
                  "when more messages arrived than there were rounds.",
                  "buses, endpoints, subscriptions, messages", "ZeroMQ transport (sim/fakezmq)", 0, 0});
}  // namespace
