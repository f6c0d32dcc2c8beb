// A backend under a run: raw or behind a ModelExecutor, with counted steps, segments of runs and their checks.
#pragma once
#include <knp/framework/model.h>
#include <knp/framework/model_executor.h>
#include <knp/framework/network.h>

#include <atomic>
#include <thread>

#include "backend_net.h"

namespace rig
{
using namespace net;
namespace kf = knp::framework;

struct Injected : std::runtime_error { explicit Injected(const char *what) : std::runtime_error(what) {} };
// Users throw what they like: not every exception is a std::exception.
struct Foreign { const char *text; const char *what() const { return text; } };
[[noreturn]] inline void throw_injected(const char *text, size_t kind)
{
    if (kind % 3 == 1) throw Foreign{text};
    if (kind % 3 == 2) throw text;
    throw Injected(text);
}

// Step hook: the real backends with a callback around each step.
struct Hooks
{
    std::function<void()> before, after;
    size_t begun = 0, completed = 0;
};
template <class B>
struct Counted : B
{
    Hooks *h = nullptr;
    using B::B;
    void _step() override
    {
        if (h)
        {
            { Quiet q; ++h->begun; }
            if (h->before) h->before();
        }
        B::_step();
        if (h)
        {
            { Quiet q; ++h->completed; }
            if (h->after) h->after();
        }
    }
};

enum Style { LOOP, PREDICATE, CALLBACKS };
enum How { PRE_FALSE, POST_FALSE, STOP_PRE, STOP_POST, STOP_THREAD, STOP_STEP, THROW_PRE, THROW_POST, THROW_STEP, THROW_GENERATOR, THROW_HANDLER, HOWS };

struct Segment { int style, how; size_t at; };

struct HandlerSpec { size_t pop, proj; };

// Numbers a handler forwards: every spike of the messages, folded into the receiving projection's sources, once each.
inline km::SpikeData handle(const std::vector<km::SpikeMessage> &in, size_t lim)
{
    std::set<uint32_t> out;
    for (auto &m : in)
        for (auto x : m.neuron_indexes_) out.insert(static_cast<uint32_t>(x % (lim ? lim : 1)));
    return km::SpikeData(out.begin(), out.end());
}

struct Rig
{
    const Spec &s;
    bool exec;
    Net n;
    Hooks hooks;
    std::unique_ptr<kf::Model> model;
    std::unique_ptr<kf::ModelExecutor> ex;
    std::unique_ptr<World> w;
    std::vector<HandlerSpec> handlers;
    
    // What the current segment is to do.
    std::function<bool(size_t)> on_pre, on_post;
    std::function<void(size_t)> on_generator;
    std::function<void(size_t)> on_handler;
    std::map<std::pair<size_t, size_t>, km::SpikeData> handled;         // (handler, step) -> what it sent
    const std::map<std::pair<size_t, size_t>, km::SpikeData> *replay_handled = nullptr;
    size_t generator_calls = 0;
    std::map<std::pair<size_t, size_t>, size_t> generated;    // (sender, step) -> calls

    Rig(const Spec &spec, const Case &c, bool mt, bool with_exec, std::vector<HandlerSpec> hs) : s(spec), exec(with_exec), handlers(std::move(hs))
    {
        if (mt)
        {
            MtParams p = mt_params(c);
            auto b = std::make_shared<Counted<MT>>(p.threads, p.pop_part, p.proj_part);
            b->h = &hooks;
            n.mt = b;
            n.b = b;
        }
        else
        {
            auto b = std::make_shared<Counted<ST>>();
            b->h = &hooks;
            n.st = b;
            n.b = b;
        }
        sim::NoAllocFaults na;
        Quiet q;
        if (!exec)
        {
            load(n, s);
            feed(n, s);
        }
        else
        {
            kf::Network network;
            for (size_t i = 0; i < s.pops.size(); ++i) network.add_population(make_pop(s, i));
            for (size_t i = 0; i < s.projs.size(); ++i) network.add_projection(make_proj(s, i));
            model = std::make_unique<kf::Model>(std::move(network));
            kf::ModelLoader::InputChannelMap map;
            std::set<size_t> used;
            std::set<std::pair<size_t, size_t>> feeds(s.feeds.begin(), s.feeds.end());
            for (auto &f : feeds)
            {
                model->add_input_channel(sender_uid(f.second), proj_uid(f.first));
                used.insert(f.second);
            }
            for (size_t k : used) map[sender_uid(k)] = [this, k](kc::Step step) { return generate(k, step); };
            for (size_t i = 0; i < s.pops.size(); ++i) model->add_output_channel(uid(14, static_cast<unsigned>(i)), pop_uid(i));
            ex = std::make_unique<kf::ModelExecutor>(*model, n.b, map);
            for (size_t i = 0; i < s.pops.size(); ++i) n.b->subscribe<km::SynapticImpactMessage>(pop_uid(i), {sender_uid(SENDERS + i)});
            for (size_t h = 0; h < handlers.size(); ++h)
            {
                size_t lim = s.pop_size(s.projs[handlers[h].proj].pre);
                ex->add_spike_message_handler(
                    [this, lim, h](std::vector<km::SpikeMessage> &in)
                    {
                        if (on_handler) on_handler(h);
                        Quiet quiet;
                        std::pair<size_t, size_t> key{h, n.b->get_step()};
                        if (!replay_handled) return handled[key] = handle(in, lim);
                        auto it = replay_handled->find(key);
                        return it == replay_handled->end() ? km::SpikeData{} : it->second;
                    },
                    {pop_uid(handlers[h].pop)}, {proj_uid(handlers[h].proj)}, uid(15, static_cast<unsigned>(h)));
            }
        }
        w = std::make_unique<World>(n, s);
        w->external = exec;
        if (exec)
            ex->add_observer<km::SpikeMessage>([this](const std::vector<km::SpikeMessage> &) { post(n.b->get_step()); }, {pop_uid(0)});
    }
    km::SpikeData generate(size_t k, kc::Step step)
    {
        ++generator_calls;
        if (on_generator) on_generator(step);
        Quiet q;
        ++generated[{k, step}];
        km::SpikeData d;
        for (auto &e : s.events)
            if (e.kind == Event::SPIKES && e.step == step && static_cast<size_t>(e.a[0]) == k)
                for (auto x : w->indices(k, e.a[1], e.a[2] & 1)) d.push_back(x);
        return d;
    }
    std::set<size_t> generated_senders() const
    {
        Quiet q;
        std::set<size_t> r;
        for (auto &f : s.feeds) r.insert(f.second);
        return r;
    }
    bool pre(size_t step)
    {
        if (on_pre && !on_pre(step)) return false;
        w->pre(step);
        return true;
    }
    bool post(size_t next)
    {
        w->post(next);
        return !on_post || on_post(next);
    }
    void stop() { exec ? ex->stop() : n.b->stop(); }
    void start(int style)
    {
        if (exec) style == LOOP ? ex->start() : ex->start([this](kc::Step st) { return pre(st); });
        else if (style == LOOP) n.b->start();
        else if (style == PREDICATE) n.b->start([this](kc::Step st) { return pre(st); });
        else n.b->start([this](kc::Step st) { return pre(st); }, [this](kc::Step st) { return post(st); });
    }
};
// Runs of a model executor, in pieces that end in different ways.
struct Piece { int how; size_t len; };
inline std::vector<Piece> pieces_of(const Case &c)
{
    std::vector<Piece> v;
    for (auto &op : c.ops)
        if (op.k == "piece" && v.size() < 10) v.push_back({static_cast<int>(op.idx(0, 4)), op.idx(1, 8)});
    return v;
}
inline void gen_pieces(Rng &r, Case &c)
{
    long n = r.chance(0.3) ? 0 : r.range(1, 5);
    for (long i = 0; i < n; ++i) c.op("piece", {r.range(0, 3), r.range(0, 5)});
}
template <class F>
void run_pieces(kf::ModelExecutor &ex, const std::vector<Piece> &pieces, size_t steps, std::atomic<long> &stop_in_generator, F on_step)
{
    auto b = ex.get_backend();
    for (auto &p : pieces)
    {
        size_t from = b->get_step(), end = std::min(steps, from + p.len);
        if (from >= steps) break;
        std::thread stopper;
        std::atomic<bool> go{false};
        if (p.how == 1)
            stopper = std::thread([&] { while (!go) sim::yield_point(); for (size_t i = 0; i < p.len * 3; ++i) sim::yield_point(); ex.stop(); });
        if (p.how == 2) stop_in_generator = static_cast<long>(end);
        ex.start(
            [&](kc::Step st)
            {
                go = true;
                if (st >= steps || (p.how != 1 && st >= end)) return false;
                on_step(st);
                if (p.how == 3 && st + 1 == end) ex.stop();
                return true;
            });
        stop_in_generator = -1;
        go = true;
        if (stopper.joinable()) stopper.join();
    }
    ex.start(
        [&](kc::Step st)
        {
            if (st >= steps) return false;
            on_step(st);
            return true;
        });
    // stop() of the last piece may arrive late; it ends nothing by then
    if (b->get_step() < steps)
        violation("run ended early", "step %zu of %zu was not executed although nobody stopped the run", static_cast<size_t>(b->get_step()), steps);
}

// A model executor over a specification, fed from outside and watched from outside.
struct Env
{
    const Spec &s;
    Net n;
    std::unique_ptr<kf::Model> model;
    std::unique_ptr<kf::ModelExecutor> ex;
    std::unique_ptr<World> w;
    std::atomic<long> never{-1};
    Env(const Spec &spec, const Case &c, bool mt) : s(spec)
    {
        n = mt ? make_mt(s, mt_params(c), false) : make_st(s, false);
        Quiet q;
        kf::Network network;
        for (size_t i = 0; i < s.pops.size(); ++i) network.add_population(make_pop(s, i));
        for (size_t i = 0; i < s.projs.size(); ++i) network.add_projection(make_proj(s, i));
        model = std::make_unique<kf::Model>(std::move(network));
        ex = std::make_unique<kf::ModelExecutor>(*model, n.b, kf::ModelLoader::InputChannelMap{});
        feed(n, s);
        w = std::make_unique<World>(n, s);
        ex->add_observer<km::SpikeMessage>([this](const std::vector<km::SpikeMessage> &) { w->post(n.b->get_step()); }, {pop_uid(0)});
    }
    template <class F> void run(const std::vector<Piece> &p, F on_step)
    {
        run_pieces(*ex, p, s.steps, never, [&](size_t st) { on_step(st), w->pre(st); });
    }
    void run(const std::vector<Piece> &p = {}) { run(p, [](size_t) {}); }
};
}  // namespace rig
