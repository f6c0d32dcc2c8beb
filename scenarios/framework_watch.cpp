// C20 observers and handlers, C22 loggers, C27 winner-take-all handlers.
#include <knp/framework/message_handlers.h>
#include <knp/framework/monitoring/model.h>
#include <knp/framework/projection/wta.h>

#include <sstream>

#include "framework_rig.h"

using namespace rig;

namespace
{
uint64_t mix(uint64_t a, uint64_t b = 0, uint64_t c = 0)
{
    uint64_t x = a * 0x9E3779B97F4A7C15ull + b * 0xD1B54A32D192ED03ull + c + 77;
    x ^= x >> 29, x *= 0xBF58476D1CE4E5B9ull, x ^= x >> 32, x *= 0x94D049BB133111EBull;
    return x ^ x >> 31;
}

// ---- C20 ----------------------------------------------------------------------------------------------------------
void gen20(Rng &r, Case &c)
{
    GenOptions o;
    c.p["mt"] = r.chance(0.4);
    o.st_types = !c.p["mt"];
    o.impacts = false;
    gen_net(r, c, o);
    gen_pieces(r, c);
    bool wide = r.chance(0.03);          // more watchers, of more senders, than usual
    auto mask = [&](int n) { return wide || r.chance(0.05) ? static_cast<long>(r.next() >> 22) : static_cast<long>(r.below(1ull << n)); };
    long no = r.range(1, wide ? 20 : 4), nh = r.range(0, wide ? 20 : 4);
    for (long i = 0; i < no; ++i) c.op("obs", {r.chance(0.6) ? 0 : r.range(0, 5), r.chance(0.35), mask(12)});
    for (long i = 0; i < nh; ++i)
        c.op("hnd", {r.chance(0.6) ? 0 : r.range(0, 5), mask(12), mask(8), static_cast<long>(r.below(1 << 16)), r.range(0, 3)});
}
struct Got { kc::UID sender; uint64_t time; uint64_t digest; };
uint64_t digest(const km::SpikeMessage &m)
{
    uint64_t h = 1;
    for (auto x : m.neuron_indexes_) h = mix(h, x);
    return h;
}
uint64_t digest(const std::vector<km::SynapticImpact> &v)
{
    uint64_t h = 2;
    for (auto &x : v)
    {
        uint32_t f;
        std::memcpy(&f, &x.impact_value_, 4);
        h = mix(h, x.connection_index_, f), h = mix(h, x.presynaptic_neuron_index_, x.postsynaptic_neuron_index_);
    }
    return h;
}
uint64_t digest(const km::SynapticImpactMessage &m) { return digest(m.impacts_); }

struct Watcher
{
    size_t piece = 0;          // added before this piece
    bool handler = false, impacts = false;
    std::set<size_t> pops, ext, hnd, projs;      // senders
    std::set<size_t> to;                          // receivers of a handler
    uint64_t seed = 0;
    long mode = 0;
    size_t id = 0, added = 0;
    bool present = false;
    size_t calls = 0;
    std::map<std::string, std::vector<Got>> got;       // by sender
    std::map<size_t, km::SpikeData> out;               // after step
};
std::string key(const kc::UID &u) { return std::string(u); }

void run20(const Case &c)
{
    bool mt = c.P("mt", 0, 0, 1);
    Spec s = parse(c, mt);
    for (auto &p : s.projs) p.pre = -1;
    std::vector<Piece> pieces = pieces_of(c);
    std::vector<Watcher> ws;
    auto bits = [](long m, size_t from, size_t n, std::set<size_t> &to)
    {
        for (size_t i = 0; i < n; ++i)
            if (m >> (from + i) & 1) to.insert(i);
    };
    size_t handlers = 0;
    for (auto &op : c.ops)
    {
        if (op.k == "hnd" && handlers < 20) ++handlers;
    }
    size_t nh = 0, no = 0;
    for (auto &op : c.ops)
    {
        if (op.k == "obs" && no < 20)
        {
            Watcher w;
            w.piece = op.idx(0, pieces.size() + 1), w.impacts = op.A(1) & 1, w.id = no++;
            if (w.impacts) bits(op.A(2), 0, s.projs.size(), w.projs);
            else bits(op.A(2), 0, s.pops.size(), w.pops), bits(op.A(2), 6, SENDERS, w.ext), bits(op.A(2), 9, handlers, w.hnd);
            ws.push_back(w);
        }
        if (op.k == "hnd" && nh < handlers)
        {
            Watcher w;
            w.handler = true, w.piece = op.idx(0, pieces.size() + 1), w.id = nh++;
            bits(op.A(1), 0, s.pops.size(), w.pops), bits(op.A(1), 6, SENDERS, w.ext), bits(op.A(1), 9, handlers, w.hnd);
            bits(op.A(2), 0, s.projs.size(), w.to);
            w.seed = static_cast<uint64_t>(op.A(3)), w.mode = op.A(4);
            ws.push_back(w);
        }
    }
    Env e(s, c, mt);
    std::vector<std::pair<bool, size_t>> order_added, calls_now;     // (handler, index into ws)
    size_t steps_seen = 0, outputs = 0;
    bool open = false;
    auto close_step = [&]
    {
        if (!open) return;
        open = false;
        // All calls of one step are there: compare with what was added, each kind in its own order.
        for (bool h : {false, true})
        {
            std::vector<size_t> want, got;
            for (auto &x : order_added)
                if (x.first == h) want.push_back(x.second);
            for (auto &x : calls_now)
                if (x.first == h) got.push_back(x.second);
            if (want == got) continue;
            auto a = want, b = got;
            std::sort(a.begin(), a.end()), std::sort(b.begin(), b.end());
            if (a == b) violation("call order", "after step %zu the %s were not called in the order they were added", steps_seen - 1, h ? "handlers" : "observers");
            violation("calls", "after step %zu %zu call(s) of %zu %s were made", steps_seen - 1, got.size(), want.size(), h ? "handler(s)" : "observer(s)");
        }
        calls_now.clear();
    };
    auto receive = [&](Watcher &w, const auto &messages)
    {
        for (auto &m : messages) w.got[key(m.header_.sender_uid_)].push_back({m.header_.sender_uid_, m.header_.send_time_, digest(m)});
    };
    auto senders = [&](const Watcher &w)
    {
        std::vector<kc::UID> v;
        for (auto i : w.pops) v.push_back(pop_uid(i));
        for (auto i : w.ext) v.push_back(sender_uid(i));
        for (auto i : w.hnd) v.push_back(uid(15, static_cast<unsigned>(i)));
        for (auto i : w.projs) v.push_back(proj_uid(i));
        return v;
    };
    auto add = [&](size_t i)
    {
        Watcher &w = ws[i];
        w.present = true;
        w.added = e.n.b->get_step();
        order_added.push_back({w.handler, i});
        if (w.handler)
        {
            std::vector<kc::UID> to;
            for (auto p : w.to) to.push_back(proj_uid(p));
            e.ex->add_spike_message_handler(
                [&, i](std::vector<km::SpikeMessage> &in) -> km::SpikeData
                {
                    Quiet q;
                    Watcher &me = ws[i];
                    ++me.calls;
                    calls_now.push_back({true, i});
                    receive(me, in);
                    size_t step = e.n.b->get_step() - 1;
                    km::SpikeData d;
                    if (mix(me.seed, step) % 4 >= static_cast<uint64_t>(me.mode)) 
                        for (uint32_t k = 0; k < 4; ++k)
                            if (mix(me.seed, step, k) & 1) d.push_back(k);
                    if (me.out.count(step)) violation("calls", "handler %zu was called twice after step %zu", me.id, step);
                    me.out[step] = d;
                    outputs += d.size();
                    // What the function does to its argument is its own business.
                    in.clear();
                    return d;
                },
                senders(w), to, uid(15, static_cast<unsigned>(w.id)));
        }
        else if (w.impacts)
            e.ex->add_observer<km::SynapticImpactMessage>(
                [&, i](const std::vector<km::SynapticImpactMessage> &in)
                {
                    Quiet q;
                    ++ws[i].calls, calls_now.push_back({false, i}), receive(ws[i], in);
                },
                senders(w));
        else
            e.ex->add_observer<km::SpikeMessage>(
                [&, i](const std::vector<km::SpikeMessage> &in)
                {
                    Quiet q;
                    ++ws[i].calls, calls_now.push_back({false, i}), receive(ws[i], in);
                },
                senders(w));
    };
    auto add_for = [&](size_t piece)
    {
        sim::NoAllocFaults na;
        for (size_t i = 0; i < ws.size(); ++i)
            if (!ws[i].present && ws[i].piece <= piece) add(i);
    };
    auto on_step = [&](size_t st)
    {
        Quiet q;
        if (st != steps_seen) violation("steps", "step %zu begins after %zu steps", st, steps_seen);
        close_step();
        open = true;
        ++steps_seen;
    };
    for (size_t p = 0; p <= pieces.size(); ++p)
    {
        { Quiet q; close_step(); }
        add_for(p);
        if (p == pieces.size()) e.run({}, on_step);
        else
        {
            Piece one = pieces[p];
            size_t from = e.n.b->get_step(), end = std::min(s.steps, from + one.len);
            if (from >= s.steps || end == from) continue;
            e.ex->start(
                [&](kc::Step st)
                {
                    if (st >= end) return false;
                    on_step(st);
                    e.w->pre(st);
                    if (one.how == 3 && st + 1 == end) e.ex->stop();
                    return true;
                });
        }
    }
    Quiet q;
    close_step();
    size_t executed = e.n.b->get_step(), delivered = 0;
    // What every watcher must have been given.
    for (auto &w : ws)
    {
        if (!w.present) continue;
        const char *what = w.handler ? "handler" : "observer";
        if (w.calls != executed - w.added) violation("calls", "%s %zu was called %zu times in %zu steps", what, w.id, w.calls, executed - w.added);
        auto check = [&](const kc::UID &u, const std::vector<Got> &want, size_t optional_first, size_t optional_last, const char *who, size_t no)
        {
            auto got = w.got[key(u)];
            w.got.erase(key(u));
            size_t k = 0, i = 0;
            if (optional_first && got.size() && want.size() && got[0].time != want[0].time) i = 1;
            for (; i < want.size() && k < got.size(); ++i, ++k)
                if (want[i].time != got[k].time || want[i].digest != got[k].digest)
                    violation("wrong message", "%s %zu: message %zu of %s %zu has time %zu, expected time %zu%s", what, w.id, k, who, no, static_cast<size_t>(got[k].time),
                              static_cast<size_t>(want[i].time), want[i].time == got[k].time ? " with other contents" : "");
            if (k < got.size()) violation("message repeated", "%s %zu was given %zu message(s) of %s %zu, which sent %zu", what, w.id, got.size(), who, no, want.size());
            if (i + optional_last < want.size()) violation("message lost", "%s %zu was given %zu message(s) of %s %zu, which sent %zu", what, w.id, got.size(), who, no, want.size());
            delivered += got.size();
        };
        for (auto i : w.pops)
        {
            std::vector<Got> want;
            for (size_t t = w.added; t < executed; ++t)
                for (auto &m : e.w->tr.steps[t].spikes[i]) want.push_back({pop_uid(i), m.header_.send_time_, digest(m)});
            check(pop_uid(i), want, 0, 0, "population", i);
        }
        for (auto i : w.projs)
        {
            std::vector<Got> want;
            for (size_t t = w.added; t < executed; ++t)
                for (auto &m : e.w->tr.steps[t].impacts[i]) want.push_back({proj_uid(i), m.send_time, digest(m.impacts)});
            check(proj_uid(i), want, 0, 0, "projection", i);
        }
        for (auto i : w.ext)
        {
            std::vector<Got> want;
            for (size_t t = w.added; t < executed; ++t)
                for (auto &ev : s.events)
                    if (ev.kind == Event::SPIKES && ev.step == t && static_cast<size_t>(ev.a[0]) == i)
                    {
                        km::SpikeMessage m;
                        m.neuron_indexes_ = e.w->indices(i, ev.a[1], ev.a[2] & 1);
                        want.push_back({sender_uid(i), t, digest(m)});
                    }
            check(sender_uid(i), want, 0, 0, "sender", i);
        }
        for (auto i : w.hnd)
        {
            std::vector<Got> want;
            size_t first = 0, last = 0;
            for (auto &h : ws)
                if (h.handler && h.id == i)
                    for (auto &o : h.out)
                    {
                        if (o.second.empty() || o.first + 1 < w.added) continue;
                        if (o.first + 1 == w.added) first = 1;      // sent before the watcher was added, under way when it was
                        if (o.first + 1 == executed) last = 1;      // sent after the last step
                        km::SpikeMessage m;
                        m.neuron_indexes_ = o.second;
                        want.push_back({kc::UID{false}, o.first + 1, digest(m)});
                    }
            check(uid(15, static_cast<unsigned>(i)), want, first, last, "handler", i);
        }
        for (auto &x : w.got) violation("foreign message", "%s %zu was given %zu message(s) of a sender it does not listen to", what, w.id, x.second.size());
    }
    // What handlers return reaches exactly their receivers, in the next step.
    size_t from_handlers = 0;
    std::set<std::pair<size_t, size_t>> feeds(s.feeds.begin(), s.feeds.end());
    for (size_t i = 0; i < s.projs.size(); ++i)
    {
        std::vector<std::tuple<size_t, unsigned, size_t>> syn;
        std::visit(
            [&](auto &p)
            {
                size_t k = 0;
                for (auto &x : p) syn.push_back({std::get<kc::source_neuron_id>(x), std::max(1u, std::get<kc::synapse_data>(x).delay_), k++});
            },
            e.model->get_network().get_projection(proj_uid(i)));
        for (size_t t = 0; t < executed; ++t)
        {
            std::map<size_t, long> want;
            for (auto &x : syn)
            {
                if (std::get<1>(x) - 1 > t) continue;
                size_t from = t - (std::get<1>(x) - 1);
                for (auto &ev : s.events)
                    if (ev.kind == Event::SPIKES && ev.step == from && feeds.count({i, static_cast<size_t>(ev.a[0])}))
                        for (auto y : e.w->indices(static_cast<size_t>(ev.a[0]), ev.a[1], ev.a[2] & 1))
                            if (y == std::get<0>(x)) ++want[std::get<2>(x)];
                for (auto &h : ws)
                    if (h.handler && h.to.count(i) && from && h.out.count(from - 1))
                        for (auto y : h.out[from - 1])
                            if (y == std::get<0>(x)) ++want[std::get<2>(x)], ++from_handlers;
            }
            for (auto &m : e.w->tr.steps[t].impacts[i])
                for (auto &x : m.impacts) --want[x.connection_index_];
            for (auto &x : want)
                if (x.second > 0) violation("output lost", "step %zu, projection %zu: %ld impact(s) of synapse %zu are missing", t, i, x.second, x.first);
                else if (x.second < 0) violation("output misdelivered", "step %zu, projection %zu: %ld impact(s) of synapse %zu too many", t, i, -x.second, x.first);
        }
    }
    observe(e.w->tr);
    if (delivered) sim::nontrivial();
    sim::probe("messages given to watchers", delivered);
    sim::probe("impacts caused by handlers", from_handlers);
    if (mt) sim::probe("runs on the multi-threaded backend");
}

// ---- C22 ----------------------------------------------------------------------------------------------------------
// A stream that fails after a number of bytes or flushes, with or without a buffer.
struct Sink : std::streambuf
{
    std::string text;
    size_t limit, syncs;
    bool throws;
    std::vector<char> buf;
    size_t failures = 0;
    Sink(size_t lim, size_t sync_limit, bool thr, size_t buffer) : limit(lim), syncs(sync_limit), throws(thr), buf(buffer)
    {
        if (buffer) setp(buf.data(), buf.data() + buffer);
    }
    bool fail()
    {
        ++failures;
        if (throws) throw std::runtime_error("stream failed");
        return false;
    }
    bool push(const char *p, size_t n)
    {
        size_t ok = std::min(n, limit - std::min(limit, text.size()));
        { Quiet q; text.append(p, ok); }
        return ok == n || fail();
    }
    bool empty_buffer()
    {
        size_t n = static_cast<size_t>(pptr() - pbase());
        if (buf.size()) setp(buf.data(), buf.data() + buf.size());
        return !n || push(buf.data(), n);
    }
    int overflow(int ch) override
    {
        if (!empty_buffer()) return traits_type::eof();
        if (ch == traits_type::eof()) return 0;
        if (buf.size()) { *pptr() = static_cast<char>(ch); pbump(1); return ch; }
        char x = static_cast<char>(ch);
        return push(&x, 1) ? ch : traits_type::eof();
    }
    int sync() override
    {
        if (!empty_buffer()) return -1;
        if (syncs && !--syncs) return fail() ? 0 : -1;
        return 0;
    }
};
void gen22(Rng &r, Case &c)
{
    GenOptions o;
    c.p["mt"] = r.chance(0.3);
    o.st_types = !c.p["mt"];
    o.learning = r.chance(0.8);
    gen_net(r, c, o);
    c.p["exact"] = r.chance(0.4);
    if (r.chance(0.04)) c.p["steps"] += r.range(40, 150);     // mostly silent steps at the end
    c.p["steps"] = std::min(c.p["steps"], 310l);
    gen_pieces(r, c);
    long n = r.range(1, r.chance(0.03) ? 14 : 4), far = c.p["steps"] > 24 && r.chance(0.5) ? c.p["steps"] : 5;
    for (long i = 0; i < n; ++i)
        c.op("log", {r.range(0, 3), static_cast<long>(r.below(r.chance(0.1) ? 1 << 17 : 1 << 9)), r.chance(0.5) ? 1 : r.range(1, far), r.chance(0.75) ? static_cast<long>(r.below(r.chance(0.5) ? 60 : 500)) : -1,
                     r.chance(0.2) ? r.range(1, 12) : 0, r.chance(0.25), r.chance(0.4) ? r.range(1, 32) : 0,
                     r.chance(0.4) ? r.range(2, c.p["steps"]) : 0});
}
struct Log
{
    int kind;
    long mask;
    size_t period;
    long limit;
    size_t syncs;
    bool throws;
    size_t buffer;
    size_t recover;      // step after which a failed stream works again
    size_t proj = 0;
    std::map<kc::UID, std::string> names;
};
struct Logged
{
    std::unique_ptr<Env> e;
    std::vector<std::unique_ptr<Sink>> sinks;
    std::vector<std::unique_ptr<std::ostream>> streams;
    std::vector<std::unique_ptr<std::map<std::string, size_t>>> acc;
    // (receiver, sender, resource, step) of every resource projection after every step
    std::map<size_t, std::map<size_t, std::vector<std::tuple<size_t, size_t, float, uint64_t>>>> weights;
    std::vector<std::map<size_t, size_t>> sizes;     // what each sink held when a step had ended, before it was logged
    std::vector<bool> recovered;
};
template <class P> void weights_of(P &, std::vector<std::tuple<size_t, size_t, float, uint64_t>> &) {}
void weights_of(kc::Projection<st::SynapticResourceSTDPDeltaSynapse> &p, std::vector<std::tuple<size_t, size_t, float, uint64_t>> &v)
{
    for (auto &x : p)
    {
        auto &rule = std::get<kc::synapse_data>(x).rule_;
        v.push_back({std::get<kc::target_neuron_id>(x), std::get<kc::source_neuron_id>(x), rule.synaptic_resource_, rule.last_spike_step_});
    }
}
std::unique_ptr<Logged> logged(const Spec &s, const Case &c, bool mt, const std::vector<Log> &logs, bool failing)
{
    auto r = std::make_unique<Logged>();
    r->e = std::make_unique<Env>(s, c, mt);
    Logged *me = r.get();
    r->e->w->dump_each = true;
    r->e->ex->add_observer<km::SpikeMessage>(
        [me, &logs](const std::vector<km::SpikeMessage> &)
        {
            Quiet q;
            size_t step = me->e->n.b->get_step(), i = 0;
            for (size_t k = 0; k < me->sinks.size(); ++k)
            {
                me->sizes[k][step] = me->sinks[k]->text.size();
                if (step != logs[k].recover || me->streams[k]->good()) continue;
                me->sinks[k]->limit = ~size_t(0), me->sinks[k]->syncs = 0;
                me->streams[k]->clear();
                me->recovered[k] = true;
            }
            me->e->n.each_proj([&](auto &p) { weights_of(p, me->weights[step][i++]); });
        },
        {pop_uid(0)});
    namespace mm = kf::monitoring::model;
    for (auto &l : logs)
    {
        bool f = failing && (l.limit >= 0 || l.syncs);
        r->sizes.emplace_back();
        r->recovered.push_back(false);
        r->sinks.push_back(std::make_unique<Sink>(f && l.limit >= 0 ? static_cast<size_t>(l.limit) : ~size_t(0), f ? l.syncs : 0, l.throws, l.buffer));
        r->streams.push_back(std::make_unique<std::ostream>(r->sinks.back().get()));
        r->acc.push_back(std::make_unique<std::map<std::string, size_t>>());
        std::ostream &o = *r->streams.back();
        switch (l.kind)
        {
            case 0: mm::add_spikes_logger(*r->e->ex, l.names, o); break;
            case 1: mm::add_aggregated_spikes_logger(*r->e->model, l.names, *r->e->ex, *r->acc.back(), o, l.period); break;
            case 2: mm::add_projection_weights_logger(o, *r->e->ex, proj_uid(l.proj), l.period); break;
            default: mm::add_status_logger(*r->e->ex, *r->e->model, o, l.period); break;
        }
    }
    r->e->run(pieces_of(c));
    for (auto &x : r->streams) x->flush();
    return r;
}
void run22(const Case &c)
{
    bool mt = c.P("mt", 0, 0, 1);
    Spec s = parse(c, mt);
    std::vector<Log> logs;
    for (auto &op : c.ops)
    {
        if (op.k != "log" || logs.size() >= 16) continue;
        Log l{static_cast<int>(op.idx(0, 4)), op.A(1), std::max<size_t>(1, op.idx(2, 320)), op.A(3), op.idx(4, 40), (op.A(5) & 1) != 0, op.idx(6, 64), op.idx(7, 320), 0, {}};
        if (l.recover) l.buffer = 0;
        for (size_t i = 0; i < s.pops.size(); ++i)
            if (l.mask >> i & 1) l.names[pop_uid(i)] = "pop" + std::to_string((i * 7 + 3) % 10 + i / 10 * 10);
        for (size_t i = 0; i < SENDERS; ++i)
            if (l.mask >> (6 + i) & 1) l.names[sender_uid(i)] = "input" + std::to_string(9 - i);
        if (l.kind == 2)
        {
            size_t p = static_cast<size_t>(l.mask) % std::max<size_t>(1, s.projs.size());
            if (s.projs.empty() || s.projs[p].type != RESOURCE) l.kind = 0;
            l.proj = p;
        }
        logs.push_back(l);
    }
    Env plain(s, c, mt);
    plain.w->dump_each = true;
    plain.run(pieces_of(c));
    auto good = logged(s, c, mt, logs, false);
    auto bad = logged(s, c, mt, logs, true);
    Quiet q;
    compare(s, plain.w->tr, good->e->w->tr, true, "the run without loggers", "the run with loggers");
    compare(s, plain.w->tr, bad->e->w->tr, true, "the run without loggers", "the run with failing loggers");
    Trace &tr = good->e->w->tr;
    size_t steps = good->e->n.b->get_step(), bytes = 0;
    // Messages of a named sender in a step.
    auto sent = [&](const kc::UID &u, size_t t)
    {
        std::vector<km::SpikeData> v;
        for (size_t i = 0; i < s.pops.size(); ++i)
            if (pop_uid(i) == u)
                for (auto &m : tr.steps[t].spikes[i]) v.push_back(m.neuron_indexes_);
        for (size_t i = 0; i < SENDERS; ++i)
            if (sender_uid(i) == u)
                for (auto &ev : s.events)
                    if (ev.kind == Event::SPIKES && ev.step == t && static_cast<size_t>(ev.a[0]) == i) v.push_back(good->e->w->indices(i, ev.a[1], ev.a[2] & 1));
        return v;
    };
    for (size_t k = 0; k < logs.size(); ++k)
    {
        Log &l = logs[k];
        const std::string &text = good->sinks[k]->text;
        bytes += text.size();
        std::istringstream in(text);
        std::string line;
        if (l.kind == 0)
        {
            std::map<std::string, std::vector<std::pair<size_t, std::string>>> want, got;
            for (auto &n : l.names)
                for (size_t t = 0; t < steps; ++t)
                    for (auto &d : sent(n.first, t))
                    {
                        std::string x;
                        for (auto i : d) x += std::to_string(i) + " ";
                        want[n.second].push_back({t, x});
                    }
            size_t last = 0;
            while (std::getline(in, line))
            {
                std::string who, idx;
                if (line.rfind("Step: ", 0) || !std::getline(in, who) || who.rfind("Sender: ", 0) || !std::getline(in, idx))
                    violation("spike log", "the log holds a record that is not a step, a sender and spikes: '%.40s'", line.c_str());
                size_t t = std::stoul(line.substr(6));
                if (t < last) violation("spike log", "step %zu is logged after step %zu", t, last);
                last = t;
                got[who.substr(8)].push_back({t, idx});
            }
            if (want != got) violation("spike log", "the log is not what was sent (%zu senders logged, %zu sent)", got.size(), want.size());
        }
        else if (l.kind == 1)
        {
            std::map<std::string, kc::UID> by_name;
            for (auto &n : l.names) by_name.emplace(n.second, n.first);
            std::string want = "Index";
            for (auto &n : by_name) want += ", " + n.first;
            want += "\n";
            std::map<std::string, size_t> sum;
            for (size_t step = 1; step <= steps; ++step)
            {
                if (step % l.period == 0)
                {
                    want += std::to_string(step);
                    for (auto &n : by_name) want += ", " + std::to_string(sum[n.first]);
                    want += "\n";
                    sum.clear();
                }
                for (auto &n : by_name)
                    for (auto &d : sent(n.second, step - 1)) sum[n.first] += d.size();
            }
            if (text != want) violation("aggregated log", "the log of %zu bytes is not the expected one of %zu bytes (period %zu)", text.size(), want.size(), l.period);
            for (auto &n : by_name)
                if ((*good->acc[k])[n.first] != sum[n.first]) violation("accumulator", "the counter of '%s' says %zu instead of %zu", n.first.c_str(), (*good->acc[k])[n.first], sum[n.first]);
        }
        else if (l.kind == 2)
        {
            std::map<size_t, std::map<size_t, std::vector<std::string>>> want, got;     // step, neuron, entries
            for (size_t step = l.period; step <= steps; step += l.period)
            {
                want[step];
                auto v = good->weights[step][l.proj];
                std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return std::make_pair(std::get<0>(a), std::get<1>(a)) < std::make_pair(std::get<0>(b), std::get<1>(b)); });
                for (auto &x : v)
                {
                    std::ostringstream os;
                    os << std::get<2>(x) << "|" << std::get<3>(x);
                    want[step][std::get<0>(x)].push_back(os.str());
                }
            }
            size_t step = 0, neuron = ~size_t(0), last_step = 0;
            while (std::getline(in, line))
            {
                if (line.empty()) continue;
                if (!line.rfind("Step: ", 0))
                {
                    step = std::stoul(line.substr(6)), neuron = ~size_t(0);
                    if (step <= last_step || got.count(step)) violation("weight log", "step %zu is logged after step %zu", step, last_step);
                    last_step = step;
                    got[step];
                }
                else if (!line.rfind("Neuron ", 0)) neuron = std::stoul(line.substr(7));
                else
                {
                    std::istringstream e(line);
                    std::string w;
                    while (e >> w) got[step][neuron].push_back(w);
                }
            }
            // Synapses between the same two neurons may appear in any order.
            for (auto &x : want)
                for (auto &y : x.second)
                {
                    std::vector<size_t> senders;
                    for (auto &v : good->weights[x.first][l.proj])
                        if (std::get<0>(v) == y.first) senders.push_back(std::get<1>(v));
                    std::sort(senders.begin(), senders.end());
                    for (size_t a = 0, b; a < senders.size(); a = b)
                    {
                        for (b = a; b < senders.size() && senders[b] == senders[a];) ++b;
                        for (auto *m : {&want, &got})
                        {
                            auto &e = (*m)[x.first][y.first];
                            if (e.size() == senders.size()) std::sort(e.begin() + static_cast<long>(a), e.begin() + static_cast<long>(b));
                        }
                    }
                }
            if (want != got) violation("weight log", "the log of projection %zu (period %zu) is not what its synapses held (%zu steps logged, %zu expected)", l.proj, l.period, got.size(), want.size());
        }
        else
        {
            std::string want;
            size_t sum = 0;
            for (size_t step = 1; step <= steps; ++step)
            {
                for (size_t i = 0; i < s.pops.size(); ++i) sum += tr.steps[step - 1].spikes[i].size();
                if (step % l.period) continue;
                if (sum) want += std::to_string(sum) + "\n";
                sum = 0;
            }
            if (text != want) violation("status log", "the log of %zu bytes is not the expected one of %zu bytes (period %zu)", text.size(), want.size(), l.period);
        }
        if (l.kind == 1 && *bad->acc[k] != *good->acc[k]) violation("accumulator", "counters of a logger whose stream failed differ from those of one whose stream did not");
        std::string part = bad->sinks[k]->text;
        if (bad->recovered[k])
        {
            // From then on it is logged what is logged to a stream that never failed.
            std::string rest = part.substr(bad->sizes[k][l.recover]), want = text.substr(std::min(text.size(), good->sizes[k][l.recover]));
            if (rest != want) violation("logging not resumed", "after step %zu, when the stream works again, logger %zu writes %zu bytes instead of %zu", l.recover, k, rest.size(), want.size());
            part.resize(bad->sizes[k][l.recover]);
            sim::probe("streams that recovered");
        }
        if (part.size() > text.size() || text.compare(0, part.size(), part)) violation("log not a prefix", "what logger %zu wrote to a failing stream (%zu bytes) is not a prefix of its log", k, part.size());
        if (bad->sinks[k]->failures) sim::probe("streams that failed");
        else if (!bad->recovered[k] && part.size() != text.size()) violation("log lost", "a stream that did not fail holds %zu bytes of %zu", part.size(), text.size());
    }
    sim::probe("bytes logged", bytes);
    observe(tr);
    if (bytes > 20) sim::nontrivial();
    if (mt) sim::probe("runs on the multi-threaded backend");
}

// ---- C27 ----------------------------------------------------------------------------------------------------------
enum { KWTA, GROUP, PER_GROUP, UNION, ADDED };
struct Wta
{
    int kind;
    size_t k;
    std::vector<size_t> borders;
    int seed;
    std::vector<size_t> from, to;
    kc::UID uid;
    size_t group(uint32_t x) const
    {
        size_t g = 0;
        for (auto b : borders) g += b <= x;
        return g;
    }
};
// Whether `out` is a possible answer to the messages `in`.
void check_winners(const Wta &w, const std::vector<km::SpikeData> &in, const km::SpikeData &out, size_t id, size_t step)
{
    std::set<uint32_t> all, got(out.begin(), out.end());
    for (auto &m : in) all.insert(m.begin(), m.end());
    if (got.size() != out.size()) violation("winner repeated", "handler %zu, step %zu: a spike was passed on twice", id, step);
    for (auto x : got)
        if (!all.count(x)) violation("winner invented", "handler %zu, step %zu: spike %u was passed on but not received", id, step, x);
    if (w.kind == UNION)
    {
        if (got != all) violation("union", "handler %zu, step %zu: %zu of %zu spikes were passed on", id, step, got.size(), all.size());
        return;
    }
    std::map<size_t, size_t> per, cand;
    for (auto x : got) ++per[w.group(x)];
    if (w.kind == KWTA && got.size() > w.k) violation("too many winners", "handler %zu, step %zu: %zu winners instead of %zu", id, step, got.size(), w.k);
    if (w.kind == GROUP && per.size() > w.k) violation("too many winners", "handler %zu, step %zu: %zu winning groups instead of %zu", id, step, per.size(), w.k);
    if (w.kind == PER_GROUP || w.kind == ADDED)
        for (auto &x : per)
            if (x.second > w.k) violation("too many winners", "handler %zu, step %zu: %zu winners of group %zu instead of %zu", id, step, x.second, x.first, w.k);
    if (in.size() != 1) return;        // which of several messages counts is not defined
    for (auto x : all) ++cand[w.group(x)];
    if (w.kind == KWTA && got.size() != std::min(w.k, all.size())) violation("winner missing", "handler %zu, step %zu: %zu winners out of %zu candidates, %zu allowed", id, step, got.size(), all.size(), w.k);
    if (w.kind == PER_GROUP || w.kind == ADDED)
        for (auto &x : cand)
            if (per[x.first] != std::min(w.k, x.second)) violation("winner missing", "handler %zu, step %zu: %zu winners of group %zu out of %zu candidates, %zu allowed", id, step, per[x.first], x.first, x.second, w.k);
    if (w.kind == GROUP)
    {
        if (per.size() != std::min(w.k, cand.size())) violation("winner missing", "handler %zu, step %zu: %zu groups won, %zu had spikes, %zu may win", id, step, per.size(), cand.size(), w.k);
        size_t least = ~size_t(0), most_lost = 0;
        for (auto &x : cand)
            if (per.count(x.first))
            {
                if (per[x.first] != x.second) violation("winner missing", "handler %zu, step %zu: group %zu won with %zu of %zu spikes", id, step, x.first, per[x.first], x.second);
                least = std::min(least, x.second);
            }
            else most_lost = std::max(most_lost, x.second);
        if (per.size() && most_lost > least) violation("wrong winner", "handler %zu, step %zu: a group with %zu spikes lost to one with %zu", id, step, most_lost, least);
    }
}
std::vector<Wta> wtas(const Case &c, size_t pops, size_t projs)
{
    std::vector<Wta> v;
    for (auto &op : c.ops)
    {
        if (op.k != "wta" || v.size() >= 12) continue;
        Wta w;
        w.kind = static_cast<int>(op.idx(0, 5));
        w.k = op.idx(1, 400);
        w.seed = static_cast<int>(op.A(2));
        for (size_t i = 0; i < 4; ++i)
            if (op.A(3) >> (5 * i) & 1) w.borders.push_back(static_cast<size_t>(op.A(3) >> (5 * i + 1) & 15));
        if (op.A(6))
        {
            Rng r(static_cast<uint64_t>(op.A(6)));
            size_t n = r.below(r.chance(0.7) ? 12 : 60);
            for (size_t i = 0; i < n; ++i) w.borders.push_back(r.below(600));
        }
        for (size_t i = 0; i < pops; ++i)
            if (op.A(4) >> i & 1) w.from.push_back(i);
        for (size_t i = 0; i < projs; ++i)
            if (op.A(5) >> i & 1) w.to.push_back(i);
        w.uid = uid(16, static_cast<unsigned>(v.size()));
        v.push_back(w);
    }
    return v;
}
void gen_wtas(Rng &r, Case &c)
{
    bool wide = r.chance(0.04);
    long n = r.range(1, wide ? 12 : 4);
    for (long i = 0; i < n; ++i)
        c.op("wta", {r.range(0, 4), r.chance(0.1) ? 0 : r.range(1, wide && r.chance(0.4) ? 300 : r.chance(0.3) ? 11 : 3), static_cast<long>(r.below(1u << 31)), static_cast<long>(r.below(1 << 20)),
                     r.chance(0.7) ? 1l << r.below(3) : static_cast<long>(r.below(8)), static_cast<long>(r.below(16)), wide ? static_cast<long>(1 + r.below(1 << 20)) : 0});
}
void gen27(Rng &r, Case &c)
{
    GenOptions o;
    c.p["mt"] = r.chance(0.4);
    o.st_types = !c.p["mt"];
    o.max_pop = 16;
    gen_net(r, c, o);
    gen_pieces(r, c);
    gen_wtas(r, c);
    c.p["entropy"] = static_cast<long>(r.below(1 << 30));
}
void run27(const Case &c)
{
    bool mt = c.P("mt", 0, 0, 1);
    Spec s = parse(c, mt);
    sim::set_entropy(static_cast<uint64_t>(c.P("entropy", 0, 0, 1l << 40)), 0);
    Env e(s, c, mt);
    auto ws = wtas(c, s.pops.size(), s.projs.size());
    auto ep = e.n.b->get_message_bus().create_endpoint();
    std::vector<Wta> again;
    for (auto &w : ws)
    {
        std::vector<kc::UID> from, to;
        for (auto i : w.from) from.push_back(pop_uid(i));
        for (auto i : w.to) to.push_back(proj_uid(i));
        namespace mo = kf::modifier;
        switch (w.kind)
        {
            case KWTA: e.ex->add_spike_message_handler(mo::KWtaRandomHandler(w.k, w.seed), from, to, w.uid); break;
            case GROUP: e.ex->add_spike_message_handler(mo::GroupWtaRandomHandler(w.borders, w.k, w.seed), from, to, w.uid); break;
            case PER_GROUP: e.ex->add_spike_message_handler(mo::KWtaPerGroup(w.borders, w.k, w.seed), from, to, w.uid); break;
            case UNION: e.ex->add_spike_message_handler(mo::SpikeUnionHandler(), from, to, w.uid); break;
            default:
            {
                // For one pair of lists, or for the same one twice.
                std::vector<std::pair<std::vector<kc::UID>, std::vector<kc::UID>>> lists(1 + (w.seed & 1), {from, to});
                auto r = kf::projection::add_wta_handlers(*e.ex, w.k, w.borders, lists);
                if (r.size() != lists.size()) violation("handlers added", "%zu handlers were added instead of %zu", r.size(), lists.size());
                w.uid = r[0];
                if (r.size() > 1) again.push_back(w), again.back().uid = r[1];
            }
        }
    }
    ws.insert(ws.end(), again.begin(), again.end());
    for (auto &w : ws) ep.subscribe<km::SpikeMessage>(obs_uid(200), {w.uid});
    e.run(pieces_of(c));
    e.n.b->get_message_bus().route_messages();
    ep.receive_all_messages();
    auto out = ep.unload_messages<km::SpikeMessage>(obs_uid(200));
    Quiet q;
    std::map<std::pair<size_t, size_t>, km::SpikeData> sent;
    for (auto &m : out)
        for (size_t i = 0; i < ws.size(); ++i)
            if (ws[i].uid == m.header_.sender_uid_)
                if (!sent.insert({{i, m.header_.send_time_}, m.neuron_indexes_}).second)
                    violation("two answers", "handler %zu sent two messages after step %zu", i, static_cast<size_t>(m.header_.send_time_) - 1);
    size_t contests = 0;
    for (size_t t = 0; t < e.n.b->get_step(); ++t)
        for (size_t i = 0; i < ws.size(); ++i)
        {
            std::vector<km::SpikeData> in;
            for (auto p : ws[i].from)
                for (auto &m : e.w->tr.steps[t].spikes[p]) in.push_back(m.neuron_indexes_);
            auto it = sent.find({i, t + 1});
            check_winners(ws[i], in, it == sent.end() ? km::SpikeData{} : it->second, i, t);
            if (it != sent.end())
            {
                sent.erase(it);
                ++contests;
            }
        }
    if (sent.size()) violation("answer to nothing", "handler %zu sent a message stamped %zu", sent.begin()->first.first, sent.begin()->first.second);
    observe(e.w->tr);
    if (contests) sim::nontrivial();
    sim::probe("contests", contests);
}
// Long histories of messages, without a network.
void gen27b(Rng &r, Case &c)
{
    gen_wtas(r, c);
    bool wide = r.chance(0.04), wider = wide && r.chance(0.3);          // messages of hundreds of spikes
    long n = r.range(1, wider ? 4 : 20);
    for (long i = 0; i < n; ++i)
        c.op("msg", {static_cast<long>(r.next() >> (r.chance(0.3) ? 30 : 44)), r.chance(wider ? 0.6 : 0.1) ? r.range(2, 4) : r.chance(0.05) ? 0 : 1, static_cast<long>(r.below(1 << 20)),
                     wide ? r.range(20, wider ? 5000 : 800) : 0});
}
void run27b(const Case &c)
{
    auto ws = wtas(c, 1, 1);
    size_t contests = 0;
    for (size_t i = 0; i < ws.size(); ++i)
    {
        Wta &w = ws[i];
        if (w.kind == ADDED) w.kind = PER_GROUP;
        namespace mo = kf::modifier;
        mo::KWtaRandomHandler kwta(w.k, w.seed);
        mo::GroupWtaRandomHandler group(w.borders, w.k, w.seed);
        mo::KWtaPerGroup per(w.borders, w.k, w.seed);
        mo::SpikeUnionHandler uni;
        size_t step = 0;
        for (auto &op : c.ops)
        {
            if (op.k != "msg") continue;
            std::vector<km::SpikeMessage> in;
            std::vector<km::SpikeData> copy;
            for (size_t k = 0; k < op.idx(1, 5); ++k)
            {
                km::SpikeMessage m;
                for (uint32_t x = 0; x < 20; ++x)
                    if ((op.A(0) ^ (k ? op.A(2) : 0)) >> x & 1) m.neuron_indexes_.push_back(x);
                for (uint32_t x = 20; x < op.idx(3, 5001); ++x)
                    if (mix(static_cast<uint64_t>(op.A(0)), x, k) & 1) m.neuron_indexes_.push_back(x);
                // in some order
                for (size_t a = m.neuron_indexes_.size(); a > 1; --a) std::swap(m.neuron_indexes_[a - 1], m.neuron_indexes_[mix(static_cast<uint64_t>(op.A(2)), a) % a]);
                copy.push_back(m.neuron_indexes_);
                in.push_back(m);
            }
            km::SpikeData out = w.kind == KWTA ? kwta(in) : w.kind == GROUP ? group(in) : w.kind == PER_GROUP ? per(in) : uni(in);
            Quiet q;
            check_winners(w, copy, out, i, step++);
            for (auto x : out) sim::obs(x);
            contests += out.size() > 0;
        }
    }
    if (contests) sim::nontrivial();
    sim::probe("contests", contests);
}

const char *const REAL = "model executor, observers, message handlers, loggers, winner-take-all handlers, both CPU backends with thread pool, bus and endpoints";
const char *const STUB = "thread scheduling, entropy source and output streams (simulator)";
sim::Register r20({"C20", "observers_and_handlers", 1, gen20, run20,
                   "Observers of spikes and impacts and message handlers with random senders and receivers, added before the run and between its pieces; every call, every message given and "
                   "every impact caused by handler output is compared with what was sent. Non-trivial when messages were given to somebody.",
                   REAL, STUB, 0, 0});
sim::Register r22({"C22", "loggers", 1, gen22, run22,
                   "Spike, aggregated, weight and status loggers on sound streams (log compared with an independent account) and on streams that fail at a random byte or flush (log must be a "
                   "prefix); both runs must equal one without loggers. Non-trivial when something was logged.",
                   REAL, STUB, 0, 0});
sim::Register r27({"C27", "winners_in_runs", 1, gen27, run27,
                   "Winner-take-all and union handlers attached to runs of random networks; every answer is checked against the messages of its step. Non-trivial when a handler answered.",
                   REAL, STUB, 0, 0});
sim::Register r27b({"C27", "winners_of_histories", 1, gen27b, run27b,
                    "The same handlers called with random message histories directly. Non-trivial when a handler answered.", "message handlers", "random choices come from seeded engines", 0, 0});
}  // namespace
