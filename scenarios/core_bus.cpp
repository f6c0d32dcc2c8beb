// C01, C02, C03, C05: message histories over the bus against a timeline model. C04 (and the concurrent half of C02): threads.
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <thread>

#include "common.h"

using namespace common;
using sim::Case;
using sim::Op;
using sim::Quiet;
using sim::Rng;
using sim::violation;

namespace
{
constexpr int EPS = 40, RECV = 40, SENDERS = 60;
long sender_mask(Rng &r, int nsend) { return static_cast<long>((r.chance(0.15) ? ~0ull : r.next()) & ((1ull << nsend) - 1)) | 1L << r.range(0, nsend - 1); }
constexpr long NEVER = 1L << 60;

kc::UID sender_uid(size_t i) { return uid(1, static_cast<unsigned>(i)); }
// Half of the receivers send messages as well, as projections do.
kc::UID recv_uid(size_t i) { return i % 2 == 0 ? sender_uid(i) : uid(4, static_cast<unsigned>(i)); }

struct Span
{
    long from, to;
};
// Times at which a set lists each sender.
struct Hold
{
    std::vector<Span> spans[SENDERS];
    bool now[SENDERS] = {};
    void add(size_t s, long t)
    {
        if (now[s]) return;
        now[s] = true;
        spans[s].push_back({t, NEVER});
    }
    void drop(size_t s, long t)
    {
        if (!now[s]) return;
        now[s] = false;
        spans[s].back().to = t;
    }
    bool throughout(size_t s, long a, long b) const
    {
        for (auto &x : spans[s])
            if (x.from <= a && b < x.to) return true;
        return false;
    }
    bool ever(size_t s, long a, long b) const
    {
        for (auto &x : spans[s])
            if (x.from <= b && a < x.to) return true;
        return false;
    }
};
struct Msg
{
    int id, type;
    size_t sender, size;
    int ep;
    long sent, routed = NEVER;
    bool ep_gone = false;    // its endpoint was destroyed before routing: unspecified
    bool lossy = false;      // routed while failures were injected: at most once
    size_t seq;
};
struct Sub
{
    int ep, type;
    size_t recv;
    Hold hold;
    long created;
    std::map<int, int> got;          // message id -> times delivered
    std::vector<int> content;        // delivered and not yet unloaded
    std::map<std::pair<size_t, int>, long> last;   // latest message per (sender, sending endpoint)
    bool live = true;
};
struct Ep
{
    std::unique_ptr<kc::MessageEndpoint> e;
    int id;
    long created, destroyed = NEVER;
    Hold all;                        // union of its subscriptions' lists (may over-approximate after tainting)
    std::vector<std::pair<long, long>> drains;   // (time, messages taken) of complete receives
    long taken = 0;
    bool tainted[SENDERS] = {};      // direct removal or a failed subscribe: the union is uncertain
    std::vector<std::unique_ptr<Sub>> subs;
    std::set<int> resolved;          // messages whose taking is settled (drained)
};

struct Model
{
    bool zmq = false, check_order = false, check_endings = false;
    std::shared_ptr<kc::MessageBus> bus;
    std::vector<std::unique_ptr<Ep>> eps;       // all ever created
    int slot[EPS];
    std::vector<Msg> msgs;
    long t = 0;
    bool any_lossy = false;
    long delivered = 0;
    size_t next_seq = 0;

    Model() { std::fill(slot, slot + EPS, -1); }
    Ep *ep(size_t s) { return slot[s] < 0 ? nullptr : eps[static_cast<size_t>(slot[s])].get(); }
    Sub *find(Ep *e, int type, size_t r)
    {
        for (auto &s : e->subs)
            if (s->live && s->type == type && s->recv == r) return s.get();
        return nullptr;
    }
    // Times between which message m, routed at m.routed, can have been taken by e.
    long drained_after(const Ep *e, long t0) const
    {
        for (auto &d : e->drains)
            if (d.first > t0) return d.first;
        return NEVER;
    }

    template <class MT>
    const std::vector<MT> *messages_of(Ep *e, size_t r)
    {
        constexpr size_t index = kc::MessageEndpoint::get_type_index<km::MessageVariant, MT>;
        auto &subs = e->e->get_endpoint_subscriptions();
        auto it = subs.find(std::make_pair(index, recv_uid(r)));
        if (it == subs.end()) return nullptr;
        return &std::get<index>(it->second).get_messages();
    }

    template <class MT>
    void check_message(const MT &m, int type, Sub *s, int &id)
    {
        id = static_cast<int>(m.header_.send_time_);
        if (id < 0 || static_cast<size_t>(id) >= msgs.size()) violation("foreign message", "a subscription holds a message that was never sent");
        Msg &x = msgs[static_cast<size_t>(id)];
        if (x.type != type) violation("wrong type", "message %d of type %d is in a subscription of type %d", id, x.type, type);
        bool ok;
        if constexpr (std::is_same_v<MT, km::SpikeMessage>) ok = same(m, make_spikes(static_cast<unsigned>(x.sender), static_cast<uint64_t>(id), x.size));
        else ok = same(m, make_impacts(static_cast<unsigned>(x.sender), static_cast<uint64_t>(id), x.size));
        if (!ok) violation("message changed", "message %d arrived with different contents", id);
        if (x.routed == NEVER) violation("delivered without routing", "message %d is in a subscription before it was routed", id);
        (void)s;
    }

    // Compares a subscription's real contents with what it held before; new messages must be appended at the end.
    template <class MT>
    void sync_sub(Ep *e, Sub *s, bool may_grow, const std::vector<MT> &real)
    {
        if (real.size() < s->content.size()) violation("messages vanished", "a subscription holds %zu message(s), %zu expected", real.size(), s->content.size());
        if (!may_grow && real.size() != s->content.size())
            violation("delivered outside receive", "a subscription grew from %zu to %zu messages without a receive", s->content.size(), real.size());
        for (size_t i = 0; i < real.size(); ++i)
        {
            int id = -1;
            check_message(real[i], s->type, s, id);
            if (i < s->content.size())
            {
                if (s->content[i] != id) violation("held messages changed", "message %d was replaced by message %d in a subscription", s->content[i], id);
                continue;
            }
            if (e->resolved.count(id)) violation("late delivery", "message %d delivered again after the endpoint had drained its queue", id);
            Msg &m = msgs[static_cast<size_t>(id)];
            // Delivery is legal only if the sender was listed at some time since routing.
            long from = std::max(m.routed, s->created);
            if (!s->hold.ever(m.sender, from, t))
                violation("delivered without interest", "message %d of sender %zu delivered to receiver %zu which does not list that sender", id, m.sender, s->recv);
            if (++s->got[id] > 1) violation("duplicate delivery", "message %d delivered %d times to receiver %zu", id, s->got[id], s->recv);
            if (check_order)
            {
                auto &last = s->last[{m.sender, m.ep}];
                if (last > static_cast<long>(m.seq))
                    violation("order reversed", "message %d of sender %zu arrived after a message which was sent later", id, m.sender);
                last = static_cast<long>(m.seq);
            }
            s->content.push_back(id);
            ++delivered;
            sim::obs(static_cast<uint64_t>(id) * 31 + s->recv);
        }
    }
    void sync(bool may_grow, Ep *only = nullptr)
    {
        Quiet q;
        for (size_t k = 0; k < EPS; ++k)
        {
            Ep *e = ep(k);
            if (!e) continue;
            size_t live = 0;
            for (auto &s : e->subs)
            {
                if (!s->live) continue;
                ++live;
                bool grow = may_grow && (!only || only == e);
                if (s->type == 0)
                {
                    auto *v = messages_of<km::SpikeMessage>(e, s->recv);
                    if (!v) violation("subscription lost", "the spike subscription of receiver %zu disappeared", s->recv);
                    sync_sub(e, s.get(), grow, *v);
                }
                else
                {
                    auto *v = messages_of<km::SynapticImpactMessage>(e, s->recv);
                    if (!v) violation("subscription lost", "the impact subscription of receiver %zu disappeared", s->recv);
                    sync_sub(e, s.get(), grow, *v);
                }
            }
            if (e->e->get_endpoint_subscriptions().size() != live)
                violation("wrong subscriptions", "an endpoint has %zu subscription(s), %zu expected", e->e->get_endpoint_subscriptions().size(), live);
        }
    }
    void retaint(Ep *e)
    {
        for (size_t s = 0; s < SENDERS; ++s)
        {
            bool any = e->tainted[s];
            for (auto &sub : e->subs) any = any || (sub->live && sub->hold.now[s]);
            if (any) e->all.add(s, t);
            else e->all.drop(s, t);
        }
    }
    void end_sub(Sub *s)
    {
        for (size_t i = 0; i < SENDERS; ++i) s->hold.drop(i, t);
        s->live = false;
    }

    // Messages endpoint e must / may take from its queue in a complete receive at time t.
    void check_drain(Ep *e, long taken)
    {
        Quiet q;
        long lo = 0, hi = 0;
        for (auto &m : msgs)
        {
            if (m.routed == NEVER || (m.routed < e->created && !m.lossy) || e->resolved.count(m.id)) continue;
            bool must = false;
            for (auto &s : e->subs)
                if (s->live && s->type == m.type && s->hold.throughout(m.sender, m.sent, t) && !m.lossy) must = true;
            bool may = zmq || (check_endings ? e->all.ever(m.sender, m.sent, t) : true);
            lo += must;
            hi += may;
            for (auto &s : e->subs)
                if (s->live && s->type == m.type && s->hold.throughout(m.sender, m.sent, t) && !m.lossy && s->got[m.id] != 1)
                    violation("message lost", "message %d of sender %zu was routed and received but is not in the subscription of receiver %zu", m.id, m.sender, s->recv);
            if (!m.lossy) e->resolved.insert(m.id);
        }
        lo -= e->taken;   // single receives since the last drain
        hi -= e->taken;
        if (taken > hi) violation("takes messages nobody wants", "a receive took %ld message(s), at most %ld are of interest to the endpoint", taken, hi);
        if (taken < lo) violation("wrong receive count", "a receive reported %ld message(s), at least %ld were due", taken, lo);
        e->taken = 0;
        e->drains.push_back({t, taken});
    }
    void drain(Ep *e)
    {
        ++t;
        long n;
        {
            n = static_cast<long>(e->e->receive_all_messages());
        }
        sync(true, e);
        check_drain(e, n);
        sim::obs(static_cast<uint64_t>(n));
    }
    void route(bool lossy)
    {
        ++t;
        long lo = 0, hi = 0;
        auto quiet = std::make_unique<Quiet>();
        for (auto &m : msgs)
            if (m.routed == NEVER)
            {
                ++hi;
                if (!m.ep_gone) ++lo;
            }
        // The messages count as routed before the call so that failures inside it leave them in either state.
        for (auto &m : msgs)
            if (m.routed == NEVER)
            {
                m.routed = t;
                if (lossy || m.ep_gone) m.lossy = true;
            }
        quiet.reset();
        size_t n = bus->route_messages();
        if (!zmq && !any_lossy && (static_cast<long>(n) < lo || static_cast<long>(n) > hi))
            violation("wrong route count", "routing reported %zu message(s), %ld were waiting", n, lo);
        sim::obs(n);
        sync(false);
    }
    template <class MT>
    void unload(Ep *e, int type, size_t r)
    {
        Sub *s = find(e, type, r);
        std::vector<MT> got = e->e->unload_messages<MT>(recv_uid(r));
        if (!s)
        {
            if (!got.empty()) violation("messages without subscription", "unloading for receiver %zu without a subscription returned %zu message(s)", r, got.size());
            return;
        }
        sync_sub(e, s, false, got);
        s->content.clear();
        if (auto *v = messages_of<MT>(e, r); v && !v->empty()) violation("messages kept", "messages remain in a subscription after unloading");
    }
};

void gen_history(Rng &r, Case &c, int kind)
{
    bool endings = kind == 3;
    // A few histories have many endpoints, senders or receivers.
    bool wide = r.chance(0.03);
    int neps = static_cast<int>(r.range(1, r.chance(0.03) ? 12 : wide && r.chance(0.4) ? EPS : 5));
    int nsend = static_cast<int>(r.range(1, wide && r.chance(0.6) ? SENDERS : 6)), nrecv = static_cast<int>(r.range(1, wide && r.chance(0.6) ? RECV : 4));
    c.p["alloc"] = kind == 1 && r.chance(0.4) ? r.range(5, 150) : 0;
    c.p["lossy"] = kind == 1 && r.chance(0.2);
    bool big = kind == 5 && r.chance(0.06);
    c.p["backlog"] = big ? r.range(1000, 2600) : 0;
    for (int e = 0; e < neps; ++e) c.op("create", {e});
    int presub = static_cast<int>(r.range(1, wide ? 2 * nrecv + 6 : 6));
    bool one = wide && r.chance(0.5);
    for (int i = 0; i < presub; ++i) c.op("sub", {one ? 0 : r.range(0, neps - 1), r.range(0, 1), r.range(0, nrecv - 1), sender_mask(r, nsend)});
    int n = static_cast<int>(r.range(5, r.chance(0.7) ? 40 : 120));
    bool tiny = r.chance(0.3), large = !wide && r.chance(0.02);
    int burst = r.chance(0.012) ? static_cast<int>(r.range(0, n - 1)) : -1;
    for (int i = 0; i < n; ++i)
    {
        double u = r.unit();
        long e = r.range(0, neps - 1), ty = tiny ? 0 : r.range(0, 1), rv = r.range(0, nrecv - 1), sd = r.range(0, nsend - 1);
        if (i == burst) c.op("burst", {e, ty, sd, r.chance(0.5) ? r.range(60, 140) : wide ? 60 : r.range(200, r.chance(0.2) ? 2100 : 600)});
        if (u < 0.38)
        {
            long k = r.chance(0.2) ? r.range(2, 6) : 1;
            for (long j = 0; j < k; ++j) c.op("send", {e, ty, sd, r.chance(0.2) ? 0 : large ? r.range(60, r.chance(0.1) ? 5000 : 700) : r.range(1, 6)});
        }
        else if (u < 0.52) c.op("route");
        else if (u < 0.60) c.op("recv1", {e});
        else if (u < 0.70) c.op("recvall", {e});
        else if (u < 0.78) c.op("unload", {e, ty, rv});
        else if (u < (endings ? 0.82 : 0.86)) c.op("sub", {e, ty, rv, sender_mask(r, nsend)});
        else if (endings && u < 0.88) c.op("unsub", {e, ty, rv});
        else if (endings && u < 0.92) c.op("rmrecv", {e, rv});
        else if (endings && u < 0.94) c.op("rmsender", {e, ty, rv, sd});
        else if (u < 0.955) c.op("destroy", {e});
        else if (u < 0.975) c.op("create", {e});
        else if (u < 0.985) c.op("move", {e});
        else c.op("send", {e, 1 - ty, sd, r.range(0, 30)});
    }
    if (big)
    {
        long e = r.range(0, neps - 1), sd = r.range(0, nsend - 1);
        c.op("flood", {e, sd});
    }
}
void gen01(Rng &r, Case &c) { gen_history(r, c, 1); }
void gen02(Rng &r, Case &c) { gen_history(r, c, 2); }
void gen03(Rng &r, Case &c) { gen_history(r, c, 3); }
void gen05(Rng &r, Case &c) { gen_history(r, c, 5); }

void run_history(const Case &c, int kind)
{
    Model m;
    m.zmq = kind == 5;
    m.check_order = kind == 2 || kind == 5;
    m.check_endings = kind == 3;
    double palloc = static_cast<double>(c.P("alloc", 0, 0, 300)) / 1000.0;
    bool lossy = c.P("lossy", 0, 0, 1) && palloc > 0;
    m.any_lossy = lossy;
    m.bus = m.zmq ? kc::MessageBus::construct_zmq_bus() : kc::MessageBus::construct_cpu_bus();
    long sent = 0;

    auto send = [&](Ep *e, int type, size_t sd, size_t size)
    {
        ++m.t;
        Msg x{static_cast<int>(m.msgs.size()), type, sd, size, e->id, m.t, NEVER, false, false, m.next_seq++};
        km::MessageVariant v = type == 0 ? km::MessageVariant(make_spikes(static_cast<unsigned>(sd), static_cast<uint64_t>(x.id), size))
                                         : km::MessageVariant(make_impacts(static_cast<unsigned>(sd), static_cast<uint64_t>(x.id), size));
        try
        {
            sim::AllocFaults f(palloc);
            e->e->send_message(v);
        }
        catch (const std::bad_alloc &)
        {
            sim::probe("send failed");
            return;
        }
        m.msgs.push_back(x);
        ++sent;
    };

    // What happens to the messages that were in transit when memory ran out is not specified (a queue may be half moved):
    // the bus and the endpoints only have to stay usable.
    auto aftermath = [&]
    {
        sim::NoAllocFaults quiet;
        m.bus->route_messages();
        for (auto &x : m.eps)
            if (x->e) x->e->receive_all_messages();
        if (m.bus->route_messages() != 0) violation("wrong route count", "routing with nothing waiting reported messages");
        for (auto &x : m.eps) x->e.reset();
    };

    for (auto &op : c.ops)
    {
        size_t k = op.idx(0, EPS);
        Ep *e = m.ep(k);
        int type = static_cast<int>(op.idx(1, 2));
        size_t r = op.idx(2, RECV);
        ++m.t;
        if (op.k == "create")
        {
            if (e) continue;
            auto ne = std::make_unique<Ep>();
            ne->e = std::make_unique<kc::MessageEndpoint>(m.bus->create_endpoint());
            ne->id = static_cast<int>(m.eps.size());
            ne->created = m.t;
            m.slot[k] = ne->id;
            m.eps.push_back(std::move(ne));
        }
        else if (op.k == "route")
        {
            if (lossy)
            {
                sim::AllocFaults f(palloc);
                try
                {
                    m.route(true);
                }
                catch (const std::bad_alloc &)
                {
                    sim::probe("routing failed");
                    return aftermath();
                }
            }
            else m.route(false);
        }
        else if (!e) continue;
        else if (op.k == "destroy")
        {
            for (auto &x : m.msgs)
                if (x.routed == NEVER && x.ep == e->id) x.ep_gone = true;
            for (auto &s : e->subs) m.end_sub(s.get());
            e->destroyed = m.t;
            e->e.reset();
            m.slot[k] = -1;
            m.sync(false);
        }
        else if (op.k == "move")
        {
            e->e = std::make_unique<kc::MessageEndpoint>(std::move(*e->e));
            m.sync(false);
        }
        else if (op.k == "sub")
        {
            std::vector<kc::UID> list;
            std::vector<size_t> ids;
            for (size_t s = 0; s < SENDERS; ++s)
                if (op.A(3) >> s & 1)
                {
                    list.push_back(sender_uid(s));
                    ids.push_back(s);
                }
            Sub *s = m.find(e, type, r);
            bool failed = false;
            try
            {
                sim::AllocFaults f(palloc);
                if (type == 0)
                {
                    auto &x = e->e->subscribe<km::SpikeMessage>(recv_uid(r), list);
                    if (x.get_receiver_uid() != recv_uid(r)) violation("wrong subscription", "subscribe returned a subscription of another receiver");
                }
                else
                {
                    auto &x = e->e->subscribe<km::SynapticImpactMessage>(recv_uid(r), list);
                    if (x.get_receiver_uid() != recv_uid(r)) violation("wrong subscription", "subscribe returned a subscription of another receiver");
                }
            }
            catch (const std::bad_alloc &)
            {
                failed = true;
                sim::probe("subscribe failed");
            }
            auto read = [&](auto type_tag) -> const std::unordered_set<kc::UID, kc::uid_hash> *
            {
                using MT = decltype(type_tag);
                constexpr size_t index = kc::MessageEndpoint::get_type_index<km::MessageVariant, MT>;
                auto &subs = e->e->get_endpoint_subscriptions();
                auto it = subs.find(std::make_pair(index, recv_uid(r)));
                if (it == subs.end()) return nullptr;
                return &std::get<index>(it->second).get_senders();
            };
            auto *set = type == 0 ? read(km::SpikeMessage{}) : read(km::SynapticImpactMessage{});
            if (!failed && !set) violation("subscription lost", "subscribe did not create the subscription");
            if (set)
            {
                if (!s)
                {
                    e->subs.push_back(std::make_unique<Sub>());
                    s = e->subs.back().get();
                    s->ep = e->id;
                    s->type = type;
                    s->recv = r;
                    s->created = m.t;
                }
                size_t listed = 0;
                for (size_t i = 0; i < SENDERS; ++i)
                {
                    bool asked = std::find(ids.begin(), ids.end(), i) != ids.end();
                    bool real = set->count(sender_uid(i)) != 0;
                    listed += real;
                    if (real && !asked && !s->hold.now[i]) violation("wrong sender list", "sender %zu appeared in a list nobody added it to", i);
                    if (!real && (s->hold.now[i] || (asked && !failed))) violation("wrong sender list", "sender %zu is missing from a subscription's list", i);
                    if (real) s->hold.add(i, m.t);
                }
                if (listed != set->size()) violation("wrong sender list", "a subscription lists unknown senders");
            }
            else if (s) violation("subscription lost", "a failed subscribe removed the subscription of receiver %zu", r);
            if (failed)
                for (size_t i : ids) e->tainted[i] = true;
            m.retaint(e);
            m.sync(false);
        }
        else if (op.k == "unsub")
        {
            if (m.zmq) continue;
            Sub *s = m.find(e, type, r);
            bool had = type == 0 ? e->e->unsubscribe<km::SpikeMessage>(recv_uid(r)) : e->e->unsubscribe<km::SynapticImpactMessage>(recv_uid(r));
            if (had != (s != nullptr)) violation("wrong unsubscribe result", "unsubscribe returned %d for receiver %zu, subscription %s", had, r, s ? "existed" : "did not exist");
            if (s) m.end_sub(s);
            m.retaint(e);
            m.sync(false);
        }
        else if (op.k == "rmrecv")
        {
            size_t rr = op.idx(1, RECV);
            e->e->remove_receiver(recv_uid(rr));
            for (auto &s : e->subs)
                if (s->live && s->recv == rr) m.end_sub(s.get());
            m.retaint(e);
            m.sync(false);
        }
        else if (op.k == "rmsender")
        {
            size_t sd = op.idx(3, SENDERS);
            Sub *s = m.find(e, type, r);
            if (!s) continue;
            // The subscription object is reached by subscribing the receiver to nothing more.
            size_t n = type == 0 ? e->e->subscribe<km::SpikeMessage>(recv_uid(r), {}).remove_sender(sender_uid(sd))
                                 : e->e->subscribe<km::SynapticImpactMessage>(recv_uid(r), {}).remove_sender(sender_uid(sd));
            if ((n != 0) != s->hold.now[sd]) violation("wrong remove result", "remove_sender returned %zu", n);
            s->hold.drop(sd, m.t);
            e->tainted[sd] = true;   // what the endpoint then takes and drops is unspecified
            m.retaint(e);
            m.sync(false);
        }
        else if (op.k == "send") send(e, type, op.idx(2, SENDERS), op.idx(3, 8192));
        else if (op.k == "burst")
            for (size_t i = 0, n = op.idx(3, 8192); i < n; ++i) send(e, type, op.idx(2, SENDERS), i % 3);
        else if (op.k == "flood")
        {
            long n = c.P("backlog", 0, 0, 5000);
            m.find(e, 0, 0);
            for (long i = 0; i < n; ++i) send(e, 0, op.idx(1, SENDERS), 1);
            sim::probe("backlog beyond the default high-water mark", n > 1000);
        }
        else if (op.k == "recv1")
        {
            bool got;
            ++m.t;
            if (lossy)
            {
                for (auto &x : m.msgs)
                    if (x.routed != NEVER) x.lossy = true;
                sim::AllocFaults f(palloc);
                try
                {
                    got = e->e->receive_message();
                }
                catch (const std::bad_alloc &)
                {
                    sim::probe("receive failed");
                    return aftermath();
                }
            }
            else got = e->e->receive_message();
            if (got) ++e->taken;
            m.sync(true, e);
        }
        else if (op.k == "recvall") m.drain(e);
        else if (op.k == "unload")
        {
            if (type == 0) m.unload<km::SpikeMessage>(e, type, r);
            else m.unload<km::SynapticImpactMessage>(e, type, r);
            m.sync(false);
        }
    }
    m.route(false);
    if (!m.zmq && m.bus->route_messages() != 0) violation("wrong route count", "routing with nothing waiting reported messages");
    for (size_t k = 0; k < EPS; ++k)
        if (Ep *e = m.ep(k))
        {
            m.drain(e);
            if (e->e->receive_message()) violation("takes messages nobody wants", "a message appeared after the queue was drained");
            for (auto &s : e->subs)
                if (s->live)
                {
                    if (s->type == 0) m.unload<km::SpikeMessage>(e, 0, s->recv);
                    else m.unload<km::SynapticImpactMessage>(e, 1, s->recv);
                }
        }
    if (m.delivered > 1 && sent > 2) sim::nontrivial();
    for (auto &e : m.eps) e->e.reset();
}
void run01(const Case &c) { run_history(c, 1); }
void run02(const Case &c) { run_history(c, 2); }
void run03(const Case &c) { run_history(c, 3); }
void run05(const Case &c) { run_history(c, 5); }

// ---- concurrent bus -------------------------------------------------------------------------------------------------
void gen_conc(Rng &r, Case &c)
{
    bool wide = r.chance(0.02);
    int neps = static_cast<int>(r.range(1, wide ? 16 : 4)), nsend = static_cast<int>(r.range(1, wide ? 16 : 4));
    c.p["eps"] = neps;
    c.p["routers"] = r.range(0, 2);
    c.p["router_laps"] = r.range(1, 8);
    c.p["receivers"] = r.range(0, (1L << neps) - 1);   // which endpoints have a receiver thread
    c.p["recv_laps"] = r.range(1, 8);
    c.p["churn"] = r.chance(0.5) ? r.range(1, 5) : 0;
    for (int s = 0; s < nsend; ++s)
        c.op("sender", {r.range(0, neps - 1), r.chance(0.01) ? r.range(70, 300) : r.range(1, r.chance(0.7) ? 6 : 16), r.range(0, 2), r.range(0, 3)});
    int nsub = static_cast<int>(r.range(1, wide ? 40 : 6));
    for (int i = 0; i < nsub; ++i) c.op("sub", {r.range(0, neps - 1), r.range(0, 1), r.range(0, wide ? 19 : 3), sender_mask(r, nsend)});
}

void run_conc(const Case &c, bool order_only)
{
    auto bus = kc::MessageBus::construct_cpu_bus();
    size_t neps = static_cast<size_t>(c.P("eps", 2, 1, 20));
    std::vector<kc::MessageEndpoint> eps;
    for (size_t i = 0; i < neps; ++i) eps.push_back(bus->create_endpoint());
    struct Sub
    {
        size_t ep;
        int type;
        size_t recv;
        std::set<size_t> senders;
    };
    std::vector<Sub> subs;
    struct Sender
    {
        size_t ep, n;
        int mode;
        size_t size;
        size_t first;
    };
    std::vector<Sender> senders;
    size_t total = 0;
    for (auto &op : c.ops)
        if (op.k == "sender" && senders.size() < SENDERS)
        {
            size_t n = op.idx(1, 512);
            senders.push_back({op.idx(0, neps), n, static_cast<int>(op.idx(2, 3)), op.idx(3, 8), total});
            total += n;
        }
    for (auto &op : c.ops)
        if (op.k == "sub")
        {
            Sub s{op.idx(0, neps), static_cast<int>(op.idx(1, 2)), op.idx(2, RECV), {}};
            std::vector<kc::UID> list;
            for (size_t k = 0; k < senders.size(); ++k)
                if (op.A(3) >> k & 1)
                {
                    s.senders.insert(k);
                    list.push_back(sender_uid(k));
                }
            if (s.type == 0) eps[s.ep].subscribe<km::SpikeMessage>(recv_uid(s.recv), list);
            else eps[s.ep].subscribe<km::SynapticImpactMessage>(recv_uid(s.recv), list);
            bool merged = false;
            for (auto &o : subs)
                if (o.ep == s.ep && o.type == s.type && o.recv == s.recv)
                {
                    o.senders.insert(s.senders.begin(), s.senders.end());
                    merged = true;
                }
            if (!merged) subs.push_back(s);
        }
    // Message id -> type.
    auto type_of = [](const Sender &s, size_t i) { return s.mode == 2 ? static_cast<int>(i % 2) : s.mode; };
    std::vector<size_t> routed_by(8, 0), received(neps, 0);
    std::vector<std::thread> ts;
    for (size_t k = 0; k < senders.size(); ++k)
        ts.emplace_back(
            [&, k]
            {
                const Sender &s = senders[k];
                for (size_t i = 0; i < s.n; ++i)
                {
                    size_t id = s.first + i;
                    if (type_of(s, i) == 0) eps[s.ep].send_message(make_spikes(static_cast<unsigned>(k), id, s.size));
                    else eps[s.ep].send_message(make_impacts(static_cast<unsigned>(k), id, s.size));
                }
            });
    long routers = c.P("routers", 1, 0, 3), laps = c.P("router_laps", 3, 0, 20);
    for (long k = 0; k < routers; ++k)
        ts.emplace_back(
            [&, k]
            {
                for (long i = 0; i < laps; ++i) routed_by[static_cast<size_t>(k)] += bus->route_messages();
            });
    long rmask = c.P("receivers", 0, 0, (1L << 20) - 1), rlaps = c.P("recv_laps", 3, 0, 20);
    for (size_t e = 0; e < neps; ++e)
        if (rmask >> e & 1)
            ts.emplace_back(
                [&, e]
                {
                    for (long i = 0; i < rlaps; ++i) received[e] += i % 2 ? eps[e].receive_all_messages() : (eps[e].receive_message() ? 1 : 0);
                });
    long churn = c.P("churn", 0, 0, 10);
    if (churn)
        ts.emplace_back(
            [&]
            {
                for (long i = 0; i < churn; ++i)
                {
                    auto a = bus->create_endpoint();
                    auto b = bus->create_endpoint();
                    if (a.receive_message()) violation("foreign message", "an endpoint without subscriptions received a message");
                }
            });
    for (auto &t : ts) t.join();
    size_t routed = bus->route_messages();
    for (auto n : routed_by) routed += n;
    if (!order_only && routed != total) violation("wrong route count", "%zu message(s) sent, %zu reported as routed", total, routed);
    for (auto &e : eps) e.receive_all_messages();
    Quiet q;
    size_t delivered = 0;
    for (auto &s : subs)
    {
        std::map<size_t, std::vector<size_t>> got;   // per sender
        auto take = [&](auto msgs, auto make)
        {
            for (auto &m : msgs)
            {
                size_t id = m.header_.send_time_, k = 0;
                if (id >= total) violation("message torn", "a message that was never sent arrived");
                while (k + 1 < senders.size() && senders[k + 1].first <= id) ++k;
                while (senders[k].n == 0) --k;
                if (!same(m, make(static_cast<unsigned>(k), id, senders[k].size))) violation("message torn", "message %zu arrived changed", id);
                if (type_of(senders[k], id - senders[k].first) != s.type) violation("wrong type", "message %zu arrived with another type", id);
                if (!s.senders.count(k)) violation("delivered without interest", "message %zu of sender %zu arrived at receiver %zu", id, k, s.recv);
                got[k].push_back(id);
                ++delivered;
            }
        };
        if (s.type == 0) take(eps[s.ep].unload_messages<km::SpikeMessage>(recv_uid(s.recv)), make_spikes);
        else take(eps[s.ep].unload_messages<km::SynapticImpactMessage>(recv_uid(s.recv)), make_impacts);
        for (size_t k : s.senders)
        {
            std::vector<size_t> want;
            for (size_t i = 0; i < senders[k].n; ++i)
                if (type_of(senders[k], i) == s.type) want.push_back(senders[k].first + i);
            auto have = got[k];
            if (!order_only)
            {
                auto sorted = have;
                std::sort(sorted.begin(), sorted.end());
                if (std::adjacent_find(sorted.begin(), sorted.end()) != sorted.end()) violation("duplicate delivery", "a message of sender %zu was delivered twice to receiver %zu", k, s.recv);
                if (sorted != want) violation("message lost", "receiver %zu got %zu of %zu messages of sender %zu", s.recv, sorted.size(), want.size(), k);
            }
            else if (!std::is_sorted(have.begin(), have.end()))
                violation("order reversed", "messages of sender %zu arrived out of order at receiver %zu", k, s.recv);
        }
    }
    if (delivered && senders.size() + static_cast<size_t>(routers) > 1) sim::nontrivial();
}
void run04(const Case &c) { run_conc(c, false); }
void run02c(const Case &c) { run_conc(c, true); }

const char *const REAL = "message bus, endpoints, subscriptions, message types";
const char *const STUB = "thread scheduling, allocator failures";
const char *const ZSTUB = "the ZeroMQ library (in-process ROUTER/DEALER/PUB/SUB with would-block results and high-water marks)";

sim::Register r01({"C01", "bus_history", 1, gen01, run01,
                   "Random histories of endpoint creation/destruction/move, subscribe, send, route, receive and unload on the in-process bus against a "
                   "timeline model, with allocation failures while sending and subscribing (in a fifth also while routing and receiving: the bus "
                   "stays usable); non-trivial when more than two messages were sent and more than one delivered.", REAL, STUB, 0, 0});
sim::Register r02({"C02", "bus_order", 1, gen02, run02, "The same histories, order of every (sender, type, endpoint) stream; same rule.", REAL, STUB, 0, 0});
sim::Register r02b({"C02", "bus_order_threads", 1, gen_conc, run02c, "Concurrent senders, routers and receivers, order of every stream; non-trivial when messages were delivered and at least two threads ran.", REAL, STUB, 0, 0});
sim::Register r03({"C03", "bus_endings", 1, gen03, run03, "Histories that also unsubscribe, remove receivers and remove senders; same rule.", REAL, STUB, 0, 0});
sim::Register r04({"C04", "bus_threads", 1, gen_conc, run04, "Sender threads (several per endpoint), receiver threads, router threads and an endpoint-churning thread; non-trivial when messages were delivered and at least two threads ran.", REAL, STUB, 0, 0});
sim::Register r05({"C05", "zmq_history", 1, gen05, run05, "Histories on the ZeroMQ bus with would-block bursts and backlogs up to 2600 messages; same rule as bus_history.", REAL, ZSTUB, 0, 0});
}  // namespace
