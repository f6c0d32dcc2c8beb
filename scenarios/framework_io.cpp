// C18 input channels, C19 output channels.
#include <knp/framework/io/out_converters/convert_bitwise.h>
#include <knp/framework/io/out_converters/convert_count.h>
#include <knp/framework/io/out_converters/convert_set.h>
#include <knp/framework/io/output_channel.h>

#include "framework_rig.h"

using namespace rig;

namespace
{
// Channel identifiers of any value: near each other, near nothing, all zeros.
kc::UID channel_uid(int kind, long a)
{
    std::array<uint8_t, 16> b{};
    auto v = static_cast<uint64_t>(a);
    switch (kind)
    {
        case 0: b[0] = 20, b[15] = static_cast<uint8_t>(v); break;
        case 1:
            for (size_t i = 0; i < 16; ++i) b[i] = static_cast<uint8_t>((v * 0x9E3779B97F4A7C15ull + i * 0xD1B54A32D192ED03ull) >> 29 ^ (v >> i));
            b[3] = 99;
            break;
        case 2: break;     // the nil identifier
        default: b[static_cast<size_t>(v >> 3) % 16] = static_cast<uint8_t>(1u << (v & 7)); break;
    }
    return kc::UID{b};
}
std::vector<kc::UID> channels(const Case &c, const char *k, size_t most)
{
    std::vector<kc::UID> v;
    for (auto &op : c.ops)
        if (op.k == k && v.size() < most)
        {
            kc::UID u = channel_uid(static_cast<int>(op.idx(0, 4)), op.A(1));
            if (std::find(v.begin(), v.end(), u) == v.end()) v.push_back(u);
        }
    return v;
}
void gen_channels(Rng &r, Case &c, const char *k)
{
    long n = r.chance(0.2) ? r.range(8, 24) : r.range(1, 6);
    for (long i = 0; i < n; ++i) c.op(k, {r.chance(0.05) ? 2 : r.chance(0.4) ? 1 : r.chance(0.5) ? 0 : 3, static_cast<long>(r.below(1 << 16))});
}

// ---- C18 ----------------------------------------------------------------------------------------------------------
void gen18(Rng &r, Case &c)
{
    GenOptions o;
    c.p["mt"] = r.chance(0.4);
    o.st_types = !c.p["mt"];
    o.impacts = false;
    o.max_syn = 12;
    gen_net(r, c, o);
    gen_channels(r, c, "chan");
    gen_pieces(r, c);
    long nl = r.range(1, 12);
    for (long i = 0; i < nl; ++i) c.op("link", {r.range(0, 30), r.range(0, 7)});
    double density = r.chance(0.5) ? 0.7 : 0.2;
    for (long s = 0; s < c.p["steps"]; ++s)
        for (long k = 0; k < 24; ++k)
            if (r.chance(density)) c.op("dat", {s, k, static_cast<long>(r.below(16)), r.chance(0.004) ? 2 : r.chance(0.1) ? 1 : 0});
}
void run18(const Case &c)
{
    bool mt = c.P("mt", 0, 0, 1);
    Spec s = parse(c, mt);
    s.feeds.clear();
    for (auto &p : s.projs) p.pre = -1;                     // only channels feed the projections
    std::vector<kc::UID> ch = channels(c, "chan", 24);
    if (ch.empty()) ch.push_back(channel_uid(0, 1));
    std::set<std::pair<size_t, size_t>> links;              // channel, projection
    std::vector<std::pair<size_t, size_t>> calls;           // as the user connects them, possibly twice
    if (s.projs.empty()) return;
    for (auto &op : c.ops)
        if (op.k == "link" && calls.size() < 24)
        {
            calls.push_back({op.idx(0, ch.size()), op.idx(1, s.projs.size())});
            links.insert(calls.back());
        }
    std::map<std::pair<size_t, size_t>, km::SpikeData> data;     // channel, step
    for (auto &op : c.ops)
        if (op.k == "dat")
        {
            km::SpikeData &d = data[{op.idx(1, ch.size()), op.idx(0, s.steps)}];
            d.clear();
            for (uint32_t i = 0; i < 4; ++i)
                if (op.A(2) >> i & 1) d.insert(d.end(), op.idx(3, 3) == 2 ? 48 : op.idx(3, 3) == 1 ? 2 : 1, i);     // a neuron may spike several times
        }
    Net n = mt ? make_mt(s, mt_params(c), false) : make_st(s, false);
    std::map<std::pair<size_t, size_t>, size_t> asked;
    std::atomic<long> stop_at{-1};
    kf::ModelExecutor *exec = nullptr;
    kf::Network network;
    kf::ModelLoader::InputChannelMap map;
    std::unique_ptr<kf::Model> model;
    std::unique_ptr<kf::ModelExecutor> ex;
    std::set<size_t> used;
    {
        Quiet q;
        for (size_t i = 0; i < s.pops.size(); ++i) network.add_population(make_pop(s, i));
        for (size_t i = 0; i < s.projs.size(); ++i) network.add_projection(make_proj(s, i));
        model = std::make_unique<kf::Model>(std::move(network));
        for (auto &l : calls) model->add_input_channel(ch[l.first], proj_uid(l.second)), used.insert(l.first);
        for (size_t k = 0; k < ch.size(); ++k)
            map[ch[k]] = [&, k](kc::Step st)
            {
                { Quiet q2; ++asked[{k, st}]; }
                if (stop_at >= 0 && static_cast<long>(st) + 1 >= stop_at && exec) exec->stop();
                Quiet q2;
                auto it = data.find({k, st});
                return it == data.end() ? km::SpikeData{} : it->second;
            };
        ex = std::make_unique<kf::ModelExecutor>(*model, n.b, map);
        exec = ex.get();
    }
    World w(n, s);
    ex->add_observer<km::SpikeMessage>([&](const std::vector<km::SpikeMessage> &) { w.post(n.b->get_step()); }, {pop_uid(0)});
    std::vector<std::vector<std::tuple<size_t, unsigned, size_t>>> syn(s.projs.size());     // source, delay, index
    {
        Quiet q;
        for (size_t i = 0; i < s.projs.size(); ++i)
            std::visit(
                [&](auto &p)
                {
                    size_t k = 0;
                    for (auto &x : p) syn[i].push_back({std::get<kc::source_neuron_id>(x), std::get<kc::synapse_data>(x).delay_, k++});
                },
                model->get_network().get_projection(proj_uid(i)));
    }
    run_pieces(*ex, pieces_of(c), s.steps, stop_at, [](size_t) {});
    Quiet q;
    size_t executed = n.b->get_step(), spikes = 0;
    for (size_t k : used)
        for (size_t t = 0; t < executed; ++t)
        {
            size_t got = asked.count({k, t}) ? asked[{k, t}] : 0;
            if (got != 1) violation("generator calls", "the generator of channel %zu was asked %zu times for step %zu", k, got, t);
        }
    for (auto &a : asked)
    {
        if (a.first.second >= executed) violation("generator calls", "the generator of channel %zu was asked for step %zu, which was not executed", a.first.first, a.first.second);
        if (!used.count(a.first.first)) violation("generator calls", "the generator of channel %zu, which feeds nothing, was asked", a.first.first);
    }
    for (size_t i = 0; i < s.projs.size(); ++i)
        for (size_t t = 0; t < executed; ++t)
        {
            std::map<size_t, long> want;
            for (auto &x : syn[i])
            {
                unsigned d = std::max(1u, std::get<1>(x));
                if (d - 1 > t) continue;
                size_t from = t - (d - 1);
                for (auto &l : links)
                    if (l.second == i && data.count({l.first, from}))
                        for (auto sp : data[{l.first, from}])
                            if (sp == std::get<0>(x)) ++want[std::get<2>(x)], ++spikes;
            }
            for (auto &m : w.tr.steps[t].impacts[i])
                for (auto &x : m.impacts) --want[x.connection_index_];
            for (auto &x : want)
                if (x.second > 0) violation("input lost", "step %zu, projection %zu: %ld impact(s) of synapse %zu are missing", t, i, x.second, x.first);
                else if (x.second < 0) violation("input invented", "step %zu, projection %zu: %ld impact(s) of synapse %zu too many", t, i, -x.second, x.first);
        }
    observe(w.tr);
    if (spikes) sim::nontrivial();
    sim::probe("impacts caused by channel spikes", spikes);
    if (used.size() > 3) sim::probe("runs with more than three channels");
    if (mt) sim::probe("runs on the multi-threaded backend");
}

// ---- C19 ----------------------------------------------------------------------------------------------------------
void gen19(Rng &r, Case &c)
{
    GenOptions o;
    c.p["mt"] = r.chance(0.4);
    o.st_types = !c.p["mt"];
    o.learning = r.chance(0.3);
    gen_net(r, c, o);
    gen_channels(r, c, "chan");
    gen_pieces(r, c);
    long nl = r.range(1, 12);
    for (long i = 0; i < nl; ++i) c.op("link", {r.range(0, 30), r.range(0, 5)});
    long nr = r.range(1, 8), steps = c.p["steps"];
    for (long i = 0; i < nr; ++i)
        c.op("read", {r.range(0, steps), r.range(0, 30), r.range(0, 6), r.range(0, steps), r.range(0, 6), r.range(0, steps), r.chance(0.5)});
    long nu = r.range(0, 4);
    for (long i = 0; i < nu; ++i) c.op("upd", {r.range(0, steps), r.range(0, 30)});
    long ne = r.chance(0.4) ? r.range(1, 4) : 0;
    for (long i = 0; i < ne; ++i) c.op("ext", {r.range(0, steps - 1), r.chance(0.1) ? r.range(20, 330) : r.range(1, 4)});
}
// A step number of any size.
kc::Step bound(long kind, long v)
{
    switch (kind)
    {
        case 0: return ~0ull;
        case 1: return ~0ull - static_cast<kc::Step>(v);
        case 2: return 1ull << 63;
        case 3: return 0;
        default: return static_cast<kc::Step>(v);
    }
}
constexpr size_t EXT = 100;
struct Seen { kc::Step step; size_t pop; km::SpikeData spikes; };
struct Chan
{
    kc::UID uid;
    bool manual;
    kf::io::output::OutputChannel *ch = nullptr;
    std::unique_ptr<kf::io::output::OutputChannel> own;
    std::set<size_t> pops;
    std::vector<Seen> buffer;        // what was taken over and not read yet
    size_t next = 0;                 // steps taken over
};
void run19(const Case &c)
{
    bool mt = c.P("mt", 0, 0, 1);
    Spec s = parse(c, mt);
    std::vector<kc::UID> uids = channels(c, "chan", 24);
    if (uids.empty()) uids.push_back(channel_uid(0, 1));
    std::vector<Chan> ch(uids.size());
    for (size_t i = 0; i < ch.size(); ++i) ch[i].uid = uids[i], ch[i].manual = i % 3 == 2;
    std::vector<std::pair<size_t, size_t>> links;
    for (auto &op : c.ops)
        if (op.k == "link" && links.size() < 24) links.push_back({op.idx(0, ch.size()), op.idx(1, s.pops.size())});
    if (links.empty()) links.push_back({0, 0});
    for (auto &l : links) ch[l.first].pops.insert(l.second);

    Net n = mt ? make_mt(s, mt_params(c), false) : make_st(s, false);
    kf::Network network;
    std::unique_ptr<kf::Model> model;
    std::unique_ptr<kf::ModelExecutor> ex;
    {
        Quiet q;
        for (size_t i = 0; i < s.pops.size(); ++i) network.add_population(make_pop(s, i));
        for (size_t i = 0; i < s.projs.size(); ++i) network.add_projection(make_proj(s, i));
        model = std::make_unique<kf::Model>(std::move(network));
        for (auto &l : links)
            if (!ch[l.first].manual) model->add_output_channel(ch[l.first].uid, pop_uid(l.second));
        ex = std::make_unique<kf::ModelExecutor>(*model, n.b, kf::ModelLoader::InputChannelMap{});
        feed(n, s);
        for (auto &x : ch)
        {
            if (x.pops.empty()) continue;
            if (!x.manual)
            {
                x.ch = &ex->get_loader().get_output_channel(x.uid);
                continue;
            }
            auto ep = n.b->get_message_bus().create_endpoint();
            std::vector<kc::UID> from;
            for (auto p : x.pops) from.push_back(pop_uid(p));
            from.push_back(pop_uid(EXT));
            ep.subscribe<km::SpikeMessage>(x.uid, from);
            x.own = std::make_unique<kf::io::output::OutputChannel>(x.uid, std::move(ep));
            x.ch = x.own.get();
        }
    }
    World w(n, s);
    ex->add_observer<km::SpikeMessage>([&](const std::vector<km::SpikeMessage> &) { w.post(n.b->get_step()); }, {pop_uid(0)});
    size_t reads = 0, read_messages = 0;
    std::map<size_t, size_t> ext;        // messages from elsewhere, by step
    for (auto &op : c.ops)
        if (op.k == "ext") ext[op.idx(0, s.steps)] = std::min<size_t>(400, ext[op.idx(0, s.steps)] + op.idx(1, 340));
    auto ep = n.b->get_message_bus().create_endpoint();
    // What the channel takes over when it is updated after `done` steps.
    auto take_over = [&](Chan &x, size_t done)
    {
        for (; x.next < done; ++x.next)
        {
            if (x.manual && ext.count(x.next))
                for (uint32_t i = 0; i < ext[x.next]; ++i) x.buffer.push_back({x.next, EXT, {i, 1}});
            for (size_t p : x.pops)
                for (auto &m : w.tr.steps[x.next].spikes[p]) x.buffer.push_back({x.next, p, m.neuron_indexes_});
        }
    };
    auto check = [&](Chan &x, const std::vector<km::SpikeMessage> &got, kc::Step a, kc::Step b, const char *what)
    {
        std::vector<Seen> want;
        for (auto &y : x.buffer)
            if (y.step >= a && y.step <= b) want.push_back(y);
        if (got.size() != want.size())
            violation(got.size() < want.size() ? "output lost" : "output invented", "%s of steps %llu to %llu gives %zu message(s) instead of %zu", what, static_cast<unsigned long long>(a),
                      static_cast<unsigned long long>(b), got.size(), want.size());
        for (size_t i = 0; i < got.size(); ++i)
        {
            if (i && got[i].header_.send_time_ < got[i - 1].header_.send_time_) violation("output order", "%s returns a message of step %zu after one of step %zu", what, static_cast<size_t>(got[i].header_.send_time_), static_cast<size_t>(got[i - 1].header_.send_time_));
            auto it = std::find_if(want.begin(), want.end(), [&](const Seen &y) { return y.step == got[i].header_.send_time_ && pop_uid(y.pop) == got[i].header_.sender_uid_ && y.spikes == got[i].neuron_indexes_; });
            if (it == want.end()) violation("wrong output", "%s of steps %llu to %llu returns a message of step %zu that no connected population sent", what, static_cast<unsigned long long>(a), static_cast<unsigned long long>(b), static_cast<size_t>(got[i].header_.send_time_));
            want.erase(it);
        }
    };
    auto act = [&](size_t done, bool last)
    {
        for (auto &x : ch)
            if (x.ch && !x.manual) { Quiet q; take_over(x, done); }
        for (auto &op : c.ops)
        {
            if (op.k != "read" && op.k != "upd") continue;
            size_t at = op.idx(0, s.steps + 1);
            if (at != done) continue;
            Chan &x = ch[op.idx(1, ch.size())];
            if (!x.ch) continue;
            if (op.k == "upd" || (op.A(6) & 1))
            {
                auto all = x.ch->update();
                Quiet q;
                take_over(x, done);
                check(x, all, 0, ~0ull, "update()");
            }
            if (op.k == "upd") continue;
            kc::Step a = bound(op.A(2), op.A(3)), b = bound(op.A(4), op.A(5));
            auto got = x.ch->read_some_from_buffer(a, b);
            Quiet q;
            check(x, got, a, b, "reading");
            x.buffer.erase(std::remove_if(x.buffer.begin(), x.buffer.end(), [&](const Seen &y) { return y.step >= a && y.step <= b; }), x.buffer.end());
            // The converters see the same messages.
            std::set<km::SpikeIndex> set;
            std::vector<size_t> count(5, 0);
            for (auto &m : got)
                for (auto i : m.neuron_indexes_)
                    if (i < 5) set.insert(i), ++count[i];
            if (kf::io::output::ConvertToSet(5)(got) != set) violation("converter", "the set converter returns other neurons than the messages hold");
            if (kf::io::output::converter_count(got, 5) != count) violation("converter", "the count converter counts wrong");
            auto bits = kf::io::output::converter_bitwise(got, 5);
            for (size_t i = 0; i < 5; ++i)
                if (bits.size() != 5 || bits[i] != (count[i] > 0)) violation("converter", "the bitwise converter returns other neurons than the messages hold");
            ++reads, read_messages += got.size();
            if (a > b) sim::probe("empty ranges");
        }
        if (last) return;
        if (ext.count(done))
            for (uint32_t i = 0; i < ext[done]; ++i) ep.send_message(km::SpikeMessage{{pop_uid(EXT), done}, {i, 1}});
        w.pre(done);
    };
    std::atomic<long> never{-1};
    run_pieces(*ex, pieces_of(c), s.steps, never, [&](size_t st) { act(st, false); });
    act(s.steps, true);
    // Everything that is left.
    for (auto &x : ch)
    {
        if (!x.ch) continue;
        auto all = x.ch->update();
        { Quiet q; take_over(x, s.steps); }
        auto rest = x.ch->read_some_from_buffer(0, s.steps);
        Quiet q;
        check(x, all, 0, ~0ull, "update()");
        check(x, rest, 0, s.steps, "reading");
        read_messages += rest.size();
        if (x.ch->update().size()) violation("output invented", "a channel read completely still holds messages");
    }
    Quiet q;
    observe(w.tr);
    if (read_messages) sim::nontrivial();
    sim::probe("range reads", reads);
    sim::probe("messages read", read_messages);
    if (mt) sim::probe("runs on the multi-threaded backend");
}

const char *const REAL = "model, model loader, model executor, input and output channels, observers, both CPU backends with thread pool, bus and endpoints";
const char *const STUB = "thread scheduling (simulator); generators and predicates (harness)";
sim::Register r18({"C18", "input_channels", 1, gen18, run18,
                   "Random networks fed by up to 24 channels with identifiers of any value, linked at random (also twice) to projections, run in pieces ended by predicates and by stops from "
                   "generators, predicates and another thread; calls of generators and impacts of every projection are compared with the links. Non-trivial when channel spikes caused impacts.",
                   REAL, STUB, 0, 0});
sim::Register r19({"C19", "output_channels", 1, gen19, run19,
                   "Random networks with up to 24 output channels, some updated by the executor, some seldom by hand, read at random moments in ranges of any bounds; contents are compared "
                   "with an independent observer. Non-trivial when messages were read.",
                   REAL, STUB, 0, 0});
}  // namespace
