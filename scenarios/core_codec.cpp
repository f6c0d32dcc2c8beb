// C28: messages survive packing to envelopes and writing to text streams.
#include <knp/core/messaging/message_envelope.h>

#include <algorithm>
#include <cstring>
#include <istream>
#include <limits>
#include <memory>
#include <optional>
#include <ostream>
#include <streambuf>
#include <thread>

#include "common.h"

using namespace common;
using sim::Case;
using sim::Op;
using sim::Quiet;
using sim::Rng;
using sim::violation;

namespace
{
// A device that texts are written to: full or failing after a number of characters.
struct Sink : std::streambuf
{
    std::string text;
    size_t limit;
    bool throws;
    Sink(size_t l, bool t) : limit(l), throws(t) {}
    int overflow(int ch) override
    {
        Quiet q;
        if (text.size() >= limit)
        {
            if (throws) throw std::runtime_error("device error");
            return traits_type::eof();
        }
        text += static_cast<char>(ch);
        return ch;
    }
};
// A device that texts are read from, in pieces, ending early or failing.
struct Source : std::streambuf
{
    const std::string &text;
    size_t pos = 0, limit;
    int piece;
    bool broken;
    char buf[48];
    Source(const std::string &t, size_t lim, int pc, bool br) : text(t), limit(std::min(lim, t.size())), piece(pc), broken(br && lim < t.size()) {}
    int underflow() override
    {
        Quiet q;
        if (pos >= limit)
        {
            setg(buf, buf, buf);
            if (!broken) return traits_type::eof();
            throw std::runtime_error("device error");
        }
        size_t n = piece ? 1 + static_cast<size_t>(sim::choose("short read", piece, 0.7)) : sizeof buf;
        n = std::min({n, limit - pos, sizeof buf});
        std::copy_n(text.data() + pos, n, buf);
        pos += n;
        setg(buf, buf, buf + n);
        return traits_type::to_int_type(buf[0]);
    }
};

kc::UID any_uid(Rng &r)
{
    kc::UID u{false};
    const unsigned how = static_cast<unsigned>(r.below(10));
    if (how) for (auto &b : u.tag) b = how == 1 ? 0xff : static_cast<uint8_t>(r.below(256));
    return u;
}
uint64_t any_number(Rng &r, unsigned bits)
{
    const uint64_t all = bits == 64 ? ~uint64_t(0) : (uint64_t(1) << bits) - 1;
    if (r.chance(0.1)) return all;
    return (r.chance(0.4) ? r.below(300) : r.next()) & all;
}
float any_value(Rng &r, bool text)
{
    if (!text)
    {
        uint32_t b = static_cast<uint32_t>(r.next());
        float f;
        if (r.chance(0.1)) b = 0x7fc00001;   // not a number
        if (r.chance(0.1)) b = 0xff800000;
        std::memcpy(&f, &b, 4);
        return f;
    }
    // Numbers that text can say.
    const float f = static_cast<float>(r.range(-1 << 24, 1 << 24)) * (r.chance(0.5) ? 1.F / 1024 : r.chance(0.5) ? 1e12F : 1e-15F);
    return r.chance(0.1) ? -0.F : f;
}
km::MessageVariant make(const Op &op, bool text)
{
    Rng r(static_cast<uint64_t>(op.A(1)) * 7919 + 3);
    const size_t n = op.idx(2, 20000);
    if (op.A(0) & 1)
    {
        km::SynapticImpactMessage m;
        m.header_.sender_uid_ = any_uid(r), m.header_.send_time_ = any_number(r, 64);
        m.presynaptic_population_uid_ = any_uid(r), m.postsynaptic_population_uid_ = any_uid(r);
        m.is_forcing_ = r.chance(0.5);
        for (size_t i = 0; i < n; ++i)
            m.impacts_.push_back(km::SynapticImpact{any_number(r, 64), any_value(r, text), static_cast<knp::synapse_traits::OutputType>(r.below(5)), static_cast<uint32_t>(any_number(r, 32)),
                                                    static_cast<uint32_t>(any_number(r, 32))});
        return m;
    }
    km::SpikeMessage m;
    m.header_.sender_uid_ = any_uid(r), m.header_.send_time_ = any_number(r, 64);
    for (size_t i = 0; i < n; ++i) m.neuron_indexes_.push_back(static_cast<uint32_t>(any_number(r, 32)));
    return m;
}
// Equal in every field, values bit by bit.
bool equal(const km::MessageHeader &a, const km::MessageHeader &b) { return a.sender_uid_.tag == b.sender_uid_.tag && a.send_time_ == b.send_time_; }
bool equal(const km::SpikeMessage &a, const km::SpikeMessage &b) { return equal(a.header_, b.header_) && a.neuron_indexes_ == b.neuron_indexes_; }
bool equal(const km::SynapticImpactMessage &a, const km::SynapticImpactMessage &b)
{
    if (!equal(a.header_, b.header_) || !(a.presynaptic_population_uid_.tag == b.presynaptic_population_uid_.tag) || !(a.postsynaptic_population_uid_.tag == b.postsynaptic_population_uid_.tag) ||
        a.is_forcing_ != b.is_forcing_ || a.impacts_.size() != b.impacts_.size())
        return false;
    for (size_t i = 0; i < a.impacts_.size(); ++i)
    {
        auto &x = a.impacts_[i];
        auto &y = b.impacts_[i];
        if (x.connection_index_ != y.connection_index_ || std::memcmp(&x.impact_value_, &y.impact_value_, sizeof(float)) || x.synapse_type_ != y.synapse_type_ ||
            x.presynaptic_neuron_index_ != y.presynaptic_neuron_index_ || x.postsynaptic_neuron_index_ != y.postsynaptic_neuron_index_)
            return false;
    }
    return true;
}
bool equal(const km::MessageVariant &a, const km::MessageVariant &b)
{
    if (a.index() != b.index()) return false;
    return a.index() ? equal(std::get<1>(a), std::get<1>(b)) : equal(std::get<0>(a), std::get<0>(b));
}

void gen28(Rng &r, Case &c)
{
    const long threads = r.chance(0.5) ? 1 : r.range(2, 4);
    c.p["threads"] = threads;
    c.p["alloc"] = r.chance(0.3) ? r.range(1, 150) : 0;
    for (long n = r.range(1, threads > 1 ? 6 : 10); n > 0; --n)
    {
        const bool large = r.chance(0.01);
        const long size = r.chance(0.2) ? 0 : large ? r.range(300, 6000) : r.range(1, 12);
        if (r.chance(0.5)) c.op("envelope", {r.range(0, 1), static_cast<long>(r.below(100000)), size, r.range(0, threads - 1), r.chance(0.3)});
        else
        {
            // A stream of messages.
            const long id = r.range(0, 3);
            c.op("write", {r.range(0, 1), static_cast<long>(r.below(100000)), size, id});
        }
    }
    for (long id = 0; id < 4; ++id)
        c.op("stream", {id, r.chance(0.1) ? r.range(0, 300) : -1, r.chance(0.5), r.chance(0.3) ? r.range(0, 300) : -1, r.chance(0.5) ? 0 : r.range(1, 20), r.chance(0.5), r.chance(0.6), r.range(0, threads - 1),
                        r.range(9, 12)});
}
struct Counts { size_t done = 0, failed = 0; };

void envelope(const km::MessageVariant &m, bool other_copy, double palloc, Counts &n)
{
    std::optional<km::MessageVariant> before, back;
    std::vector<uint8_t> bytes;
    {
        Quiet q;
        before = m;
    }
    const char *doing = "packing";
    try
    {
        sim::AllocFaults a(palloc);
        bytes = km::pack_to_envelope(m);
        doing = "unpacking";
        if (other_copy)
        {
            std::vector<uint8_t> moved(bytes);
            bytes.assign(bytes.size(), 0xee);
            back.emplace(km::extract_from_envelope(static_cast<const void *>(moved.data())));
        }
        else back.emplace(km::extract_from_envelope(bytes));
    }
    catch (const std::bad_alloc &)
    {
        if (palloc == 0) violation("failure", "%s is out of memory although there is enough", doing);
        ++n.failed;
    }
    catch (const std::exception &e)
    {
        violation("failure", "%s a message fails: %s", doing, e.what());
    }
    Quiet q;
    if (!equal(m, *before)) violation("message changed", "%s changes the message itself", doing);
    if (!back) return;
    if (!equal(*back, m)) violation("different message", "a message of type %zu differs after packing and unpacking", m.index());
    ++n.done;
}

// Messages of one kind in one stream, read one after another.
template <class M>
void texts(const std::vector<M> &messages, const Op &op, double palloc, Counts &n)
{
    const size_t full = op.A(1) < 0 ? ~size_t(0) : op.idx(1, 100000), end = op.A(3) < 0 ? ~size_t(0) : op.idx(3, 100000);
    const bool reuse = op.A(6) != 0;
    std::unique_ptr<Sink> sink;
    std::unique_ptr<std::ostream> os;
    std::vector<size_t> ends;
    {
        Quiet q;
        sink = std::make_unique<Sink>(full, op.A(2) != 0);
        os = std::make_unique<std::ostream>(sink.get());
        os->precision(static_cast<std::streamsize>(9 + op.idx(8, 20)));   // enough digits to tell values apart
    }
    bool ok = true;
    try
    {
        sim::AllocFaults a(palloc);
        for (auto &m : messages)
        {
            *os << m;
            const size_t at = sink->text.size();
            *os << '\n';
            { Quiet q; ends.push_back(at); }
            if (!*os) break;
        }
    }
    catch (const std::bad_alloc &)
    {
        if (palloc == 0) violation("failure", "writing is out of memory although there is enough");
        ok = false;
    }
    catch (const std::runtime_error &) { ok = false; }
    if (!*os) ok = false;
    if (!ok) { ++n.failed; sim::probe("writing failed"); }
    size_t complete = 0;
    {
        Quiet q;
        if (full == ~size_t(0) && palloc == 0 && !ok) violation("failure", "writing fails although the device does not");
        complete = ok ? messages.size() : 0;
    }
    if (!complete) return;
    std::unique_ptr<Source> source;
    std::unique_ptr<std::istream> is;
    {
        Quiet q;
        source = std::make_unique<Source>(sink->text, end, static_cast<int>(op.idx(4, 48)), op.A(5) != 0);
        is = std::make_unique<std::istream>(source.get());
    }
    std::optional<M> m;
    size_t got = 0;
    bool stopped = false;
    for (; got < messages.size(); ++got)
    {
        if (!reuse || !m) m.emplace();
        try
        {
            sim::AllocFaults a(palloc);
            *is >> *m;
        }
        catch (const std::bad_alloc &)
        {
            if (palloc == 0) violation("failure", "reading is out of memory although there is enough");
            stopped = true;
        }
        catch (const std::runtime_error &) { stopped = true; }
        Quiet q;
        if (stopped || !*is)
        {
            if (end >= ends[got] + 1 && palloc == 0) violation("failure", "reading message %zu of %zu fails although all of its text is there", got, messages.size());
            sim::probe("reading failed");
            stopped = true;
            break;
        }
        // A number cut short at the end of the text looks like a number: the stream has reached its end then.
        if (end < ends[got])
        {
            if (!is->eof()) violation("failure swallowed", "message %zu was read although the device failed before its end", got);
            stopped = true;
            break;
        }
        if (!equal(*m, messages[got])) violation("different message", "message %zu of %zu differs after writing and reading its text", got, messages.size());
        ++n.done;
    }
    Quiet q;
    if (stopped) ++n.failed;
    else
    {
        // There is no further message.
        if (!reuse || !m) m.emplace();
        bool more = true;
        try { *is >> *m; more = !is->fail(); }
        catch (const std::runtime_error &) { more = false; }
        if (more) violation("invented message", "a message is read after the last one");
    }
}

void run28(const Case &c)
{
    const size_t threads = static_cast<size_t>(c.P("threads", 1, 1, 6));
    const double palloc = static_cast<double>(c.P("alloc", 0, 0, 400)) / 1000.0;
    struct Item { const Op *op; std::optional<km::MessageVariant> m; std::vector<km::SpikeMessage> spikes; std::vector<km::SynapticImpactMessage> impacts; };
    std::vector<std::vector<Item>> plan(threads);
    std::vector<Counts> counts(threads);
    {
        Quiet q;
        for (auto &op : c.ops)
        {
            if (op.k == "envelope") plan[op.idx(3, threads)].push_back({&op, make(op, false), {}, {}});
            if (op.k != "stream") continue;
            Item item{&op, {}, {}, {}};
            for (auto &w : c.ops)
                if (w.k == "write" && w.idx(3, 4) == op.idx(0, 4))
                {
                    auto m = make(w, true);
                    m.index() ? item.impacts.push_back(std::get<1>(m)) : item.spikes.push_back(std::get<0>(m));
                }
            plan[op.idx(7, threads)].push_back(std::move(item));
        }
    }
    auto work = [&](size_t t)
    {
        for (auto &item : plan[t])
        {
            if (item.m) { envelope(*item.m, item.op->A(4) != 0, palloc, counts[t]); continue; }
            if (!item.spikes.empty()) texts(item.spikes, *item.op, palloc, counts[t]);
            if (!item.impacts.empty()) texts(item.impacts, *item.op, palloc, counts[t]);
        }
    };
    std::vector<std::thread> v;
    for (size_t t = 1; t < threads; ++t) v.emplace_back(work, t);
    work(0);
    for (auto &t : v) t.join();
    Counts n;
    for (auto &x : counts) n.done += x.done, n.failed += x.failed;
    sim::obs(n.done * 1000 + n.failed);
    if (n.done) sim::nontrivial();
    if (n.done && n.failed) sim::probe("runs with failures and messages");
}
sim::Register r28({"C28", "codec", 1, gen28, run28,
                   "Random messages with any identifiers, times, indexes and values packed and unpacked, and written to and read from text streams one after another into new or used messages, by one to four "
                   "threads; devices that are full, fail, end early or give small pieces, and failing allocations. Non-trivial when a message came back.",
                   "message envelopes, text operators of messages, headers and identifiers, std::thread", "scheduler, allocator failures, devices behind the streams (streambuf)", 0, 0});
}  // namespace
