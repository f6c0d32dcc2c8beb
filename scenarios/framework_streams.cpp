// C21 stream input converters, C23 image datasets, C34 inference evaluation: data from streams that come in pieces, end and
// fail at any byte.
#include <knp/framework/data_processing/classification/image.h>
#include <knp/framework/inference_evaluation/classification/processor.h>
#include <knp/framework/io/in_converters/index_converter.h>
#include <knp/framework/io/in_converters/sequence_converter.h>
#include <knp/framework/io/input_converter.h>
#include <knp/framework/io/input_interpreters.h>
#include <knp/framework/io/output_channel.h>

#include <charconv>
#include <sstream>

#include "framework_rig.h"

using namespace rig;

namespace
{
namespace in = kf::io::input;
namespace ki = kf::data_processing::classification::images;
namespace ev = kf::inference_evaluation::classification;

// A source of bytes that hands them out in pieces of seeded sizes and ends, or fails, after a number of them.
struct Source : std::streambuf
{
    std::string text;
    size_t pos = 0, limit;
    int piece;                  // largest piece: 0 everything at once
    bool broken;                // past the limit: device error (throws), otherwise end of file
    size_t pieces = 0, errors = 0;
    char buf[64];
    Source(std::string t, size_t lim, int pc, bool br) : text(std::move(t)), limit(std::min(lim, text.size())), piece(pc), broken(br && lim < text.size()) {}
    int underflow() override
    {
        if (pos >= limit)
        {
            setg(buf, buf, buf);
            if (!broken) return traits_type::eof();
            ++errors;
            throw std::runtime_error("device error");
        }
        size_t n = piece ? 1 + static_cast<size_t>(sim::choose("short read", piece, 0.7)) : sizeof buf;
        n = std::min({n, limit - pos, sizeof buf});
        std::copy_n(text.data() + pos, n, buf);
        pos += n, ++pieces;
        setg(buf, buf, buf + n);
        return traits_type::to_int_type(buf[0]);
    }
    pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode which) override
    {
        off_type from = dir == std::ios_base::beg ? 0 : dir == std::ios_base::end ? static_cast<off_type>(limit) : static_cast<off_type>(pos) - (egptr() - gptr());
        off_type to = from + off;
        if (!(which & std::ios_base::in) || to < 0 || to > static_cast<off_type>(limit)) return pos_type(off_type(-1));
        pos = static_cast<size_t>(to);
        setg(buf, buf, buf);
        return pos_type(to);
    }
    pos_type seekpos(pos_type to, std::ios_base::openmode which) override { return seekoff(off_type(to), std::ios_base::beg, which); }
};
struct Stream
{
    std::unique_ptr<Source> src;
    std::unique_ptr<std::istream> is;
    Stream(std::string t, long lim, int piece, bool broken)
    {
        Quiet q;
        src = std::make_unique<Source>(std::move(t), lim < 0 ? ~size_t(0) : static_cast<size_t>(lim), piece, broken);
        is = std::make_unique<std::istream>(src.get());
    }
    std::string held() const { return src->text.substr(0, src->limit); }
};
void gen_stream(Rng &r, Case &c, const char *lim, const char *piece, const char *broken, long about)
{
    c.p[lim] = r.chance(0.35) ? -1 : r.range(0, about);
    c.p[piece] = r.chance(0.3) ? 0 : r.chance(0.5) ? 1 : r.range(2, 9);
    c.p[broken] = r.chance(0.6);
}

// ---- C21 ----------------------------------------------------------------------------------------------------------
void gen21(Rng &r, Case &c)
{
    c.p["kind"] = r.range(0, 3);            // index lines, ints, floats, bools through the default interpreter
    c.p["delim"] = r.range(0, 3);
    c.p["interp"] = r.range(0, 3);
    bool wide = r.chance(0.03);
    c.p["size"] = r.chance(0.1) ? 0 : r.range(1, wide ? 300 : 6);
    c.p["eol"] = r.chance(0.6);             // the last line ends with a newline
    c.p["mask"] = r.chance(0.2);            // the stream throws when it breaks
    c.p["channel"] = r.chance(0.5);         // through an input channel and a bus
    long lines = r.range(0, wide && r.chance(0.5) ? 300 : 10);
    for (long i = 0; i < lines; ++i)
    {
        std::vector<long> v;
        long n = r.chance(0.15) ? 0 : r.range(1, wide ? (lines > 10 ? 20 : 300) : 6);
        for (long k = 0; k < n; ++k) v.push_back(r.chance(0.3) ? static_cast<long>(r.below(4294967296ull)) : r.range(0, 30));
        c.op("line", v);
    }
    long ns = r.range(0, 3);
    for (long i = 0; i < ns; ++i) c.op("size", {r.range(0, 12), r.range(0, wide ? 300 : 7)});
    gen_stream(r, c, "limit", "piece", "broken", lines * (wide ? 60 : 10) + 2);
    c.p["after"] = r.range(1, 6);
    c.p["bad"] = r.chance(0.12) ? r.range(1, 40) : 0;    // a value of the sequence that is no number
}
// One step of a converter as a user makes it.
template <class Conv>
struct Reader
{
    Conv &conv;
    km::SpikeData take(size_t step, bool &threw)
    {
        threw = false;
        try
        {
            return conv(step);
        }
        catch (const std::exception &)
        {
            threw = true;
        }
        return {};
    }
};
struct Want
{
    std::vector<km::SpikeData> steps;       // data of the steps the stream has data for
    size_t cut = ~size_t(0);                // step at which a device error cut the data: a prefix of `partial` may come
    km::SpikeData partial;
};
template <class Conv, class Before>
size_t drive(const Case &c, Conv &conv, std::istream &is, const Want &w, Before before)
{
    bool mask = c.P("mask", 0, 0, 1), channel = c.P("channel", 0, 0, 1);
    if (mask) is.exceptions(std::ios::badbit);
    size_t after = static_cast<size_t>(c.P("after", 2, 1, 8)), n = w.steps.size() + after, spikes = 0;
    auto bus = kc::MessageBus::construct_cpu_bus();
    auto rx = bus->create_endpoint();
    bool threw = false;
    auto got = std::make_shared<km::SpikeData>();
    Reader<Conv> rd{conv};
    in::InputChannel ch{uid(9, 1), bus->create_endpoint(), in::DataGenerator([&](kc::Step st) { return rd.take(st, threw); })};
    rx.subscribe<km::SpikeMessage>(uid(9, 2), {uid(9, 1)});
    for (size_t t = 0; t < n; ++t)
    {
        before(t);
        km::SpikeData d;
        if (channel)
        {
            bool sent = ch.send(t);
            bus->route_messages();
            rx.receive_all_messages();
            auto ms = rx.unload_messages<km::SpikeMessage>(uid(9, 2));
            Quiet q;
            if (ms.size() != (sent ? 1u : 0u)) violation("message count", "the channel %s at step %zu and %zu message(s) arrived", sent ? "sent" : "did not send", t, ms.size());
            if (sent && ms[0].neuron_indexes_.empty()) violation("message count", "a message without spikes was sent at step %zu", t);
            if (sent && ms[0].header_.send_time_ != t) violation("message time", "the message of step %zu has time %zu", t, static_cast<size_t>(ms[0].header_.send_time_));
            if (sent) d = ms[0].neuron_indexes_;
        }
        else
            d = rd.take(t, threw);
        Quiet q;
        sim::obs(d.size());
        for (auto x : d) sim::obs(x);
        spikes += d.size();
        if (threw && !is.bad()) violation("exception", "the converter failed at step %zu although the stream did not", t);
        if (threw) { sim::probe("failures reported by exception"); continue; }     // what the step had read is lost with it
        if (t == w.cut)
        {
            if (d.size() > w.partial.size() || !std::equal(d.begin(), d.end(), w.partial.begin()))
                violation("spikes invented", "step %zu, in which the device failed, has %zu spike(s) that are not the beginning of what was read", t, d.size());
            continue;
        }
        static const km::SpikeData none;
        const km::SpikeData &e = t < w.steps.size() ? w.steps[t] : none;
        if (d == e) continue;
        if (t >= w.steps.size()) violation("spikes after the end", "%zu spike(s) at step %zu, after the stream %s", d.size(), t, is.bad() ? "failed" : "ended");
        if (d.size() < e.size()) violation("spikes lost", "step %zu has %zu spike(s), the stream held %zu", t, d.size(), e.size());
        violation("wrong spikes", "step %zu has %zu spike(s) that are not those of the stream", t, d.size());
    }
    return spikes;
}
std::vector<std::string> split(const std::string &s, char d)
{
    std::vector<std::string> v(1);
    for (char ch : s)
        if (ch == d) v.emplace_back();
        else v.back() += ch;
    return v;
}
void run21(const Case &c)
{
    long kind = c.P("kind", 0, 0, 3);
    std::string text;
    char delim = ",; |"[c.P("delim", 0, 0, 3)];
    std::vector<std::vector<long>> lines;
    std::vector<std::pair<size_t, size_t>> sizes;
    {
        Quiet q;
        for (auto &op : c.ops)
        {
            if (op.k == "line" && lines.size() < 512) lines.push_back(op.a);
            if (op.k == "size") sizes.push_back({op.idx(0, 64), op.idx(1, 512)});
        }
        size_t k = 0, bad = static_cast<size_t>(c.P("bad", 0, 0, 1000));
        static const char *space[] = {" ", "\n", "\t", "  ", " \n "};
        for (size_t i = 0; i < lines.size(); ++i)
        {
            for (size_t j = 0; j < lines[i].size(); ++j)
            {
                long v = std::labs(lines[i][j]);
                ++k;
                if (kind == 0) text += std::to_string(static_cast<uint32_t>(v)) + (j + 1 < lines[i].size() ? std::string(1, delim) : "");
                else
                {
                    if (bad && k == bad) text += "no";
                    else if (kind == 1) text += std::to_string(static_cast<int>(v % 100) - 50);
                    else if (kind == 2) { char b[40]; snprintf(b, sizeof b, v & 1 ? "%.3f" : "%g", static_cast<double>(static_cast<float>(v % 97) / 8 - 4)); text += b; }
                    else text += v & 1 ? "1" : "0";
                    text += space[static_cast<size_t>(v) % 5];
                }
            }
            if (kind == 0 && (i + 1 < lines.size() || c.P("eol", 1, 0, 1))) text += '\n';
        }
    }
    Stream st(text, c.P("limit", -1, -1, 1 << 20), static_cast<int>(c.P("piece", 0, 0, 16)), c.P("broken", 0, 0, 1));
    Want w;
    size_t spikes = 0;
    std::string held = st.held();
    if (kind == 0)
    {
        {
            Quiet q;
            size_t from = 0;
            while (from < held.size())
            {
                size_t nl = held.find('\n', from);
                bool whole = nl != std::string::npos;
                std::string line = held.substr(from, whole ? nl - from : nl);
                from = whole ? nl + 1 : held.size();
                auto fields = split(line, delim);
                km::SpikeData d;
                for (size_t i = 0; i < fields.size(); ++i)
                    if (fields[i].size()) d.push_back(static_cast<uint32_t>(strtoul(fields[i].c_str(), nullptr, 10)));
                if (!whole && st.src->broken)
                {
                    w.cut = w.steps.size();
                    if (fields.back().size()) d.pop_back();
                    w.partial = d;
                }
                else w.steps.push_back(d);
            }
            if (w.cut != ~size_t(0)) w.steps.push_back({});
        }
        in::IndexConverter conv(std::move(st.is), delim);
        spikes = drive(c, conv, conv.get_stream(), w, [](size_t) {});
    }
    else
    {
        long interp = c.P("interp", 0, 0, 3);
        std::vector<double> values;
        {
            Quiet q;
            // Complete values only; the last one may end with the stream but not with a failure.
            size_t i = 0;
            while (i < held.size())
            {
                while (i < held.size() && isspace(static_cast<unsigned char>(held[i]))) ++i;
                size_t e = i;
                while (e < held.size() && !isspace(static_cast<unsigned char>(held[e]))) ++e;
                if (e == i || (e == held.size() && st.src->broken)) break;
                std::string tok = held.substr(i, e - i);
                char *end = nullptr;
                double v = strtod(tok.c_str(), &end);
                if (!end || *end) break;
                values.push_back(v);
                i = e;
            }
        }
        auto go = [&](auto zero, auto f)
        {
            using T = decltype(zero);
            size_t size = static_cast<size_t>(c.P("size", 3, 0, 512));
            {
                Quiet q;
                // What the steps must bring, with the sizes in force at each of them.
                size_t at = 0, sz = size;
                for (size_t t = 0; t < (1u << 16) && at < values.size(); ++t)
                {
                    for (auto &x : sizes)
                        if (x.first == t) sz = x.second;
                    if (!sz && t >= 64) break;      // a size that is never given again: nothing more is read
                    km::SpikeData d;
                    for (size_t i = 0; i < sz && at < values.size(); ++i, ++at)
                        if (f(static_cast<T>(values[at]))) d.push_back(static_cast<uint32_t>(i));
                    w.steps.push_back(d);
                }
            }
            size_t interpreted = 0;
            in::SequenceConverter<T> conv(
                std::move(st.is), [&](T v) { ++interpreted; return f(v); }, size);
            spikes = drive(c, conv, conv.get_stream(), w, [&](size_t t)
                           {
                               for (auto &x : sizes)
                                   if (x.first == t) conv.set_size(x.second);
                           });
        };
        if (kind == 3) go(int{}, in::interpret_as_bool<int>);
        else if (kind == 1)
        {
            if (interp == 0) go(int{}, in::interpret_with_threshold<int>(7));
            else if (interp == 1) go(int{}, [](int v) { return v <= 0; });
            else if (interp == 2) go(int{}, [](int v) { return v % 2 == 0; });
            else go(int{}, [](int) { return true; });
        }
        else if (interp & 1) go(float{}, [](float v) { return v < 2.5f; });
        else go(float{}, in::interpret_with_threshold<float>(0.125f));
    }
    if (spikes) sim::nontrivial();
    sim::probe("spikes read", spikes);
    sim::probe("pieces the streams came in", st.src->pieces);
    if (st.src->errors) sim::probe("device errors met", st.src->errors);
    else if (st.src->limit < st.src->text.size()) sim::probe("streams that ended early");
}
sim::Register r21({"C21", "stream_converters", 1, gen21, run21,
              "A case is the contents of a stream (lines of indexes, or values with an interpreter), the sizes of the pieces it arrives in, and where it ends or its device fails. A run is non-trivial when at least one spike was read.",
              "IndexConverter, SequenceConverter, InputChannel, message bus and endpoints, std::istream", "the device behind the stream (streambuf with seeded short reads, early end and errors)", 0, 0});

// ---- C23 ----------------------------------------------------------------------------------------------------------
struct Frames
{
    size_t image, steps, classes, max, train = 0, inference = 0;
    std::vector<std::vector<uint8_t>> images;
    std::vector<unsigned> labels;
    std::string image_text, label_text;
};
void gen_frames(Rng &r, Case &c, bool faults)
{
    // A few datasets are of an everyday size: larger images, more frames, more classes, more steps per frame.
    bool wide = r.chance(0.03);
    c.p["image"] = wide && r.chance(0.5) ? r.range(7, r.chance(0.5) ? 64 : 900) : r.range(1, 6);
    c.p["per"] = wide && r.chance(0.5) ? r.range(6, 40) : r.range(1, 5);
    c.p["classes"] = wide ? r.range(5, 20) : r.range(1, 5);
    long n = r.range(faults ? 0 : 1, wide && r.chance(0.5) ? (!faults || c.p["image"] > 64 ? 30 : 400) : 8);
    for (long i = 0; i < n; ++i) c.op("img", {static_cast<long>(r.next() >> 20)});
    long m = faults && r.chance(0.3) ? r.range(0, n + 1) : n;
    for (long i = 0; i < m; ++i) c.op("lab", {r.range(0, wide ? 19 : 4), r.chance(0.15) ? r.range(1, 3) : 0});
    c.p["max"] = r.chance(0.3) ? r.range(0, wide ? n : 5) : r.chance(0.5) ? n : n + r.range(1, 5);
    if (!faults) c.p["max"] = n;
    c.p["active"] = r.range(0, c.p["per"]);
    c.p["factor"] = r.range(1, 6);
    c.p["train"] = r.range(0, wide ? n : 8);
    gen_stream(r, c, "ilimit", "ipiece", "ibroken", n * (c.p["image"] > 6 ? c.p["image"] : 4) + 2);
    gen_stream(r, c, "llimit", "lpiece", "lbroken", m * 2 + 1);
    if (!faults) c.p["ilimit"] = c.p["llimit"] = -1;
}
Frames frames_of(const Case &c)
{
    Quiet q;
    Frames f;
    f.image = static_cast<size_t>(c.P("image", 3, 1, 1024)), f.steps = static_cast<size_t>(c.P("per", 2, 1, 64));
    f.classes = static_cast<size_t>(c.P("classes", 2, 1, 32)), f.max = static_cast<size_t>(c.P("max", 3, 0, 1024));
    for (auto &op : c.ops)
    {
        if (op.k == "img" && f.images.size() < 512)
        {
            Rng r(static_cast<uint64_t>(op.A(0)));
            std::vector<uint8_t> v;
            for (size_t i = 0; i < f.image; ++i) v.push_back(static_cast<uint8_t>(r.chance(0.2) ? (r.chance(0.5) ? 10 : 255) : r.below(256)));
            f.image_text.append(v.begin(), v.end());
            f.images.push_back(std::move(v));
        }
        if (op.k == "lab" && f.labels.size() < 512)
        {
            f.labels.push_back(static_cast<unsigned>(op.idx(0, f.classes)));
            static const char *pre[] = {"", " ", "+", "00"}, *suf[] = {"\n", "\n", "\r\n", " \n"};
            size_t k = op.idx(1, 4);
            f.label_text += pre[k] + std::to_string(f.labels.back()) + suf[k];
        }
    }
    return f;
}
// What the incrementing converter makes of an image, given what is left of the images before.
std::vector<bool> reference(const std::vector<uint8_t> &img, std::vector<float> &left, size_t steps, size_t active, float factor)
{
    std::vector<bool> v(steps * img.size());
    if (left.empty()) left.assign(img.size(), 0.f);
    for (size_t t = 0; t < active; ++t)
        for (size_t i = 0; i < img.size(); ++i)
        {
            left[i] += factor * static_cast<float>(img[i]);
            if (left[i] >= 1.f) v[t * img.size() + i] = true, left[i] -= 1.f;
        }
    return v;
}
km::SpikeData slice(const std::vector<bool> &v, size_t t, size_t n)
{
    km::SpikeData d;
    for (size_t i = 0; i < n; ++i)
        if (v[t * n + i]) d.push_back(static_cast<uint32_t>(i));
    return d;
}
void gen23(Rng &r, Case &c)
{
    gen_frames(r, c, true);
    c.p["own"] = r.chance(0.4);             // the user's own conversion of images
    c.p["throw"] = r.chance(0.12) ? r.range(1, r.chance(0.1) ? 100 : 6) : 0;
    c.p["alloc"] = r.chance(0.2);
    long n = r.range(1, 12);
    for (long i = 0; i < n; ++i) c.op("look", {r.chance(0.2) ? static_cast<long>(r.below(1u << 30)) : r.range(0, r.chance(0.1) ? 4000 : 60)});
}
void run23(const Case &c)
{
    Frames f = frames_of(c);
    bool own = c.P("own", 0, 0, 1);
    size_t active = std::min(static_cast<size_t>(c.P("active", 1, 0, 64)), f.steps), bomb = static_cast<size_t>(c.P("throw", 0, 0, 100));
    float factor = static_cast<float>(c.P("factor", 1, 1, 8)) / 256.f / 2.f;
    Stream is(f.image_text, c.P("ilimit", -1, -1, 1 << 20), static_cast<int>(c.P("ipiece", 0, 0, 16)), c.P("ibroken", 0, 0, 1));
    Stream ls(f.label_text, c.P("llimit", -1, -1, 1 << 20), static_cast<int>(c.P("lpiece", 0, 0, 16)), c.P("lbroken", 0, 0, 1));
    // What can be read: complete images, complete lines; a last line without its end counts either way.
    size_t whole_images = is.held().size() / f.image, whole_labels = 0, loose = 0;
    {
        Quiet q;
        std::string h = ls.held();
        for (char ch : h) whole_labels += ch == '\n';
        // The unfinished line holds the whole label and lacks only its end.
        if (h.size() && h.back() != '\n' && !ls.src->broken && whole_labels < f.labels.size())
        {
            std::string rest = h.substr(h.rfind('\n') + 1);
            size_t digits = 0;
            for (char ch : rest) digits += isdigit(static_cast<unsigned char>(ch)) != 0;
            if (digits) loose = 1;
        }
    }
    ki::Dataset ds;
    size_t converted = 0;
    std::vector<std::vector<uint8_t>> seen;
    std::function<ki::Dataset::Frame(const std::vector<uint8_t> &)> conv;
    auto inc = ds.make_incrementing_image_to_spikes_converter(active, factor);
    conv = [&](const std::vector<uint8_t> &img) -> ki::Dataset::Frame
    {
        {
            Quiet q;
            seen.push_back(img);
            if (bomb && ++converted == bomb) throw std::domain_error("conversion");
        }
        if (!own) return inc(img);
        Quiet q;
        std::vector<bool> v;
        for (size_t t = 0; t < f.steps; ++t)
            for (auto x : img) v.push_back((x >> (t % 8)) & 1);
        return {v};
    };
    bool failed = false;
    const char *why = "";
    size_t budget = f.max;
    try
    {
        sim::AllocFaults af(c.P("alloc", 0, 0, 1) ? 0.05 : 0);
        ds.process_labels_and_images(*is.is, *ls.is, budget, f.classes, f.image, f.steps, conv);
    }
    catch (const std::bad_alloc &) { failed = true, why = "allocation"; sim::probe("loading failed for lack of memory"); }
    catch (const std::domain_error &) { failed = true, why = "conversion"; sim::probe("loading failed in the conversion"); }
    catch (const std::invalid_argument &)
    {
        // An unfinished line without a number in it
        failed = true, why = "label";
        Quiet q;
        std::string h = ls.held();
        if (!(h.size() && h.back() != '\n' && whole_labels < f.labels.size())) violation("exception", "loading rejected a label although all of them are numbers");
    }
    // How many frames there are is seen by splitting.
    size_t n = 0;
    {
        sim::NoAllocFaults na;
        for (n = 0; n < 1024; ++n)
        {
            try { ds.split(n + 1, 0); }
            catch (const std::runtime_error &) { break; }
        }
        ds.split(n, 0);
    }
    {
        Quiet q;
        size_t all = std::min({whole_images, whole_labels, f.max}), more = std::min({whole_images, whole_labels + loose, f.max});
        if (n > f.max) violation("too many frames", "the dataset holds %zu frames, %zu were asked for", n, f.max);
        if (n > more) violation("frame invented", "the dataset holds %zu frames; %zu complete images and %zu labels could be read", n, whole_images, whole_labels);
        if (!failed && n < all) violation("frame lost", "the dataset holds %zu frames; %zu complete images and %zu labels could be read, %zu were asked for", n, whole_images, whole_labels, f.max);
        if (failed && !strcmp(why, "conversion") && n != bomb - 1) violation("frame lost", "the dataset holds %zu frames after the conversion of frame %zu failed", n, bomb);
        // The conversion sees images of the stream, each whole, in order.
        for (size_t i = 0; i < seen.size(); ++i)
            if (i >= whole_images || seen[i] != f.images[i]) violation("partial frame", "image %zu given to the conversion is not image %zu of the stream", i, i);
        if (ds.get_image_size() != f.image || ds.get_steps_per_frame() != f.steps || ds.get_amount_of_classes() != f.classes) violation("sizes", "the dataset reports other sizes than it was given");
    }
    std::vector<std::vector<bool>> want;
    {
        Quiet q;
        std::vector<float> left;
        for (size_t i = 0; i < n; ++i)
        {
            if (!own) want.push_back(reference(f.images[i], left, f.steps, active, factor));
            else
            {
                std::vector<bool> v;
                for (size_t t = 0; t < f.steps; ++t)
                    for (auto x : f.images[i]) v.push_back((x >> (t % 8)) & 1);
                want.push_back(v);
            }
        }
    }
    size_t train = n ? static_cast<size_t>(c.P("train", 0, 0, 1024)) % (n + 1) : 0, inference = n - train;
    ds.split(train, inference);
    {
        auto [a, b] = ds.get_data_for_training();
        auto [d, e] = ds.get_data_for_inference();
        Quiet q;
        if (static_cast<size_t>(b - a) != train || static_cast<size_t>(e - d) != inference) violation("split", "a split into %zu and %zu gave %zu and %zu frames", train, inference, static_cast<size_t>(b - a), static_cast<size_t>(e - d));
        if (ds.get_steps_amount_for_training() != train * f.steps || ds.get_steps_amount_for_inference() != inference * f.steps) violation("split", "the steps needed for training or inference are wrong");
        size_t i = 0;
        auto look = [&](auto &x)
        {
            if (x.first != f.labels[i]) violation("mislabelled frame", "frame %zu has label %u, the stream had %u", i, x.first, f.labels[i]);
            if (x.second.spikes_ != want[i]) violation("wrong frame", "frame %zu is not image %zu of the stream", i, i);
            sim::obs(x.first);
            ++i;
        };
        for (; a != b; ++a) look(*a);
        for (; d != e; ++d) look(*d);
    }
    // A split that asks for more frames than there are is refused and changes nothing.
    for (size_t a = 0; a <= n + 1; ++a)
    {
        size_t b = n + 1 - a;
        bool refused = false;
        try { ds.split(a, b); }
        catch (const std::runtime_error &) { refused = true; }
        Quiet q;
        if (!refused) violation("split", "%zu frames were split into %zu and %zu", n, a, b);
        if (ds.get_steps_amount_for_training() != train * f.steps || ds.get_steps_amount_for_inference() != inference * f.steps) violation("split", "a refused split changed the split");
    }
    // Generators over any steps.
    auto tl = ds.make_training_labels_generator();
    auto ti = ds.make_training_images_spikes_generator();
    auto ii = ds.make_inference_images_spikes_generator();
    for (auto &op : c.ops)
        if (op.k == "look")
        {
            auto t = static_cast<size_t>(std::labs(op.A(0)));
            size_t fr = t / f.steps, in_frame = t % f.steps;
            if (train)
            {
                auto a = tl(t), b = ti(t);
                Quiet q;
                if (a.size() != 1 || a[0] != f.labels[fr % train]) violation("label presented", "the label presented at step %zu is not that of frame %zu", t, fr % train);
                if (b != slice(want[fr % train], in_frame, f.image)) violation("frame presented", "the training spikes of step %zu are not step %zu of frame %zu", t, in_frame, fr % train);
            }
            if (inference)
            {
                auto b = ii(t);
                Quiet q;
                if (b != slice(want[train + fr % inference], in_frame, f.image)) violation("frame presented", "the inference spikes of step %zu are not step %zu of frame %zu", t, in_frame, train + fr % inference);
            }
        }
    if (n) sim::nontrivial();
    sim::probe("frames loaded", n);
    if (is.src->errors + ls.src->errors) sim::probe("device errors met", is.src->errors + ls.src->errors);
    if (is.src->limit % f.image) sim::probe("image streams that end inside an image");
    if (loose) sim::probe("label streams that end inside a line");
}
sim::Register r23({"C23", "image_datasets", 1, gen23, run23,
              "A case is an image stream and a label stream, the pieces they arrive in, where each ends or fails, a limit, a conversion (the library's or one that may throw), a split and steps to look at. A run is non-trivial when at least one frame was loaded.",
              "images::Dataset, its converters and generators, std::istream", "the devices behind the streams (seeded short reads, early end, errors), memory allocator failures", 0, 0});

// ---- C34 ----------------------------------------------------------------------------------------------------------
// A dataset presented to a model through an input channel; what comes out is evaluated and written to a stream that may fail.
struct Dev : std::streambuf
{
    std::string text;
    size_t limit;
    bool throws;
    Dev(size_t l, bool t) : limit(l), throws(t) {}
    int overflow(int ch) override
    {
        if (text.size() >= limit)
        {
            if (throws) throw std::runtime_error("device error");
            return traits_type::eof();
        }
        text += static_cast<char>(ch);
        return ch;
    }
};
// Votes of every frame and class, against what the evaluation says.
void judge_results(const std::vector<std::vector<size_t>> &v, const std::vector<unsigned> &labels, size_t train, size_t classes, const std::vector<ev::InferenceResult> &got)
{
    std::vector<ev::InferenceResult> lo(classes);         // ties may be decided either way
    std::vector<size_t> ties(classes);
    for (size_t i = 0; i < v.size(); ++i)
    {
        size_t label = labels[train + i], best = *std::max_element(v[i].begin(), v[i].end());
        size_t winners = static_cast<size_t>(std::count(v[i].begin(), v[i].end(), best));
        if (!best) ++lo[label].false_negatives_;
        else if (v[i][label] != best) ++lo[label].false_positives_;
        else if (winners == 1) ++lo[label].true_positives_;
        else ++ties[label];
    }
    if (got.size() != classes) violation("classes", "%zu classes were evaluated, there are %zu", got.size(), classes);
    for (size_t k = 0; k < classes; ++k)
    {
        size_t mine = lo[k].get_total_votes() + ties[k];
        if (got[k].get_total_votes() != mine) violation("frame not counted once", "class %zu was presented %zu times, %zu were evaluated", k, mine, got[k].get_total_votes());
        if (got[k].true_negatives_ + mine != v.size()) violation("frame not counted once", "class %zu: %zu frames of other classes, %zu were evaluated", k, v.size() - mine, got[k].true_negatives_);
        if (got[k].false_negatives_ != lo[k].false_negatives_) violation("wrong votes", "class %zu: %zu frames brought no spike, evaluated as %zu", k, lo[k].false_negatives_, got[k].false_negatives_);
        if (got[k].true_positives_ < lo[k].true_positives_ || got[k].true_positives_ > lo[k].true_positives_ + ties[k])
            violation("wrong votes", "class %zu: %zu frames were won by their class (and %zu drawn), evaluated as %zu", k, lo[k].true_positives_, ties[k], got[k].true_positives_);
    }
}
// The report: all of the counts; and what a failing device got of it.
void judge_report(const std::string &text, const Dev &dev, const std::vector<ev::InferenceResult> &got)
{
    if (dev.text != text.substr(0, std::min(dev.limit, text.size()))) violation("report", "a report written to a stream that fails after %zu bytes is not the beginning of the report", dev.limit);
    auto rows = split(text, '\n');
    if (rows.size() != got.size() + 2) violation("report", "the report has %zu lines for %zu classes", rows.size(), got.size());
    for (size_t k = 0; k < got.size(); ++k)
    {
        auto cols = split(rows[k + 1], ',');
        size_t want[] = {k, got[k].get_total_votes(), got[k].true_positives_, got[k].false_negatives_, got[k].false_positives_, got[k].true_negatives_};
        for (size_t j = 0; j < 6; ++j)
            if (cols.size() != 11 || cols[j] != std::to_string(want[j])) violation("report", "line %zu of the report does not give the results of class %zu", k + 1, k);
    }
}
void gen34(Rng &r, Case &c)
{
    GenOptions o;
    c.p["mt"] = r.chance(0.5);
    o.st_types = !c.p["mt"];
    o.impacts = false;
    gen_net(r, c, o);
    gen_frames(r, c, false);
    gen_pieces(r, c);
    c.p["pop"] = r.range(0, 5);
    c.p["proj"] = r.range(0, 7);
    c.p["wlimit"] = r.chance(0.5) ? -1 : r.range(0, 400);
    c.p["wthrows"] = r.chance(0.3);
    c.p["drain"] = r.chance(0.4);
    c.p["second"] = r.chance(0.3) ? r.range(0, 5) : -1;      // another population that votes too
}
void run34(const Case &c)
{
    bool mt = c.P("mt", 0, 0, 1);
    Spec s = parse(c, mt);
    if (s.projs.empty() || s.pops.empty()) return;
    Frames f = frames_of(c);
    if (f.images.empty()) return;
    Stream is(f.image_text, -1, static_cast<int>(c.P("ipiece", 0, 0, 16)), false), ls(f.label_text, -1, static_cast<int>(c.P("lpiece", 0, 0, 16)), false);
    ki::Dataset ds;
    size_t active = std::min(static_cast<size_t>(c.P("active", 1, 0, 64)), f.steps);
    ds.process_labels_and_images(*is.is, *ls.is, f.images.size(), f.classes, f.image, f.steps, ds.make_incrementing_image_to_spikes_converter(active, 0.02f));
    size_t n = std::min(f.images.size(), f.labels.size());
    size_t train = n ? static_cast<size_t>(c.P("train", 0, 0, 1024)) % n : 0, inference = n - train;
    if (!inference) return;
    ds.split(train, inference);
    s.steps = std::min(inference * f.steps, size_t{s.pops.size() > 6 ? 24u : 160u});
    s.feeds.clear();
    size_t out = c.P("pop", 0, 0, 64) % s.pops.size(), proj = static_cast<size_t>(c.P("proj", 0, 0, 64)) % s.projs.size();
    size_t second = c.P("second", -1, -1, 64) < 0 ? out : static_cast<size_t>(c.P("second", 0, 0, 64)) % s.pops.size();
    Net net = mt ? make_mt(s, mt_params(c), false) : make_st(s, false);
    std::unique_ptr<kf::Model> model;
    std::unique_ptr<kf::ModelExecutor> ex;
    {
        Quiet q;
        kf::Network network;
        for (size_t i = 0; i < s.pops.size(); ++i) network.add_population(make_pop(s, i));
        for (size_t i = 0; i < s.projs.size(); ++i) network.add_projection(make_proj(s, i));
        model = std::make_unique<kf::Model>(std::move(network));
        model->add_input_channel(uid(16, 1), proj_uid(proj));
        model->add_output_channel(uid(16, 2), pop_uid(out));
        if (second != out) model->add_output_channel(uid(16, 3), pop_uid(second));
        kf::ModelLoader::InputChannelMap map;
        map[uid(16, 1)] = ds.make_inference_images_spikes_generator();
        ex = std::make_unique<kf::ModelExecutor>(*model, net.b, map);
    }
    World w(net, s);
    ex->add_observer<km::SpikeMessage>([&](const std::vector<km::SpikeMessage> &) { w.post(net.b->get_step()); }, {pop_uid(0)});
    std::vector<km::SpikeMessage> spikes;
    auto &channel = ex->get_loader().get_output_channel(uid(16, 2));
    bool drain = c.P("drain", 0, 0, 1);
    std::atomic<long> never{-1};
    auto collect = [&]
    {
        channel.update();
        for (auto &m : channel.read_some_from_buffer(0, ~0ull)) spikes.push_back(m);
    };
    if (drain)
        // The user collects what has come so far before every step.
        run_pieces(*ex, pieces_of(c), s.steps, never, [&](size_t) { collect(); });
    else run_pieces(*ex, pieces_of(c), s.steps, never, [](size_t) {});
    collect();
    if (second != out)
    {
        auto &other = ex->get_loader().get_output_channel(uid(16, 3));
        other.update();
        for (auto &m : other.read_some_from_buffer(0, ~0ull)) spikes.push_back(m);
        std::stable_sort(spikes.begin(), spikes.end(), [](auto &a, auto &b) { return a.header_.send_time_ < b.header_.send_time_; });
    }
    ev::InferenceResultsProcessor proc;
    proc.process_inference_results(spikes, ds);
    std::vector<ev::InferenceResult> got = proc.get_inference_results();
    size_t votes = 0;
    {
        Quiet q;
        // Votes of every frame from what the population sent while the frame was presented.
        size_t frames = inference;
        std::vector<std::vector<size_t>> v(frames, std::vector<size_t>(f.classes));
        for (size_t t = 0; t < s.steps; ++t)
            for (size_t pop : std::set<size_t>{out, second})
                for (auto &m : w.tr.steps[t].spikes[pop])
                    for (auto x : m.neuron_indexes_) ++v[t / f.steps][x % f.classes], ++votes;
        judge_results(v, f.labels, train, f.classes, got);
    }
    // The report: whole, or what fits before the device fails; evaluating or writing again changes nothing.
    std::ostringstream whole;
    proc.write_inference_results_to_stream_as_csv(whole);
    long lim = c.P("wlimit", -1, -1, 4000);
    Dev dev(lim < 0 ? ~size_t(0) : static_cast<size_t>(lim), c.P("wthrows", 0, 0, 1));
    std::ostream os(&dev);
    proc.write_inference_results_to_stream_as_csv(os);
    proc.process_inference_results(spikes, ds);
    Quiet q;
    judge_report(whole.str(), dev, got);
    for (size_t k = 0; k < f.classes; ++k)
        if (proc.get_inference_results()[k].true_positives_ != got[k].true_positives_ || proc.get_inference_results()[k].get_total_votes() != got[k].get_total_votes())
            violation("evaluated twice", "evaluating the same run again gives other results");
    observe(w.tr);
    if (votes) sim::nontrivial();
    sim::probe("votes", votes);
    if (mt) sim::probe("runs on the multi-threaded backend");
}
sim::Register r34({"C34", "inference_runs", 1, gen34, run34,
              "A case is a labelled image dataset, a random network on either backend, a way to cut the run into pieces and a report stream with a place where it fails. A run is non-trivial when the evaluated population voted at least once.",
              "images::Dataset, input and output channels, model executor, backends with worker threads, InferenceResultsProcessor", "thread scheduling, the devices behind the streams", 0, 0});

// The evaluation alone, over long histories, many classes and many votes, with memory that runs out.
void gen34b(Rng &r, Case &c)
{
    bool wide = r.chance(0.25);
    c.p["classes"] = wide && r.chance(0.5) ? r.range(5, 60) : r.range(1, 5);
    c.p["per"] = wide && r.chance(0.3) ? r.range(6, 60) : r.range(1, 5);
    c.p["wlimit"] = r.chance(0.5) ? -1 : r.range(0, wide ? 3000 : 400);
    c.p["wthrows"] = r.chance(0.3);
    c.p["alloc"] = r.chance(0.3);
    long rounds = r.chance(0.6) ? 1 : r.range(2, 3);
    for (long i = 0; i < rounds; ++i)
    {
        bool many = wide && r.chance(0.4);
        long frames = many ? r.range(9, 400) : r.range(1, 8);
        c.op("round", {frames, r.range(0, 5), static_cast<long>(r.below(1 << 20)), r.chance(0.5)});
        long n = r.range(0, 12);
        for (long k = 0; k < n; ++k) c.op("snd", {r.range(0, frames * c.p["per"]), static_cast<long>(r.below(1 << 30)), r.range(0, wide && !many && r.chance(0.3) ? 3000 : 6)});
        if (many || r.chance(0.3)) c.op("rain", {static_cast<long>(r.below(1 << 30)), r.range(1, 9), r.range(1, 5)});
    }
}
void run34b(const Case &c)
{
    struct Round
    {
        size_t frames, train;
        uint64_t seed;
        bool skewed;
        std::vector<std::pair<size_t, km::SpikeData>> sent;
    };
    std::vector<Round> rounds;
    size_t classes = static_cast<size_t>(c.P("classes", 2, 1, 64)), per = static_cast<size_t>(c.P("per", 2, 1, 64)), votes = 0;
    ev::InferenceResultsProcessor proc;
    long lim = c.P("wlimit", -1, -1, 4000);
    bool alloc = c.P("alloc", 0, 0, 1);
    {
        Quiet q;
        for (auto &op : c.ops)
        {
            if (op.k == "round" && rounds.size() < 4) rounds.push_back({std::max<size_t>(1, op.idx(0, 512)), op.idx(1, 8), static_cast<uint64_t>(op.A(2)), (op.A(3) & 1) != 0, {}});
            if (rounds.empty()) continue;
            Round &rd = rounds.back();
            auto message = [&](size_t step, uint64_t seed, size_t n)
            {
                Rng g(seed);
                km::SpikeData d;
                for (size_t i = 0; i < n; ++i) d.push_back(static_cast<uint32_t>(rd.skewed && g.chance(0.7) ? step / per * 7 % classes + classes * g.below(3) : g.below(classes * 3)));
                rd.sent.push_back({step, std::move(d)});
            };
            if (op.k == "snd" && rd.sent.size() < 64) message(op.idx(0, 32768), static_cast<uint64_t>(op.A(1)), op.idx(2, 4096));
            if (op.k == "rain")
            {
                Rng g(static_cast<uint64_t>(op.A(0)));
                for (size_t t = 0; t < rd.frames * per + 3; ++t)
                    for (size_t k = 0; k < 2; ++k)
                        if (g.below(1 + op.idx(1, 16)) == 0) message(t, g.next(), g.below(1 + op.idx(2, 16)));
            }
        }
    }
    for (auto &rd : rounds)
    {
        ki::Dataset ds;
        std::vector<unsigned> labels;
        std::vector<km::SpikeMessage> spikes;
        std::vector<std::vector<size_t>> v;
        {
            Quiet q;
            Rng g(rd.seed);
            std::string text, images;
            for (size_t i = 0; i < rd.frames + rd.train; ++i)
            {
                labels.push_back(static_cast<unsigned>(g.below(classes)));
                text += std::to_string(labels.back()) + "\n", images += 'x';
            }
            std::istringstream is(images), ls(text);
            ds.process_labels_and_images(is, ls, labels.size(), classes, 1, per, ds.make_incrementing_image_to_spikes_converter(1, 0.02f));
            ds.split(rd.train, rd.frames);
            std::stable_sort(rd.sent.begin(), rd.sent.end(), [](auto &a, auto &b) { return a.first < b.first; });
            v.assign(rd.frames, std::vector<size_t>(classes));
            for (auto &m : rd.sent)
            {
                km::SpikeMessage x;
                x.header_.send_time_ = m.first, x.neuron_indexes_ = m.second;
                spikes.push_back(x);
                // What was sent when nothing was presented any more counts for no frame.
                for (auto i : m.second)
                    if (m.first / per < rd.frames) ++v[m.first / per][i % classes], ++votes;
            }
        }
        size_t failed = 0;
        for (;; ++failed)
        {
            try
            {
                sim::AllocFaults a(alloc && failed < 3 ? 0.1 : 0);
                proc.process_inference_results(spikes, ds);
                break;
            }
            catch (const std::bad_alloc &)
            {
                sim::probe("evaluations that ran out of memory");
            }
        }
        std::ostringstream whole;
        proc.write_inference_results_to_stream_as_csv(whole);
        Dev dev(lim < 0 ? ~size_t(0) : static_cast<size_t>(lim), c.P("wthrows", 0, 0, 1));
        std::ostream os(&dev);
        proc.write_inference_results_to_stream_as_csv(os);
        Quiet q;
        judge_results(v, labels, rd.train, classes, proc.get_inference_results());
        judge_report(whole.str(), dev, proc.get_inference_results());
        for (auto &x : proc.get_inference_results()) sim::obs(x.true_positives_), sim::obs(x.false_positives_);
    }
    if (votes) sim::nontrivial();
    sim::probe("votes", votes);
}
sim::Register r34b({"C34", "inference_histories", 1, gen34b, run34b,
              "A case is a list of evaluations by one processor: frames, classes and messages sent while they were presented and after, with a report stream that may fail and memory that may run out (the evaluation is then repeated). Non-trivial when there was a vote.",
              "images::Dataset, InferenceResultsProcessor", "output population (seeded messages), memory allocator failures, the device behind the report stream", 0, 0});
}  // namespace
