// C39 devices keep their identity and exactly the requested ones are selected.
#include <knp/devices/cpu.h>

#include <thread>

#include "backend_net.h"

using namespace net;
namespace kd = knp::devices::cpu;

namespace
{
struct Injected : std::runtime_error { using std::runtime_error::runtime_error; };
// A backend with several devices, as a backend for other hardware has them.
struct Accelerator : kc::Device
{
    std::string name;
    explicit Accelerator(size_t i) : name("accelerator " + std::to_string(i))
    {
        base_.uid_ = uid(20, static_cast<unsigned>(i));
    }
    kc::DeviceType get_type() const override { return kc::DeviceType::NPU; }
    const std::string get_name() const override { return name; }
    float get_power() const override { return 1; }
};
size_t listings_left = 0;     // a driver that fails after so many listings (0: never)
template <class B>
struct Several : B
{
    size_t n;
    bool with_cpu;
    Several(size_t count, bool cpu) : n(count), with_cpu(cpu) {}
    std::vector<std::unique_ptr<kc::Device>> get_devices() const override
    {
        std::vector<std::unique_ptr<kc::Device>> r;
        if (listings_left && !--listings_left) throw Injected("driver failure");
        for (size_t i = 0; i < n; ++i) r.push_back(std::make_unique<Accelerator>(i));
        if (with_cpu)
            for (auto &d : B::get_devices()) r.insert(r.begin() + static_cast<long>(n / 2), std::move(d));
        return r;
    }
};
struct Known { kc::UID id; std::string name; kc::DeviceType type; };

void gen39(Rng &r, Case &c)
{
    c.p["alloc"] = r.chance(0.4) ? r.range(5, 200) : 0;
    c.p["entropy"] = static_cast<long>(r.below(1u << 20));
    c.p["efail"] = r.chance(0.3) ? r.range(1, 40) : 0;
    c.p["driver"] = r.chance(0.3) ? r.range(1, 12) : 0;
    c.p["several"] = r.range(0, r.chance(0.04) ? 40 : 5);
    c.p["cpu"] = r.chance(0.5);
    long n = r.range(2, 20);
    for (long i = 0; i < n; ++i)
    {
        double u = r.unit();
        long b = r.range(0, 2);
        if (u < 0.15) c.op("list", {b});
        else if (u < 0.50) c.op("select", {r.chance(0.7) ? 2 : b, static_cast<long>(r.chance(0.6) ? r.below(64) : r.next() >> 1), r.chance(0.2)});
        else if (u < 0.65) c.op("one", {b, static_cast<long>(r.below(8)), static_cast<long>(r.below(3))});
        else if (u < 0.75) c.op("keep", {});
        else if (u < 0.88) c.op("move", {static_cast<long>(r.below(16)), static_cast<long>(r.below(16))});
        else if (u < 0.94) c.op("run", {b});
        else c.op("together", {r.chance(0.05) ? r.range(2, 7) : r.range(0, 1)});
    }
}
void run39(const Case &c)
{
    double p = static_cast<double>(c.P("alloc", 0, 0, 400)) / 1000.0;
    ST st_backend;
    MT mt_backend(2, 1, 1);
    Several<ST> several(static_cast<size_t>(c.P("several", 2, 0, 64)), c.P("cpu", 0, 0, 1) != 0);
    kc::Backend *const backends[3] = {&st_backend, &mt_backend, &several};
    std::vector<Known> known[3];
    std::vector<kc::UID> current[3];
    listings_left = 0;
    sim::set_entropy(static_cast<uint64_t>(c.P("entropy", 1, 0, 1L << 40)), 0);
    auto describe = [](const std::vector<std::unique_ptr<kc::Device>> &v)
    {
        std::vector<Known> r;
        for (auto &d : v) r.push_back({d->get_uid(), d->get_name(), d->get_type()});
        return r;
    };
    auto same_list = [](const std::vector<Known> &a, const std::vector<Known> &b)
    {
        if (a.size() != b.size()) return false;
        for (auto &x : a)
            if (std::count_if(b.begin(), b.end(), [&](const Known &y) { return x.id == y.id && x.name == y.name && x.type == y.type; }) != 1) return false;
        return true;
    };
    for (size_t i = 0; i < 3; ++i)
    {
        known[i] = describe(backends[i]->get_devices());
        for (size_t a = 0; a < known[i].size(); ++a)
            for (size_t b = 0; b < a; ++b)
                if (known[i][a].id == known[i][b].id) violation("identifier shared", "two devices of a backend have the same identifier");
    }
    if (known[0].empty()) violation("device lost", "a CPU backend lists no device");
    if (!same_list(known[0], known[1])) violation("identity changed", "two backends list the processors of the machine under different identifiers");
    double pe = static_cast<double>(c.P("efail", 0, 0, 90)) / 100.0;
    sim::set_entropy(static_cast<uint64_t>(c.P("entropy", 1, 0, 1L << 40)) + 1, pe);
    listings_left = static_cast<size_t>(c.P("driver", 0, 0, 64));
    size_t failures = 0, selections = 0, refused = 0, multiple = 0;
    // Runs f; returns 0 done, 1 failed by a fault, 2 refused.
    auto attempt = [&](auto f)
    {
        try
        {
            sim::AllocFaults a(p);
            f();
            return 0;
        }
        catch (const std::bad_alloc &) { if (p == 0) violation("failure", "out of memory although there is enough"); }
        catch (const boost::uuids::entropy_error &) { if (pe == 0) violation("failure", "no entropy although there is"); }
        catch (const Injected &) {}
        catch (const std::logic_error &) { return 2; }
        ++failures;
        sim::probe("operations failed by a fault");
        return 1;
    };
    auto check_current = [&](size_t i, const char *when)
    {
        auto have = describe(backends[i]->get_current_devices());
        std::vector<Known> want;
        for (auto &id : current[i])
            for (auto &k : known[i])
                if (k.id == id) want.push_back(k);
        if (!same_list(want, have)) violation("wrong selection", "%s: %zu device(s) are current, %zu were selected", when, have.size(), want.size());
    };
    struct Mine { kd::CPU cpu; size_t proc; int mark; };
    std::vector<Mine> mine;       // processors a user holds and moves around
    int marks = 0;
    auto check_mine = [&](const Mine &m, const char *when)
    {
        Mine &x = const_cast<Mine &>(m);
        const Known &k = known[0][x.proc];
        if (!(x.cpu.get_uid() == k.id) || x.cpu.get_name() != k.name || x.cpu.get_type() != k.type) violation("identity changed", "%s a processor has another identifier or name", when);
        if (x.cpu.get_socket_number() != x.proc) violation("identity changed", "%s processor %zu has another number", when, x.proc);
        if (!x.cpu.get_tags().exists("mark") || std::any_cast<int>(x.cpu.get_tags().get_tag("mark")) != x.mark) violation("tag lost", "%s a processor has lost a tag", when);
    };
    for (auto &op : c.ops)
    {
        size_t i = op.idx(0, 3);
        if (op.k == "list")
        {
            std::vector<std::unique_ptr<kc::Device>> v;
            if (attempt([&] { v = backends[i]->get_devices(); }) == 2) violation("failure", "listing devices is refused");
            else if (!v.empty() || known[i].empty())
            {
                if (!same_list(describe(v), known[i])) violation("identity changed", "a listing differs from an earlier one");
            }
        }
        else if (op.k == "select")
        {
            std::set<kc::UID> ids;
            std::vector<kc::UID> want;
            for (size_t k = 0; k < known[i].size(); ++k)
                if (op.A(1) >> k & 1) ids.insert(known[i][k].id), want.push_back(known[i][k].id);
            if (op.A(2)) ids.insert(uid(21, 7));
            int r = attempt([&] { backends[i]->select_devices(ids); });
            if (!r && op.A(2)) violation("wrong selection", "selecting a device the backend does not have is accepted");
            if (r == 2 && !op.A(2)) violation("selection refused", "selecting %zu of %zu listed device(s) is refused", want.size(), known[i].size());
            if (!r) current[i] = want, ++selections, multiple += want.size() > 1;
            refused += r == 2;
            check_current(i, r ? "after a selection that failed" : "after a selection");
        }
        else if (op.k == "one")
        {
            std::vector<std::unique_ptr<kc::Device>> v;
            if (attempt([&] { v = backends[i]->get_devices(); }) || v.empty()) continue;
            size_t k = op.idx(1, v.size());
            kc::Device *d = v[k].get();
            kc::UID id = d->get_uid();
            int r = attempt([&] { backends[i]->select_device(std::move(v[k])); });
            if (r == 2) violation("selection refused", "selecting a device is refused");
            if (!r)
            {
                current[i] = {id};
                ++selections;
                if (backends[i]->get_current_devices().size() != 1 || backends[i]->get_current_devices()[0].get() != d) violation("wrong selection", "the device that was handed over is not the current one");
            }
            check_current(i, r ? "after a selection that failed" : "after the selection of a device");
        }
        else if (op.k == "keep")
        {
            std::vector<kd::CPU> v;
            if (attempt([&] { v = kd::list_processors(); })) continue;
            if (v.size() != known[0].size()) violation("device lost", "%zu processor(s) listed, %zu before", v.size(), known[0].size());
            for (size_t k = 0; k < v.size(); ++k)
            {
                v[k].get_tags()["mark"] = ++marks;
                if (attempt([&] { mine.push_back(Mine{std::move(v[k]), k, marks}); })) return;     // a half-moved collection is nobody's promise
            }
        }
        else if (op.k == "move")
        {
            if (mine.empty()) continue;
            sim::NoAllocFaults na;
            sim::set_entropy(1, 0);
            size_t a = op.idx(0, mine.size()), b = op.idx(1, mine.size());
            if (a != b)
            {
                mine[b].cpu = std::move(mine[a].cpu);
                mine[b].mark = mine[a].mark, mine[b].proc = mine[a].proc;
                check_mine(mine[b], "after an assignment");
                mine.erase(mine.begin() + static_cast<long>(a));
            }
            else
            {
                kd::CPU t(std::move(mine[a].cpu));
                Mine m{std::move(t), mine[a].proc, mine[a].mark};
                check_mine(m, "after a move");
                mine[a].cpu = std::move(m.cpu);
            }
            sim::set_entropy(static_cast<uint64_t>(c.P("entropy", 1, 0, 1L << 40)) + 2, pe);
            for (auto &m : mine) check_mine(m, "after moving others");
        }
        else if (op.k == "run")
        {
            sim::NoAllocFaults na;
            auto &b = *backends[i];
            knp::core::Step from = b.get_step();
            b.start([from](kc::Step s) { return s < from + 2; });
            if (b.get_step() != from + 2) violation("run", "a backend with selected devices made %zu steps of 2", static_cast<size_t>(b.get_step() - from));
            check_current(i, "after a run");
        }
        else if (op.k == "together")
        {
            // Constant operations of different threads.
            size_t n = 2 + op.idx(0, 8);
            std::vector<std::thread> t;
            std::vector<int> ok(n);
            for (size_t k = 0; k < n; ++k)
                t.emplace_back([&, k]
                {
                    try
                    {
                        auto v = backends[k & 1]->get_devices();
                        for (auto &d : v) sim::obs(d->get_uid().tag.data[3]);
                        ok[k] = same_list(describe(v), known[0]) ? 1 : 2;
                    }
                    catch (const boost::uuids::entropy_error &)
                    {
                    }
                });
            for (auto &x : t) x.join();
            for (int x : ok)
                if (x == 2) violation("identity changed", "a listing of several threads at once differs from an earlier one");
            sim::probe("concurrent listings");
        }
        sim::obs(current[i].size());
    }
    listings_left = 0;
    if (selections + refused > 2) sim::nontrivial();
    if (multiple) sim::probe("runs that selected several devices");
    if (failures && selections) sim::probe("runs with faults and selections");
}
sim::Register r39({"C39", "devices", 1, gen39, run39,
                   "Random histories of listing, selecting, keeping and moving devices on both CPU backends and one with up to forty devices, with listings by several threads at once, allocation, "
                   "entropy and driver failures, against a record of the first listing and the last selection. Non-trivial when more than two selections were decided.",
                   "device selection of the backend base, device lists of both CPU backends, processor objects (generic CPU)", "thread scheduling, allocator and entropy failures, a backend with several devices (harness)", 0, 0});
}  // namespace
