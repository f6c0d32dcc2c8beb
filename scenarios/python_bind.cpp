// The Python bindings: the same operations through Python and directly in C++ must have the same outcomes.
#include <knp/framework/backend_loader.h>
#include <knp/framework/model.h>
#include <knp/framework/model_executor.h>
#include <knp/framework/network.h>

#include <dlfcn.h>
#include <link.h>

#include "backend_net.h"
#include "fakedl.h"

#include <boost/python.hpp>

namespace py = boost::python;

extern "C"
{
PyObject *PyInit__knp_python_framework_core();
PyObject *PyInit__knp_python_framework_neuron_traits();
PyObject *PyInit__knp_python_framework_synapse_traits();
PyObject *PyInit__knp_python_framework_base_framework();
}
// Sonata files need HDF5, which is not there.
void export_network_io() {}

namespace
{
using namespace net;
namespace kf = knp::framework;

// ---- the interpreter ------------------------------------------------------------------------------------------------
// Python objects live in the simulated heap, so that their use after release is seen.
struct Block { size_t n, pad; };
void *py_malloc(void *, size_t n)
{
    sim::NoAllocFaults na;
    auto *b = static_cast<Block *>(operator new(n + sizeof(Block), std::nothrow));
    if (!b) return nullptr;
    b->n = n;
    return b + 1;
}
void *py_calloc(void *, size_t n, size_t size)
{
    void *p = py_malloc(nullptr, n * size);
    if (p) std::memset(p, 0, n * size);
    return p;
}
void py_free(void *, void *p)
{
    if (p) operator delete(static_cast<Block *>(p) - 1);
}
void *py_realloc(void *, void *p, size_t n)
{
    void *r = py_malloc(nullptr, n);
    if (!p || !r) return r;
    size_t old = (static_cast<Block *>(p) - 1)->n;
    std::memcpy(r, p, old < n ? old : n);
    py_free(nullptr, p);
    return r;
}

PyObject *driver_do = nullptr, *driver_dict = nullptr;
PyThreadState *main_state = nullptr;
std::string boot_error;
std::string python_error()
{
    PyObject *t = nullptr, *v = nullptr, *b = nullptr;
    PyErr_Fetch(&t, &v, &b);
    return std::string(t ? reinterpret_cast<PyTypeObject *>(t)->tp_name : "?") + ": " + (v ? PyUnicode_AsUTF8(PyObject_Str(v)) : "?");
}
[[noreturn]] void boot_failed(const char *what)
{
    fprintf(stderr, "cannot start Python: %s\n", what);
    _exit(3);
}
void boot()
{
    PyMemAllocatorEx a{nullptr, py_malloc, py_calloc, py_realloc, py_free};
    for (auto d : {PYMEM_DOMAIN_MEM, PYMEM_DOMAIN_OBJ}) PyMem_SetAllocator(d, &a);
    static const std::pair<const char *, PyObject *(*)()> modules[] = {
        {"core", PyInit__knp_python_framework_core},
        {"neuron_traits", PyInit__knp_python_framework_neuron_traits},
        {"synapse_traits", PyInit__knp_python_framework_synapse_traits},
        {"base_framework", PyInit__knp_python_framework_base_framework}};
    for (auto &m : modules) PyImport_AppendInittab(strdup((std::string("_knp_python_framework_") + m.first).c_str()), m.second);
    PyConfig c;
    PyConfig_InitIsolatedConfig(&c);
    c.use_hash_seed = 1;
    c.hash_seed = 0;
    c.install_signal_handlers = 0;
    c.write_bytecode = 0;
    c.site_import = 0;
    c.module_search_paths_set = 1;
    const std::string stdlib = "/usr/lib/python" + std::to_string(PY_MAJOR_VERSION) + "." + std::to_string(PY_MINOR_VERSION);
    for (const std::string &p : {std::string(PY_TREE), stdlib, stdlib + "/lib-dynload"})
        PyWideStringList_Append(&c.module_search_paths, std::wstring(p.begin(), p.end()).c_str());
    if (PyStatus_Exception(Py_InitializeFromConfig(&c))) boot_failed("initialisation");
    try
    {
        py::object known{py::handle<>(py::borrowed(PyImport_GetModuleDict()))};
        for (auto &m : modules)
        {
            const std::string name = std::string("_knp_python_framework_") + m.first;
            known["knp." + std::string(m.first) + "." + name] = py::import(name.c_str());
        }
        py::object driver = py::import("python_driver");
        driver_do = py::incref(py::object(driver.attr("do")).ptr());
        driver_dict = py::incref(py::object(driver.attr("__dict__")).ptr());
    }
    catch (const py::error_already_set &)
    {
        boot_error = python_error();
    }
    main_state = PyEval_SaveThread();
}

// ---- values as text -------------------------------------------------------------------------------------------------
std::string txt(const std::string &s) { return "'" + s + "'"; }
std::string txt(const kc::UID &u) { return txt(std::string(u)); }
std::string txt(bool b) { return b ? "T" : "F"; }
template <class T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>, int> = 0>
std::string txt(T v) { return std::to_string(v); }
std::string txt(double v)
{
    char b[40];
    snprintf(b, sizeof b, "%.17gf", v);
    return b;
}
std::string txt(float v) { return txt(static_cast<double>(v)); }
struct Raw { std::string s; };
std::string txt(const Raw &r) { return r.s; }
template <class T> std::string txt(const std::vector<T> &v)
{
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + txt(static_cast<const T &>(v[i]));
    return r + "]";
}
template <class... T> std::string row(const T &...v)
{
    std::string r;
    ((r += (r.empty() ? "[" : ",") + txt(v)), ...);
    return r + "]";
}
std::string txt(const py::object &o)
{
    PyObject *p = o.ptr();
    if (p == Py_None) return "None";
    if (PyBool_Check(p)) return p == Py_True ? "T" : "F";
    if (PyLong_Check(p) || PyUnicode_Check(p))
    {
        const std::string s = py::extract<std::string>(py::str(o));
        return PyLong_Check(p) ? s : "'" + s + "'";
    }
    if (PyFloat_Check(p)) return txt(PyFloat_AsDouble(p));
    if (PyList_Check(p) || PyTuple_Check(p))
    {
        std::string r = "[";
        for (long i = 0, n = py::len(o); i < n; ++i) r += (i ? "," : "") + txt(py::object(o[i]));
        return r + "]";
    }
    return std::string("?") + Py_TYPE(p)->tp_name;
}

// ---- outcomes -------------------------------------------------------------------------------------------------------
struct Outcome { std::string kind, text; };   // ok / injected / refused / error
struct PyInjected { long n; };
struct Refused {};

template <class F>
Outcome natively(F f)
{
    try
    {
        return {"ok", f()};
    }
    catch (const PyInjected &e)
    {
        return {"injected", txt(e.n)};
    }
    catch (const Refused &)
    {
        return {"refused", ""};
    }
    catch (const std::exception &e)
    {
        return {"error", e.what()};
    }
}

template <class T> py::object value(const T &v) { return py::object(v); }
template <class T> py::object value(const std::vector<T> &v)
{
    py::list l;
    for (const auto &x : v) l.append(value(static_cast<const T &>(x)));
    return std::move(l);
}
struct None {};
py::object value(const None &) { return py::object(); }
template <class... T> py::object several(const T &...v)
{
    py::list l;
    (l.append(value(v)), ...);
    return std::move(l);
}

double starve = 0;   // probability that an allocation of native code fails
bool starved = false;
Outcome in_python(const char *name, const py::object &args)
{
    py::list r;
    starved = starve > 0;
    if (starved)
    {
        sim::AllocFaults f(starve);
        r = py::call<py::list>(driver_do, name, args);
    }
    else
        r = py::call<py::list>(driver_do, name, args);
    starve = 0;
    const std::string kind = py::extract<std::string>(r[0]);
    if (kind == "ok" || kind == "injected") return {kind, txt(py::object(r[1]))};
    const std::string text = py::extract<std::string>(py::str(r[1]));
    if (kind == "type" || kind == "OverflowError" || kind == "AttributeError") return {"refused", kind + ": " + text};
    return {"error", kind + ": " + text};
}

// ---- parameters -----------------------------------------------------------------------------------------------------
constexpr size_t POOL = 6;
using N0 = nt::neuron_parameters<nt::BLIFATNeuron>;
using N1 = nt::neuron_parameters<nt::SynapticResourceSTDPBLIFATNeuron>;
using N2 = nt::neuron_parameters<nt::AltAILIF>;
using S0 = st::synapse_parameters<st::DeltaSynapse>;
using S1 = st::synapse_parameters<st::SynapticResourceSTDPDeltaSynapse>;
using S2 = st::synapse_parameters<st::AdditiveSTDPDeltaSynapse>;

std::string neuron(const N0 &n, bool open = false)
{
    std::string r;
    for (double v : {double(n.n_time_steps_since_last_firing_), n.activation_threshold_, n.dynamic_threshold_, n.threshold_decay_, n.threshold_increment_,
                     n.postsynaptic_trace_, n.postsynaptic_trace_decay_, n.postsynaptic_trace_increment_, n.inhibitory_conductance_,
                     n.inhibitory_conductance_decay_, n.potential_, n.pre_impact_potential_, n.potential_decay_, double(n.bursting_phase_), double(n.bursting_period_),
                     n.reflexive_weight_, n.reversal_inhibitory_potential_, double(n.absolute_refractory_period_), n.potential_reset_value_, n.min_potential_,
                     double(n.total_blocking_period_), n.dopamine_value_})
        r += (r.empty() ? "[" : ",") + txt(v);
    return open ? r : r + "]";
}
std::string neuron(const N1 &n)
{
    std::string r = neuron(static_cast<const N0 &>(n), true);
    for (double v : {double(n.dopamine_plasticity_time_), double(n.free_synaptic_resource_), double(n.synaptic_resource_threshold_), double(n.resource_drain_coefficient_),
                     double(n.stability_), double(n.stability_change_parameter_), double(n.stability_change_at_isi_), double(n.isi_max_), double(n.d_h_),
                     double(n.last_step_), double(n.first_isi_spike_), double(n.is_being_forced_)})
        r += "," + txt(v);
    return r + "]";
}
std::string neuron(const N2 &n)
{
    return row(double(n.is_diff_), double(n.is_reset_), double(n.leak_rev_), double(n.saturate_), double(n.do_not_save_), double(n.potential_),
               double(n.activation_threshold_), double(n.negative_activation_threshold_), double(n.potential_leak_), double(n.potential_reset_value_));
}
std::string synapse(const S0 &s, size_t i, size_t j) { return row(double(s.weight_), double(s.delay_), double(static_cast<int>(s.output_type_)), double(i), double(j)); }
std::string synapse(const S1 &s, size_t i, size_t j)
{
    return row(double(s.weight_), double(s.delay_), double(static_cast<int>(s.output_type_)), double(s.rule_.synaptic_resource_), double(s.rule_.w_min_),
               double(s.rule_.w_max_), double(s.rule_.d_u_), double(s.rule_.dopamine_plasticity_period_), double(s.rule_.last_spike_step_),
               double(s.rule_.had_hebbian_update_), double(s.rule_.has_contributed_), double(i), double(j));
}
std::string synapse(const S2 &, size_t, size_t) { return "?"; }

struct Pools
{
    std::vector<N0> n0;
    std::vector<N1> n1;
    std::vector<N2> n2;
    std::vector<S0> s0;
    std::vector<S1> s1;
    Pools(Rng r, bool physical)
    {
        auto v = [&] { return static_cast<double>(r.range(-4000, 4000)) / 8; };
        bool large = r.chance(0.1);
        auto u = [&] { return static_cast<unsigned>(large && r.chance(0.3) ? r.next() >> 33 : r.below(4001)); };
        for (size_t i = 0; i < POOL; ++i)
        {
            N0 a;
            N1 b;
            N2 c;
            S0 d;
            S1 e;
            if (physical)
            {
                a = blifat(r, true, false, false);
                b = N1(blifat(r, true, true, false));
                stdp_neuron(b, r, true, 0);
                c.is_diff_ = r.chance(0.5);
                c.is_reset_ = r.chance(0.5);
                c.activation_threshold_ = static_cast<uint16_t>(r.range(1, 4));
                c.negative_activation_threshold_ = static_cast<uint16_t>(r.range(1, 50));
                c.potential_leak_ = static_cast<int16_t>(r.range(-1, 1));
                d.weight_ = static_cast<float>(r.range(1, 16)) / 4;
                d.delay_ = static_cast<uint32_t>(r.range(1, 3));
                d.output_type_ = r.chance(0.8) ? st::OutputType::EXCITATORY : st::OutputType::INHIBITORY_CURRENT;
                static_cast<S0 &>(e) = d;
                e.rule_.synaptic_resource_ = static_cast<float>(r.range(0, 8)) / 4;
                e.rule_.w_min_ = .25F;
                e.rule_.w_max_ = 4;
                e.rule_.dopamine_plasticity_period_ = static_cast<uint32_t>(r.range(0, 6));
            }
            else
            {
                auto fill = [&](N0 &n)
                {
                    n.n_time_steps_since_last_firing_ = u();
                    for (double *p : {&n.activation_threshold_, &n.additional_threshold_, &n.dynamic_threshold_, &n.threshold_decay_, &n.threshold_increment_, &n.postsynaptic_trace_,
                                      &n.postsynaptic_trace_decay_, &n.postsynaptic_trace_increment_, &n.inhibitory_conductance_, &n.inhibitory_conductance_decay_, &n.potential_,
                                      &n.pre_impact_potential_, &n.potential_decay_, &n.reflexive_weight_, &n.reversal_inhibitory_potential_, &n.potential_reset_value_,
                                      &n.min_potential_, &n.dopamine_value_, &n.stochastic_stimulation_})
                        *p = v();
                    n.bursting_phase_ = u();
                    n.bursting_period_ = u();
                    n.absolute_refractory_period_ = u();
                    n.total_blocking_period_ = r.range(-100, 100);
                };
                fill(a);
                fill(b);
                for (float *p : {&b.synapse_sum_threshold_coefficient_, &b.free_synaptic_resource_, &b.synaptic_resource_threshold_, &b.stability_, &b.stability_change_parameter_,
                                 &b.stability_change_at_isi_, &b.d_h_})
                    *p = static_cast<float>(v());
                b.dopamine_plasticity_time_ = u();
                b.resource_drain_coefficient_ = u();
                b.isi_max_ = u();
                b.last_step_ = u();
                b.first_isi_spike_ = u();
                b.is_being_forced_ = r.chance(0.5);
                for (bool *p : {&c.is_diff_, &c.is_reset_, &c.leak_rev_, &c.saturate_, &c.do_not_save_}) *p = r.chance(0.5);
                c.potential_ = static_cast<float>(v());
                c.activation_threshold_ = static_cast<uint16_t>(u());
                c.negative_activation_threshold_ = static_cast<uint16_t>(u());
                c.potential_leak_ = static_cast<int16_t>(r.range(-100, 100));
                c.potential_reset_value_ = static_cast<uint16_t>(u());
                auto base = [&](S0 &s)
                {
                    s.weight_ = static_cast<float>(v());
                    s.delay_ = u();
                    s.output_type_ = static_cast<st::OutputType>(r.range(0, 4));
                };
                base(d);
                base(e);
                for (float *p : {&e.rule_.synaptic_resource_, &e.rule_.w_min_, &e.rule_.w_max_, &e.rule_.d_u_}) *p = static_cast<float>(v());
                e.rule_.dopamine_plasticity_period_ = u();
                e.rule_.last_spike_step_ = u();
                e.rule_.had_hebbian_update_ = r.chance(0.5);
                e.rule_.has_contributed_ = r.chance(0.5);
            }
            n0.push_back(a), n1.push_back(b), n2.push_back(c), s0.push_back(d), s1.push_back(e);
        }
    }
};

// ---- plugin libraries -----------------------------------------------------------------------------------------------
MtParams lib_params{};
std::shared_ptr<kc::Backend> make_st() { return std::make_shared<ST>(); }
std::shared_ptr<kc::Backend> make_mt() { return std::make_shared<MT>(lib_params.threads, lib_params.pop_part, lib_params.proj_part); }
using Creator = std::shared_ptr<kc::Backend> (*)();
Creator creators[2] = {make_st, make_mt};
const char *const LIB_PATHS[2] = {"/sim/plugins/knp-st", "/sim/plugins/knp-mt"};
struct Plugins : fakedl::Loader
{
    struct H : link_map { std::string path; } lib[2];
    std::string error;
    Plugins()
    {
        lib[0].path = "/sim/plugins/libknp-st.so";
        lib[1].path = "/sim/plugins/libknp-mt.so";
        for (auto &l : lib) l.l_name = l.path.data();
    }
    void *open(const char *path, int) override
    {
        Quiet q;
        for (auto &l : lib)
            if (path && l.path == path) return static_cast<link_map *>(&l);
        error = "cannot open shared object file: No such file or directory";
        return nullptr;
    }
    bool owns(void *h) override { return h == static_cast<link_map *>(&lib[0]) || h == static_cast<link_map *>(&lib[1]); }
    void *sym(void *h, const char *name) override
    {
        Quiet q;
        if (!std::strcmp(name, "create_knp_backend")) return &creators[h == static_cast<link_map *>(&lib[0]) ? 0 : 1];
        error = "undefined symbol";
        return nullptr;
    }
    int close(void *) override { return 0; }
    const char *err() override { return error.empty() ? nullptr : error.c_str(); }
};

// ---- the native twin ------------------------------------------------------------------------------------------------
constexpr size_t SLOTS = 4, UIDS = 16;
template <int T> struct PopOf;
template <> struct PopOf<0> { using N = nt::BLIFATNeuron; };
template <> struct PopOf<1> { using N = nt::SynapticResourceSTDPBLIFATNeuron; };
template <> struct PopOf<2> { using N = nt::AltAILIF; };

template <class S> struct Tag { using Type = S; };

struct Twin
{
    Rng r;
    Pools pools;
    std::vector<kc::UID> uids;
    struct Pop { int t; kc::AllPopulationsVariant p; };
    struct Proj { int t; kc::AllProjectionsVariant p; };
    std::map<size_t, std::shared_ptr<Pop>> pops;
    std::map<size_t, std::shared_ptr<Proj>> projs;
    std::map<size_t, std::shared_ptr<kf::Network>> nets;
    std::map<size_t, std::shared_ptr<kf::Model>> models;
    struct Back { std::shared_ptr<kc::Backend> b; bool mt; bool loaded = false; std::map<kc::UID, size_t> sizes; };   // sizes: neurons of populations, places needed by projections
    std::map<size_t, std::shared_ptr<Back>> backs;
    std::map<size_t, std::shared_ptr<kc::MessageEndpoint>> ends;
    std::map<size_t, bool> end_mt;
    struct Exec { std::shared_ptr<kf::ModelExecutor> e; std::shared_ptr<Back> b; };
    std::map<size_t, std::shared_ptr<Exec>> execs;
    struct Chan { std::shared_ptr<Exec> e; kf::io::output::OutputChannel *c; };
    std::map<size_t, Chan> chans;
    struct Ref { int kind; std::shared_ptr<Pop> pop; std::shared_ptr<Proj> proj; std::shared_ptr<kf::Model> model; size_t i; };
    std::map<size_t, Ref> refs;
    std::vector<std::string> calls, kept;
    // What was received and is looked at again later.
    void keep(std::vector<Raw> v)
    {
        if (!v.empty()) v.push_back(v.back());
        kept.push_back(txt(v));
    }
    bool faulty = false;
    std::function<void()> stopping;
    size_t step = 0;    // of the scenario, for messages

    Twin(uint64_t seed, bool physical) : r(seed), pools(r, physical)
    {
        for (size_t i = 0; i < UIDS; ++i) uids.push_back(common::uid(20, static_cast<unsigned>(i)));
    }

    // What the plans of generators say; see the Python side.
    static constexpr size_t KEPT = POOL - 1;    // the last one is changed every time it is returned
    N0 pick(std::integral_constant<int, 0>, size_t w) { return pools.n0[w % KEPT]; }
    N1 pick(std::integral_constant<int, 1>, size_t w)
    {
        if (w / POOL != 2) return pools.n1[w % KEPT];
        N1 n = pools.n1[KEPT];
        n.stability_ = static_cast<float>(w % 5) / 4;
        return n;
    }
    N2 pick(std::integral_constant<int, 2>, size_t w) { return pools.n2[w % KEPT]; }
    template <int T>
    auto neurons(const std::vector<long> &plan)
    {
        using P = nt::neuron_parameters<typename PopOf<T>::N>;
        return [this, plan](size_t i) -> std::optional<P>
        {
            Quiet q;
            calls.push_back(txt(i));
            long what = i < plan.size() ? plan[i] : -1;
            if (what >= 0) return pick(std::integral_constant<int, T>{}, static_cast<size_t>(what));
            if (what == -1) return std::nullopt;
            if (what == -2) throw PyInjected{static_cast<long>(i)};
            if (what == -4)
            {
                if constexpr (T == 0) return static_cast<const N0 &>(pools.n1[i % KEPT]);
                else return std::nullopt;
            }
            throw Refused{};
        };
    }
    struct Syn { long what, a, b; };
    template <class S>
    auto synapses(const std::vector<Syn> &plan)
    {
        using Synapse = typename kc::Projection<S>::Synapse;
        return [this, plan](size_t i) -> std::optional<Synapse>
        {
            Quiet q;
            calls.push_back(txt(i));
            Syn w = i < plan.size() ? plan[i] : Syn{-1, 0, 0};
            if (w.what == -1) return std::nullopt;
            if (w.what == -2) throw PyInjected{static_cast<long>(i)};
            if (w.what < 0) throw Refused{};
            size_t k = static_cast<size_t>(w.what) % POOL;
            if constexpr (std::is_same_v<S, st::DeltaSynapse>) return Synapse{pools.s0[k], w.a, w.b};
            else if constexpr (std::is_same_v<S, st::SynapticResourceSTDPDeltaSynapse>) return Synapse{pools.s1[k], w.a, w.b};
            else return std::nullopt;
        };
    }
    template <class F>
    auto with_type(int t, F f)
    {
        if (t == 0) return f(std::integral_constant<int, 0>{});
        if (t == 1) return f(std::integral_constant<int, 1>{});
        return f(std::integral_constant<int, 2>{});
    }
    template <class F>
    auto with_synapse(int t, F f)
    {
        if (t == 0) return f(Tag<st::DeltaSynapse>{});
        if (t == 1) return f(Tag<st::SynapticResourceSTDPDeltaSynapse>{});
        return f(Tag<st::AdditiveSTDPDeltaSynapse>{});
    }
    static std::string look(const kc::AllPopulationsVariant &v, bool head = true)
    {
        return std::visit(
            [&](const auto &p) -> std::string
            {
                using P = std::decay_t<decltype(p)>;
                std::vector<Raw> all;
                if constexpr (std::is_same_v<P, kc::Population<nt::BLIFATNeuron>> || std::is_same_v<P, kc::Population<nt::AltAILIF>> ||
                              std::is_same_v<P, kc::Population<nt::SynapticResourceSTDPBLIFATNeuron>>)
                    for (size_t i = 0; i < p.size(); ++i) all.push_back({neuron(p[i])});
                return head ? row(p.get_uid(), p.size(), all) : txt(all);
            },
            v);
    }
    static std::string look(const kc::AllProjectionsVariant &v)
    {
        return std::visit(
            [](const auto &p)
            {
                using P = std::decay_t<decltype(p)>;
                std::vector<Raw> all;
                if constexpr (!std::is_same_v<P, kc::Projection<st::AdditiveSTDPDeltaSynapse>>)
                    for (size_t i = 0; i < p.size(); ++i) all.push_back({synapse(std::get<0>(p[i]), std::get<1>(p[i]), std::get<2>(p[i]))});
                return row(p.get_uid(), p.size(), all);
            },
            v);
    }
    static std::string message(const km::SpikeMessage &m) { return row(m.header_.sender_uid_, m.header_.send_time_, std::vector<uint32_t>(m.neuron_indexes_)); }
    static std::string impact_body(const km::SynapticImpactMessage &m)
    {
        std::vector<Raw> all;
        for (auto &i : m.impacts_)
            all.push_back({row(i.connection_index_, i.impact_value_, static_cast<int>(i.synapse_type_), i.presynaptic_neuron_index_, i.postsynaptic_neuron_index_)});
        return txt(m.header_.sender_uid_) + "," + txt(m.header_.send_time_) + "," + txt(m.presynaptic_population_uid_) + "," + txt(m.postsynaptic_population_uid_) + "," +
               txt(m.is_forcing_) + "," + txt(all);
    }
    static std::string message(const km::SynapticImpactMessage &m) { return "[" + impact_body(m) + "]"; }
    template <class M> static std::vector<Raw> messages(const std::vector<M> &ms)
    {
        std::vector<Raw> v;
        for (auto &m : ms) v.push_back({message(m)});
        return v;
    }

    kc::Backend::RunPredicate predicate(int k, const std::vector<long> &a)
    {
        return [this, k, a](kc::Step s)
        {
            Quiet q;
            long st = static_cast<long>(s);
            calls.push_back(txt(2000000 + k * 10000 + st));
            if (st == a[2])
            {
                if (a[3] == 0) throw PyInjected{st};
                if (a[3] == 1) throw Refused{};
                if (a[3] == 2)
                {
                    stopping();
                    calls.push_back("'stopped'");
                }
            }
            return st < a[0];
        };
    }
    struct In { long what; std::vector<uint32_t> spikes; };
    auto input(int k, const std::vector<In> &plan)
    {
        return [this, k, plan](kc::Step s) -> km::SpikeData
        {
            Quiet q;
            calls.push_back(txt(1000000 + k * 10000 + static_cast<long>(s)));
            const In &w = plan[s % plan.size()];
            if (w.what == 1 && faulty) throw PyInjected{static_cast<long>(s)};
            if (w.what == 2 && faulty) throw Refused{};
            return km::SpikeData(w.spikes.begin(), w.spikes.end());
        };
    }
};

// ---- a case ---------------------------------------------------------------------------------------------------------
const char *const STDP_FIELDS[] = {"free_synaptic_resource", "stability", "d_h", "dopamine_plasticity_time", "isi_max", "last_step", "is_being_forced", "potential"};

struct Run
{
    Twin t;
    double p_bad;
    size_t refused = 0, injected = 0, ops = 0;

    Run(uint64_t seed, bool physical, double bad) : t(seed, physical), p_bad(bad) {}

    // For what changes nothing when it fails.
    static bool ran_out(const Outcome &p)
    {
        if (!starved || p.kind != "error" || p.text.compare(0, 11, "MemoryError")) return false;
        sim::probe("out of memory in the bindings");
        return true;
    }
    void check(const char *name, const Outcome &n, const Outcome &p)
    {
        ++ops;
        if (ran_out(p)) return;
        sim::obs_bytes(p.kind.data(), p.kind.size());
        sim::obs_bytes(p.text.data(), p.kind == "ok" ? p.text.size() : 0);
        if (n.kind == "refused" || n.kind == "error")
        {
            ++refused;
            if (p.kind != "refused" && p.kind != "error")
                violation("accepted in Python", "%s: Python answers %s %.300s, natively it %s", name, p.kind.c_str(), p.text.c_str(),
                          n.kind == "error" ? ("fails: " + n.text).c_str() : "is not possible");
            if (n.kind == "error" && !starved && p.text.find(n.text) == std::string::npos)
                violation("another error in Python", "%s: Python says \"%.300s\", natively it is \"%.300s\"", name, p.text.c_str(), n.text.c_str());
            return;
        }
        if (n.kind == "injected") ++injected;
        // Texts of identifiers may be cut short when there is no memory, in C++ too.
        if (n.kind != p.kind || (n.text != p.text && !starved))
            violation(n.kind != p.kind ? "another outcome in Python" : "another value in Python", "%s: Python answers %s %.900s, natively it is %s %.900s", name, p.kind.c_str(),
                      p.text.c_str(), n.kind.c_str(), n.text.c_str());
    }
    void check_calls(const char *name)
    {
        bool lost = starved;
        Outcome p = in_python("calls", py::list());
        if (lost) t.calls.clear();
        else if (p.text != txt(raw(t.calls)))
            violation("another calls in Python", "%s: Python callbacks were called with %.900s, native ones with %.900s", name, p.text.c_str(), txt(raw(t.calls)).c_str());
        t.calls.clear();
    }
    static std::vector<Raw> raw(const std::vector<std::string> &v)
    {
        std::vector<Raw> r;
        for (auto &s : v) r.push_back({s});
        return r;
    }
    template <class F, class... A>
    bool both(const char *name, F native, const A &...a)
    {
        Outcome n = natively(native);
        Outcome p = in_python(name, several(a...));
        check(name, n, p);
        check_calls(name);
        return n.kind == "ok";
    }

    void forget_refs(const std::function<bool(const Twin::Ref &)> &f)
    {
        for (auto it = t.refs.begin(); it != t.refs.end();)
            if (f(it->second))
            {
                in_python("forget", several(it->first));
                it = t.refs.erase(it);
            }
            else
                ++it;
    }
    std::vector<long> plan(const Op &op, size_t at, int type)
    {
        Rng r(static_cast<uint64_t>(op.A(at)) * 77 + 5);
        std::vector<long> v;
        size_t n = op.idx(at + 1, 400);
        long bad = op.A(at + 2) && n ? static_cast<long>(r.below(n)) : -1;
        for (size_t i = 0; i < n; ++i)
        {
            long w = r.chance(0.85) ? r.range(0, 3 * POOL - 1) : r.chance(0.5) || type ? -1 : -4;
            if (static_cast<long>(i) == bad) w = r.chance(0.5) ? -2 : r.chance(0.2) ? -3 : -r.range(5, 14);
            v.push_back(w);
        }
        return v;
    }
    std::vector<Twin::Syn> syn_plan(const Op &op, size_t at, bool physical)
    {
        Rng r(static_cast<uint64_t>(op.A(at)) * 79 + 3);
        std::vector<Twin::Syn> v;
        size_t n = op.idx(at + 1, 400);
        long bad = op.A(at + 2) && n ? static_cast<long>(r.below(n)) : -1;
        for (size_t i = 0; i < n; ++i)
        {
            Twin::Syn w{r.chance(0.9) ? r.range(0, 3 * POOL - 1) : -1, physical ? r.range(0, 2) : r.range(0, 1000), physical ? r.range(0, 2) : r.range(0, 1000)};
            if (static_cast<long>(i) == bad) w.what = r.chance(0.5) ? -2 : -r.range(3, 20);
            v.push_back(w);
        }
        return v;
    }
    static py::object as_object(const std::vector<Twin::Syn> &v)
    {
        py::list l;
        for (auto &s : v) l.append(py::make_tuple(s.what, s.a, s.b));
        return std::move(l);
    }
    bool physical = false;
    double hunger = 0;

    void step(const Op &op);
    void more(const Op &op);
    void runs(const Op &op);
};

// A time stamp, sometimes a huge one.
kc::Step time_of(const Op &op)
{
    size_t x = op.idx(3, 120);
    return x < 100 ? x : (kc::Step(1) << (x - 60)) - x % 3;
}
template <class M> size_t slot_of(const M &m, const Op &op, size_t at)
{
    size_t k = op.idx(at, m.size());
    return std::next(m.begin(), static_cast<long>(k))->first;
}

void Run::step(const Op &op)
{
    static const std::set<std::string> can_starve{"pop", "proj", "pop_look", "proj_look", "proj_get", "net_all", "net_get", "net_look", "uids", "misuse"};
    starve = can_starve.count(op.k) && (op.k.size() > 4 || op.k == "uids" || op.A(2) >= 0) ? hunger : 0;
    hunger = op.k == "starve" ? static_cast<double>(op.A(0)) / 1000.0 : 0;
    if (op.k == "starve") return;
    size_t s = op.idx(0, SLOTS);
    if (op.k == "pop")
    {
        int ty = static_cast<int>(op.idx(1, 3));
        long u = op.A(2) < 0 ? -1 : static_cast<long>(op.idx(2, UIDS));
        auto pl = plan(op, 3, ty);
        Outcome p = in_python("pop", several(s, ty, u, pl));
        std::shared_ptr<Twin::Pop> made;
        if (ran_out(p)) return check_calls("pop");
        Outcome n = natively(
            [&]
            {
                // A random identifier is taken over from the Python side.
                kc::UID id = u >= 0 ? t.uids[u] : kc::UID{false};
                if (u < 0 && p.kind == "ok")
                {
                    std::stringstream ss(p.text.substr(1, p.text.size() - 2));
                    ss >> id.tag;
                }
                t.with_type(ty, [&](auto c) { made = std::make_shared<Twin::Pop>(Twin::Pop{ty, kc::Population<typename PopOf<c()>::N>(id, t.neurons<c()>(pl), pl.size())}); });
                return txt(id);
            });
        check("pop", n, p);
        check_calls("pop");
        if (made) t.pops[s] = made;
    }
    else if (op.k == "proj")
    {
        int ty = static_cast<int>(op.idx(1, 3));
        long u = op.A(2) < 0 ? -1 : static_cast<long>(op.idx(2, UIDS)), pre = static_cast<long>(op.idx(3, UIDS)), post = static_cast<long>(op.idx(4, UIDS));
        auto pl = syn_plan(op, 5, physical);
        if (ty == 2) for (auto &x : pl) x.what = x.what == -2 ? -2 : -1;
        bool empty = op.A(8) != 0;
        Outcome p = in_python("proj", several(s, ty, u, pre, post, empty ? py::object() : as_object(pl)));
        std::shared_ptr<Twin::Proj> made;
        if (ran_out(p)) return check_calls("proj");
        Outcome n = natively(
            [&]
            {
                kc::UID id = u >= 0 ? t.uids[u] : kc::UID{false};
                if (u < 0 && p.kind == "ok")
                {
                    std::stringstream ss(p.text.substr(1, p.text.size() - 2));
                    ss >> id.tag;
                }
                t.with_synapse(ty, [&](auto c)
                {
                    using P = kc::Projection<typename decltype(c)::Type>;
                    made = std::make_shared<Twin::Proj>(Twin::Proj{ty, empty ? P(id, t.uids[pre], t.uids[post]) : P(id, t.uids[pre], t.uids[post], t.template synapses<typename decltype(c)::Type>(pl), pl.size())});
                });
                return txt(id);
            });
        check("proj", n, p);
        check_calls("proj");
        if (made) t.projs[s] = made;
    }
    else if (op.k == "uids")
    {
        size_t a = op.idx(0, UIDS), b = op.idx(1, UIDS);
        const kc::UID &x = t.uids[a], &y = t.uids[b];
        both("uids",
             [&]
             {
                 return row(x == y, x != y, x < y, y < x, static_cast<bool>(x), x, kc::uid_hash{}(x) == kc::uid_hash{}(y), x == y ? 1 : 2, x == y ? 2 : 1, true, y, false, true, false,
                            kc::UID{false}, 16, false);
             },
             a, b);
        both("hashes", [&] { return row(true, kc::uid_hash{}(x) & 0xffffffff); }, a);
    }
    else if (op.k == "drop")
    {
        size_t what = op.idx(1, 8);
        both("drop",
             [&]
             {
                 switch (what)
                 {
                     case 0: t.pops.erase(s); break;
                     case 1: t.projs.erase(s); break;
                     case 2: t.nets.erase(s); break;
                     case 3: t.models.erase(s); break;
                     case 4: t.backs.erase(s); break;
                     case 5: t.execs.erase(s); break;
                     case 6: t.ends.erase(s); break;
                     default: t.chans.erase(s);
                 }
                 return std::string("None");
             },
             what, s, op.A(2) != 0);
        sim::probe("owner dropped");
    }
    else if (op.k == "hold")
    {
        size_t ref = op.idx(1, 6);
        int kind = static_cast<int>(op.idx(2, 5));
        Twin::Ref n{kind, nullptr, nullptr, nullptr, 0};
        size_t size = 0;
        if (kind < 2)
        {
            if (t.pops.empty()) return;
            s = slot_of(t.pops, op, 0);
            n.pop = t.pops[s];
            size = std::visit([](auto &p) { return p.size(); }, n.pop->p);
        }
        else if (kind == 3)
        {
            if (t.models.empty()) return;
            s = slot_of(t.models, op, 0);
            n.model = t.models[s];
            size = 1;
        }
        else
        {
            if (t.projs.empty()) return;
            s = slot_of(t.projs, op, 0);
            n.proj = t.projs[s];
            if (n.proj->t == 2) return;
            size = std::visit([](auto &p) { return p.size(); }, n.proj->p);
        }
        if (!size) return;
        n.i = op.idx(3, size);
        both("hold", [&] { return std::string("None"); }, ref, kind, s, n.i);
        t.refs[ref] = n;
    }
    else if (op.k == "release")
    {
        if (t.refs.empty()) return;
        size_t ref = slot_of(t.refs, op, 1);
        Twin::Ref &f = t.refs[ref];
        sim::probe("reference used");
        both("release",
             [&]() -> std::string
             {
                 if (f.kind == 3) return row(f.model->get_network().get_uid(), f.model->get_network().populations_count(), f.model->get_network().projections_count());
                 if (f.kind < 2)
                     return std::visit(
                         [&](auto &p) -> std::string
                         {
                             using P = std::decay_t<decltype(p)>;
                             if constexpr (std::is_same_v<P, kc::Population<nt::BLIFATNeuron>> || std::is_same_v<P, kc::Population<nt::AltAILIF>> ||
                                           std::is_same_v<P, kc::Population<nt::SynapticResourceSTDPBLIFATNeuron>>)
                             {
                                 if (f.kind == 0) return neuron(p[f.i]);
                                 std::vector<Raw> all;
                                 for (size_t i = f.i; i < p.size(); ++i) all.push_back({neuron(p[i])});
                                 return txt(all);
                             }
                             else return "?";
                         },
                         f.pop->p);
                 return std::visit(
                     [&](auto &p) -> std::string
                     {
                         auto one = [&](size_t i) { return synapse(std::get<0>(p[i]), std::get<1>(p[i]), std::get<2>(p[i])); };
                         if (f.kind == 4) return one(f.i);
                         std::vector<Raw> all;
                         for (size_t i = f.i; i < p.size(); ++i) all.push_back({one(i)});
                         return txt(all);
                     },
                     f.proj->p);
             },
             ref);
        t.refs.erase(ref);
    }
    else if (op.k == "net")
    {
        long u = static_cast<long>(op.idx(1, UIDS));
        if (both("net", [&] { return txt(t.uids[u]); }, s, u)) t.nets[s] = std::make_shared<kf::Network>(t.uids[u]);
    }
    else
        more(op);
}

void Run::more(const Op &op)
{
    // Operations on an existing population.
    if (op.k.compare(0, 4, "pop_") == 0 || op.k == "misuse")
    {
        if (t.pops.empty()) return;
        size_t s = slot_of(t.pops, op, 0);
        std::shared_ptr<Twin::Pop> pop = t.pops[s];
        size_t size = std::visit([](auto &p) { return p.size(); }, pop->p);
        auto none = [] { return std::string("None"); };
        if (op.k == "pop_look") both("pop_look", [&] { return Twin::look(pop->p); }, s, op.A(1) != 0);
        else if (op.k == "pop_outside") both("pop_outside", []() -> std::string { throw Refused{}; }, s, op.A(1) < 0 ? -static_cast<long>(size) - 1 - static_cast<long>(op.idx(1, 5)) : static_cast<long>(op.idx(1, 1000)));
        else if (op.k == "pop_set")
        {
            if (!size) return;
            // An unknown attribute is no error in Python.
            size_t i = op.idx(1, size), field = pop->t == 1 ? op.idx(2, 8) : 7;
            long v = op.A(3);
            bool text = op.A(4) % 7 == 6;
            both("pop_set",
                 [&]() -> std::string
                 {
                     if (pop->t != 1 || field == 7 || text || (field > 2 && field < 6 && v < 0)) throw Refused{};
                     auto &n = std::get<kc::Population<nt::SynapticResourceSTDPBLIFATNeuron>>(pop->p)[i];
                     switch (field)
                     {
                         case 0: n.free_synaptic_resource_ = static_cast<float>(v); break;
                         case 1: n.stability_ = static_cast<float>(v); break;
                         case 2: n.d_h_ = static_cast<float>(v); break;
                         case 3: n.dopamine_plasticity_time_ = static_cast<uint32_t>(v); break;
                         case 4: n.isi_max_ = static_cast<uint32_t>(v); break;
                         case 5: n.last_step_ = static_cast<uint64_t>(v); break;
                         default: n.is_being_forced_ = v != 0;
                     }
                     return "None";
                 },
                 s, i, std::string(STDP_FIELDS[field]), text ? py::object(std::string("text")) : py::object(v));
            both("pop_look", [&] { return Twin::look(pop->p); }, s, true);
        }
        else if (op.k == "misuse")
        {
            size_t what = op.idx(1, 16);
            both("misuse", []() -> std::string { throw Refused{}; }, s, what);
            both("pop_look", [&] { return Twin::look(pop->p); }, s, true);
        }
        else
        {
            // Changes: references into the population are no longer valid.
            forget_refs([&](const Twin::Ref &f) { return f.pop == pop; });
            if (op.k == "pop_add")
            {
                auto pl = plan(op, 1, pop->t);
                both("pop_add", [&] { t.with_type(pop->t, [&](auto c) { std::get<kc::Population<typename PopOf<c()>::N>>(pop->p).add_neurons(t.neurons<c()>(pl), pl.size()); }); return none(); }, s, pl);
            }
            else if (op.k == "pop_remove")
            {
                size_t i = op.A(2) && !(op.A(2) & 3) ? size + op.idx(1, 4) : op.idx(1, size + 1);
                both("pop_remove", [&] { if (i >= size) throw Refused{}; std::visit([&](auto &p) { p.remove_neuron(i); }, pop->p); return none(); }, s, i);
            }
            else
            {
                Rng r(static_cast<uint64_t>(op.A(1)));
                std::vector<size_t> v;
                for (long k = static_cast<long>(op.idx(2, 4)); k > 0; --k) v.push_back(r.below(size + (op.A(3) % 5 == 4)));
                if (!size && !op.A(3)) v.clear();
                bool out = false;
                for (size_t x : v) out |= x >= size;
                both("pop_remove_several", [&] { if (out) throw Refused{}; std::visit([&](auto &p) { p.remove_neurons(v); }, pop->p); return none(); }, s, v);
            }
            both("pop_look", [&] { return Twin::look(pop->p); }, s, op.A(1) & 1 ? true : false);
        }
    }
    else if (op.k.compare(0, 5, "proj_") == 0)
    {
        if (t.projs.empty()) return;
        size_t s = slot_of(t.projs, op, 0);
        std::shared_ptr<Twin::Proj> proj = t.projs[s];
        size_t size = std::visit([](auto &p) { return p.size(); }, proj->p);
        if (op.k == "proj_look") both("proj_look", [&] { return Twin::look(proj->p); }, s);
        else if (op.k == "proj_get")
        {
            long i = op.A(1) < 0 ? -static_cast<long>(size) - 1 - static_cast<long>(op.idx(1, 5)) : static_cast<long>(op.idx(1, size + 2));
            if (proj->t == 2) return;
            both("proj_get",
                 [&]() -> std::string
                 {
                     if (i < 0 || i >= static_cast<long>(size)) throw Refused{};
                     return std::visit([&](auto &p) { auto &x = p[static_cast<size_t>(i)]; return synapse(std::get<0>(x), std::get<1>(x), std::get<2>(x)); }, proj->p);
                 },
                 s, i);
        }
        else
        {
            forget_refs([&](const Twin::Ref &f) { return f.proj == proj; });
            auto pl = syn_plan(op, 1, physical);
            if (proj->t == 2) for (auto &x : pl) x.what = x.what == -2 ? -2 : -1;
            both("proj_add", [&] { t.with_synapse(proj->t, [&](auto c) { std::get<kc::Projection<typename decltype(c)::Type>>(proj->p).add_synapses(t.template synapses<typename decltype(c)::Type>(pl), pl.size()); }); return std::string("None"); }, s,
                 as_object(pl));
            both("proj_look", [&] { return Twin::look(proj->p); }, s);
        }
    }
    else if (op.k.compare(0, 4, "net_") == 0 || op.k == "model" || op.k == "model_net")
    {
        if (t.nets.empty()) return;
        size_t s = slot_of(t.nets, op, 0);
        std::shared_ptr<kf::Network> net = t.nets[s];
        if (op.k == "net_look") both("net_look", [&] { return row(net->get_uid(), net->populations_count(), net->projections_count()); }, s);
        else if (op.k == "net_all")
            both("net_all",
                 [&]
                 {
                     std::vector<Raw> a, b;
                     for (auto it = net->begin_populations(); it != net->end_populations(); ++it) a.push_back({std::visit([](auto &p) { return row(p.get_uid(), p.size()); }, *it)});
                     for (auto it = net->begin_projections(); it != net->end_projections(); ++it) b.push_back({std::visit([](auto &p) { return row(p.get_uid(), p.size()); }, *it)});
                     return row(a, b);
                 },
                 s);
        else if (op.k == "net_add")
        {
            if (t.pops.empty()) return;
            size_t p = slot_of(t.pops, op, 1);
            both("net_add", [&] { net->add_population(kc::AllPopulationsVariant(t.pops[p]->p)); return std::string("None"); }, s, p);
        }
        else if (op.k == "net_connect")
        {
            if (t.projs.empty()) return;
            size_t p = slot_of(t.projs, op, 1);
            both("net_connect", [&] { net->add_projection(kc::AllProjectionsVariant(t.projs[p]->p)); return std::string("None"); }, s, p);
        }
        else if (op.k == "net_remove")
        {
            size_t what = op.idx(1, 2), u = op.idx(2, UIDS);
            both("net_remove", [&] { what == 0 ? net->remove_population(t.uids[u]) : net->remove_projection(t.uids[u]); return std::string("None"); }, s, what, u);
        }
        else if (op.k == "net_get")
        {
            size_t what = op.idx(1, 2), u = op.idx(2, UIDS);
            int ty = 2;
            Outcome n = natively(
                [&]
                {
                    if (what == 0)
                    {
                        kc::AllPopulationsVariant v = net->get_population(t.uids[u]);
                        for (int k = 0; k < 3; ++k)
                            t.with_type(k, [&](auto c) { if (std::holds_alternative<kc::Population<typename PopOf<c()>::N>>(v)) ty = k; });
                        return Twin::look(v);
                    }
                    kc::AllProjectionsVariant v = net->get_projection(t.uids[u]);
                    for (int k = 0; k < 3; ++k)
                        t.with_synapse(k, [&](auto c) { if (std::holds_alternative<kc::Projection<typename decltype(c)::Type>>(v)) ty = k; });
                    return Twin::look(v);
                });
            check("net_get", n, in_python("net_get", several(s, what, u, ty)));
        }
        else if (op.k == "model")
        {
            size_t m = op.idx(1, SLOTS);
            both("model", [&] { t.models[m] = std::make_shared<kf::Model>(std::move(*net)); return txt(true); }, m, s);
            t.nets.erase(s);
        }
        else
        {
            if (t.models.empty()) return;
            size_t m = slot_of(t.models, op, 1);
            both("model_net", [&] { t.models[m]->get_network() = std::move(*net); return std::string("None"); }, m, s);
            t.nets.erase(s);
        }
    }
    else if (op.k.compare(0, 6, "model_") == 0)
    {
        if (t.models.empty()) return;
        size_t m = slot_of(t.models, op, 0);
        std::shared_ptr<kf::Model> model = t.models[m];
        if (op.k == "model_look")
            both("model_look", [&] { return row(model->get_network().get_uid(), model->get_network().populations_count(), model->get_network().projections_count()); }, m);
        else if (op.k == "model_add")
        {
            if (t.pops.empty()) return;
            size_t p = slot_of(t.pops, op, 1);
            both("model_add", [&] { model->get_network().add_population(kc::AllPopulationsVariant(t.pops[p]->p)); return std::string("None"); }, m, p);
        }
        else
        {
            size_t what = op.idx(1, 2), ch = op.idx(2, UIDS), u = op.idx(3, UIDS);
            both("model_channel", [&] { what == 0 ? model->add_input_channel(t.uids[ch], t.uids[u]) : model->add_output_channel(t.uids[ch], t.uids[u]); return std::string("None"); }, m, what, ch, u);
        }
    }
    else
        runs(op);
}

std::string sorted(std::vector<Raw> v, bool sort)
{
    if (sort) std::sort(v.begin(), v.end(), [](const Raw &a, const Raw &b) { return a.s < b.s; });
    return txt(v);
}

void Run::runs(const Op &op)
{
    auto none = [] { return std::string("None"); };
    if (op.k == "backend")
    {
        size_t s = op.idx(0, SLOTS), lib = op.idx(1, 3);
        const std::string path = lib == 2 ? "/sim/plugins/nothing" : LIB_PATHS[lib];
        both("known", [&] { return txt(kf::BackendLoader::is_backend(path)); }, path);
        static const char *const nowhere = "/sim/plugins/nothing";
        if (lib == 2)
        {
            Outcome p = in_python("backend", several(s, std::string(nowhere)));
            if (p.kind == "ok") violation("accepted in Python", "a backend is loaded from a file that does not exist");
            ++refused;
            return;
        }
        both("backend", [&] { t.backs[s] = std::make_shared<Twin::Back>(Twin::Back{creators[lib](), lib == 1}); return none(); }, s, std::string(LIB_PATHS[lib]));
    }
    else if (op.k == "recall")
    {
        if (!t.kept.empty()) sim::probe("received messages looked at again");
        both("recall", [&] { auto v = raw(t.kept); t.kept.clear(); return txt(v); });
    }
    else if (op.k == "end" || op.k == "route" || op.k.compare(0, 4, "raw_") == 0 || op.k == "executor")
    {
        if (t.backs.empty()) return;
        size_t b = slot_of(t.backs, op, 0), s = op.idx(1, SLOTS);
        std::shared_ptr<Twin::Back> back = t.backs[b];
        if (op.k == "end")
        {
            both("end", [&] { t.ends[s] = std::make_shared<kc::MessageEndpoint>(back->b->get_message_bus().create_endpoint()); return none(); }, s, b);
            t.end_mt[s] = back->mt;
        }
        else if (op.k == "route")
        {
            bool how = op.A(1) & 1;
            both("route", [&] { return how ? txt(back->b->get_message_bus().step()) : txt(back->b->get_message_bus().route_messages()); }, b, how);
        }
        else if (op.k == "raw_load")
        {
            if (back->loaded) return;
            std::vector<size_t> ps, js;
            std::set<kc::UID> have;
            for (auto &p : t.pops)
                if (std::visit([](auto &x) { return x.size(); }, p.second->p) && have.insert(std::visit([](auto &x) { return x.get_uid(); }, p.second->p)).second) ps.push_back(p.first);
            // Only projections between what is loaded: a backend does not check that.
            auto size_of = [&](const kc::UID &u) -> size_t
            {
                for (size_t p : ps)
                    if (std::visit([](auto &x) { return x.get_uid(); }, t.pops[p]->p) == u) return std::visit([](auto &x) { return x.size(); }, t.pops[p]->p);
                return 0;
            };
            for (auto &j : t.projs)
                std::visit(
                    [&](auto &x)
                    {
                        if (!have.insert(x.get_uid()).second) return;
                        size_t pre = size_of(x.get_presynaptic()), post = size_of(x.get_postsynaptic());
                        for (auto &syn : x)
                            if (std::get<1>(syn) >= (pre ? pre : 100) || std::get<2>(syn) >= post) return;
                        js.push_back(j.first);
                    },
                    j.second->p);
            both("raw_load",
                 [&]
                 {
                     std::vector<kc::AllPopulationsVariant> pv;
                     std::vector<kc::AllProjectionsVariant> jv;
                     for (size_t p : ps) pv.push_back(t.pops[p]->p);
                     for (size_t j : js) jv.push_back(t.projs[j]->p);
                     back->b->load_all_populations(pv);
                     back->b->load_all_projections(jv);
                     back->loaded = true;
                     return none();
                 },
                 b, ps, js);
            for (size_t p : ps) std::visit([&](auto &x) { back->sizes[x.get_uid()] = x.size(); }, t.pops[p]->p);
            for (size_t j : js)
                std::visit([&](auto &x) { size_t &n = back->sizes[x.get_uid()]; for (auto &syn : x) n = std::max<size_t>(n, std::get<2>(syn) + 1); }, t.projs[j]->p);
        }
        else if (op.k == "raw_init") both("raw_init", [&] { back->b->_init(); return none(); }, b);
        else if (op.k == "raw_look") both("raw_look", [&] { return row(back->b->get_step(), back->b->running()); }, b);
        else if (op.k == "raw_step") { if (back->loaded) both("raw_step", [&] { back->b->_step(); return none(); }, b); }
        else if (op.k == "raw_learning")
        {
            bool on = op.A(1) & 1;
            both("raw_learning", [&] { on ? back->b->start_learning() : back->b->stop_learning(); return none(); }, b, on);
        }
        else if (op.k == "raw_subscribe")
        {
            size_t ty = op.idx(1, 2), u = op.idx(2, UIDS);
            std::vector<size_t> from{op.idx(3, UIDS), op.idx(4, UIDS)};
            std::vector<kc::UID> senders{t.uids[from[0]], t.uids[from[1]]};
            // Impacts are not checked by those who receive them.
            if (!back->loaded) return;
            if (ty == 1)
                for (auto &x : senders)
                    if (back->sizes.count(x) && back->sizes[x] > (back->sizes.count(t.uids[u]) ? back->sizes[t.uids[u]] : 0)) return;
            both("raw_subscribe",
                 [&]
                 {
                     if (ty == 0) back->b->subscribe<km::SpikeMessage>(t.uids[u], senders);
                     else back->b->subscribe<km::SynapticImpactMessage>(t.uids[u], senders);
                     return none();
                 },
                 b, ty, u, from);
        }
        else if (op.k == "raw_start")
        {
            if (!back->loaded) return;
            long now = static_cast<long>(back->b->get_step());
            std::vector<long> a{now + static_cast<long>(op.idx(1, 6)), static_cast<long>(op.idx(2, 4)), op.A(3) ? now + static_cast<long>(op.idx(3, 6)) : -1, static_cast<long>(op.idx(4, 3))};
            std::vector<long> c{now + 1 + static_cast<long>(op.idx(6, 6)), static_cast<long>(op.idx(7, 4)), op.A(8) ? now + static_cast<long>(op.idx(8, 6)) : -1, static_cast<long>(op.idx(9, 3))};
            bool two = op.A(5) & 1;
            t.stopping = [&] { back->b->stop(); };
            t.faulty = true;
            both("raw_start",
                 [&]
                 {
                     if (two) back->b->start(t.predicate(0, a), t.predicate(1, c));
                     else back->b->start(t.predicate(0, a));
                     return none();
                 },
                 b, a, two ? value(c) : py::object());
            both("raw_look", [&] { return row(back->b->get_step(), back->b->running()); }, b);
        }
        else if (op.k == "raw_remove")
        {
            if (!back->loaded) return;
            std::vector<size_t> us;
            for (size_t k = 2; k < 4; ++k) if (op.A(k) >= 0) us.push_back(op.idx(k, UIDS));
            std::vector<kc::UID> ids;
            for (size_t u : us) ids.push_back(t.uids[u]);
            both("raw_remove", [&] { back->b->remove_projections(ids); return none(); }, b, 1, us);
        }
        else
        {
            if (t.models.empty() || back->loaded) return;
            size_t m = slot_of(t.models, op, 2);
            // A backend checks neither ends nor sizes of projections.
            kf::Network &net = t.models[m]->get_network();
            bool fit = true;
            for (auto p = net.begin_populations(); p != net.end_populations(); ++p) fit &= std::visit([](auto &q) { return q.size(); }, *p) > 0;
            for (auto it = net.begin_projections(); it != net.end_projections(); ++it)
                std::visit(
                    [&](auto &x)
                    {
                        auto size_of = [&](const kc::UID &u) -> size_t
                        {
                            for (auto p = net.begin_populations(); p != net.end_populations(); ++p)
                                if (std::visit([](auto &q) { return q.get_uid(); }, *p) == u) return std::visit([](auto &q) { return q.size(); }, *p);
                            return 0;
                        };
                        size_t pre = size_of(x.get_presynaptic()), post = size_of(x.get_postsynaptic());
                        for (auto &syn : x) fit &= std::get<1>(syn) < (pre ? pre : 100) && std::get<2>(syn) < post;
                    },
                    *it);
            if (!fit) return;
            Rng r(static_cast<uint64_t>(op.A(3)));
            kf::ModelLoader::InputChannelMap map;
            py::list inputs;
            std::set<size_t> used;
            for (int k = 0; k < 8 && op.a.size() > 4 + static_cast<size_t>(k); ++k)
            {
                size_t u = op.idx(4 + static_cast<size_t>(k), UIDS);
                if (!used.insert(u).second) continue;
                std::vector<Twin::In> pl;
                py::list pyl;
                for (long i = r.range(1, 4); i > 0; --i)
                {
                    Twin::In in{r.chance(p_bad) ? r.range(1, 2) : 0, {}};
                    for (uint32_t x = 0; x < 3; ++x) if (r.chance(0.5)) in.spikes.push_back(x);
                    pl.push_back(in);
                    pyl.append(py::make_tuple(in.what, value(std::vector<uint32_t>(in.spikes))));
                }
                map.insert({t.uids[u], t.input(k, pl)});
                inputs.append(py::make_tuple(u, pyl));
            }
            both("executor",
                 [&]
                 {
                     back->loaded = true;
                     auto e = std::make_shared<Twin::Exec>();
                     e->e = std::make_shared<kf::ModelExecutor>(*t.models[m], back->b, map);
                     e->b = back;
                     t.execs[s] = e;
                     return none();
                 },
                 s, m, b, inputs);
        }
    }
    else if (op.k.compare(0, 5, "exec_") == 0 || op.k == "observe" || op.k == "channel")
    {
        if (t.execs.empty()) return;
        size_t e = slot_of(t.execs, op, 0);
        std::shared_ptr<Twin::Exec> x = t.execs[e];
        if (op.k == "exec_start")
        {
            long now = static_cast<long>(x->b->b->get_step());
            std::vector<long> a{now + static_cast<long>(op.idx(1, 7)), static_cast<long>(op.idx(2, 4)), op.A(3) ? now + static_cast<long>(op.idx(3, 7)) : -1, static_cast<long>(op.idx(4, 3))};
            t.faulty = op.A(5) & 1;
            t.stopping = [&] { x->e->stop(); };
            both("exec_start", [&] { x->e->start(t.predicate(0, a)); return none(); }, e, a, t.faulty);
            both("exec_look", [&] { return row(x->b->b->get_step(), x->b->b->running()); }, e);
        }
        else if (op.k == "exec_learning")
        {
            bool on = op.A(1) & 1;
            both("exec_learning", [&] { on ? x->e->start_learning() : x->e->stop_learning(); return none(); }, e, on);
        }
        else if (op.k == "channel")
        {
            size_t s = op.idx(1, SLOTS), u = op.idx(2, UIDS);
            Outcome n = natively([&] { auto &c = x->e->get_loader().get_output_channel(t.uids[u]); t.chans[s] = {x, &c}; return txt(c.get_uid()); });
            Outcome p = in_python("channel", several(s, e, u));
            if (n.kind == "ok") check("channel", n, p);
            else if (p.kind == "ok") violation("accepted in Python", "channel: Python has an output channel that does not exist");
        }
        else
        {
            if (x->b->mt) return;       // the order of messages is compared
            int ty = static_cast<int>(op.idx(1, 2));
            long k = static_cast<long>(op.idx(2, 50)), bad = op.A(3) ? static_cast<long>(op.idx(3, 12)) : -1;
            std::vector<size_t> from;
            for (size_t i = 4; i < op.a.size() && i < 24; ++i) from.push_back(op.idx(i, UIDS));
            std::vector<kc::UID> senders;
            for (size_t u : from) senders.push_back(t.uids[u]);
            both("observe",
                 [&]
                 {
                     auto fail = [this, bad](const auto &ms) { if (t.faulty && !ms.empty() && static_cast<long>(ms[0].header_.send_time_) == bad) throw PyInjected{bad}; };
                     if (ty == 0)
                         x->e->add_observer<km::SpikeMessage>(
                             [this, k, fail](const std::vector<km::SpikeMessage> &ms)
                             {
                                 Quiet q;
                                 for (auto &m : ms) t.calls.push_back("[" + txt(k) + "," + Twin::message(m).substr(1));
                                 if (k % 4 == 1) t.keep(Twin::messages(ms));
                                 fail(ms);
                             },
                             senders);
                     else
                         x->e->add_observer<km::SynapticImpactMessage>(
                             [this, k, fail](const std::vector<km::SynapticImpactMessage> &ms)
                             {
                                 Quiet q;
                                 for (auto &m : ms) t.calls.push_back("[" + txt(k) + "," + Twin::message(m).substr(1));
                                 if (k % 4 == 1) t.keep(Twin::messages(ms));
                                 fail(ms);
                             },
                             senders);
                     return none();
                 },
                 e, k, ty, bad, from);
        }
    }
    else if (op.k == "read" || op.k == "update")
    {
        if (t.chans.empty()) return;
        size_t s = slot_of(t.chans, op, 0);
        Twin::Chan &c = t.chans[s];
        if (op.k == "update") both("update", [&] { c.c->update(); return none(); }, s);
        else
        {
            size_t a = op.idx(1, 20), z = a + op.idx(2, 20);
            both("read", [&] { auto v = Twin::messages(c.c->read_some_from_buffer(a, z)); t.keep(v); return txt(v); }, s, a, z);
        }
    }
    else
    {
        if (t.ends.empty()) return;
        size_t s = slot_of(t.ends, op, 0), u = op.idx(1, UIDS), ty = op.idx(2, 2);
        kc::MessageEndpoint &end = *t.ends[s];
        if (op.k == "subscribe")
        {
            std::vector<size_t> from;
            for (size_t k = 3; k < op.a.size() && k < 24; ++k) from.push_back(op.idx(k, UIDS));
            std::vector<kc::UID> senders;
            for (size_t x : from) senders.push_back(t.uids[x]);
            both("subscribe",
                 [&]
                 {
                     if (ty == 0) end.subscribe<km::SpikeMessage>(t.uids[u], senders);
                     else end.subscribe<km::SynapticImpactMessage>(t.uids[u], senders);
                     return none();
                 },
                 s, ty, u, from);
        }
        else if (op.k == "unsubscribe")
            both("unsubscribe", [&] { return txt(static_cast<bool>(ty == 0 ? end.unsubscribe<km::SpikeMessage>(t.uids[u]) : end.unsubscribe<km::SynapticImpactMessage>(t.uids[u]))); }, s, ty, u);
        else if (op.k == "remove_receiver") both("remove_receiver", [&] { end.remove_receiver(t.uids[u]); return none(); }, s, u);
        else if (op.k == "receive") both("receive", [&] { return txt(end.receive_all_messages()); }, s);
        else if (op.k == "unload")
        {
            Outcome n = natively(
                [&]
                {
                    std::vector<Raw> v;
                    if (ty == 0) for (auto &m : end.unload_messages<km::SpikeMessage>(t.uids[u])) v.push_back({Twin::message(m)});
                    else for (auto &m : end.unload_messages<km::SynapticImpactMessage>(t.uids[u])) v.push_back({Twin::message(m)});
                    if (!v.empty()) sim::probe("messages unloaded");
                    if (!t.end_mt[s]) t.keep(v);
                    return sorted(v, t.end_mt[s]);
                });
            if (t.end_mt[s])
            {
                // The order of messages of one step is not compared.
                py::list l = py::call<py::list>(driver_do, "unload", several(s, ty, u, false));
                Outcome p{py::extract<std::string>(l[0]), ""};
                if (p.kind != "ok") p = {"error", txt(py::object(l[1]))};
                else
                {
                    std::vector<Raw> v;
                    for (long i = 0, k = py::len(l[1]); i < k; ++i) v.push_back({txt(py::object(l[1][i]))});
                    p.text = sorted(v, true);
                }
                check("unload", n, p);
            }
            else
                check("unload", n, in_python("unload", several(s, ty, u, true)));
        }
        else if (op.k == "send_spikes")
        {
            km::SpikeMessage m{{t.uids[u], time_of(op)}, {}};
            for (long k = op.A(5) ? static_cast<long>(op.idx(5, 500)) : op.A(4) & 7, x = op.A(4); k > 0; --k) m.neuron_indexes_.push_back(static_cast<uint32_t>((x = x * 75 + 74) & 3));
            both("send_spikes",
                 [&]
                 {
                     std::stringstream a, b;
                     a << m;
                     b << m.header_;
                     end.send_message(m);
                     return row(a.str(), b.str(), std::vector<uint32_t>(m.neuron_indexes_));
                 },
                 s, u, m.header_.send_time_, std::vector<uint32_t>(m.neuron_indexes_));
        }
        else if (op.k == "send_impact")
        {
            size_t pre = op.idx(5, UIDS), post = op.idx(6, UIDS);
            km::SynapticImpactMessage m;
            m.header_ = {t.uids[u], time_of(op)};
            m.presynaptic_population_uid_ = t.uids[pre];
            m.postsynaptic_population_uid_ = t.uids[post];
            m.is_forcing_ = op.A(4) & 1;
            py::list impacts;
            for (long k = (op.A(4) >> 1) & 3; k > 0; --k)
            {
                km::SynapticImpact i{static_cast<uint64_t>(k), static_cast<float>(k) / 4, static_cast<st::OutputType>(k % 5), static_cast<uint32_t>(k * 3), 0};
                m.impacts_.push_back(i);
                impacts.append(py::make_tuple(i.connection_index_, i.impact_value_, k % 5, i.presynaptic_neuron_index_, i.postsynaptic_neuron_index_));
            }
            both("send_impact", [&] { end.send_message(m); return none(); }, s, u, m.header_.send_time_, pre, post, m.is_forcing_, impacts);
        }
        else if (op.k == "misuse_end")
            both("misuse_end", []() -> std::string { throw Refused{}; }, s, op.idx(2, 10), u);
    }
}

// Set by the runner before the case; holds everything of the twin.
void run_case(const Case &c, bool physical)
{
    if (!boot_error.empty()) violation("bindings cannot be imported", "%s", boot_error.c_str());
    PyEval_RestoreThread(main_state);
    sim::set_entropy(static_cast<uint64_t>(c.P("entropy", 1, 1, 1 << 30)), 0);
    Plugins plugins;
    fakedl::install(&plugins);
    lib_params = mt_params(c);
    try
    {
        Run run(static_cast<uint64_t>(c.P("seed", 1, 0, 1 << 30)), physical, static_cast<double>(c.P("bad", 0, 0, 1000)) / 1000.0);
        run.physical = physical;
        {
            py::list us, ns, ss;
            for (auto &u : run.t.uids)
            {
                py::list bytes;
                for (uint8_t b : u.tag) bytes.append(static_cast<int>(b));
                us.append(bytes);
            }
            auto all = [](const auto &v) { py::list l; for (auto &x : v) l.append(x); return l; };
            ns.append(all(run.t.pools.n0)), ns.append(all(run.t.pools.n1)), ns.append(all(run.t.pools.n2));
            ss.append(all(run.t.pools.s0)), ss.append(all(run.t.pools.s1)), ss.append(py::list());
            Outcome p = in_python("reset", several(us, ns, ss));
            if (p.kind != "ok" || p.text != txt(run.t.uids)) violation("identifiers differ", "Python has %s %.600s", p.kind.c_str(), p.text.c_str());
        }
        for (auto &op : c.ops) run.step(op);
        Outcome p = in_python("finish", py::list());
        if (p.kind != "ok" || p.text != "0") violation("callback kept", "%s callback(s) are kept alive after everything they were given to is gone", p.text.c_str());
        if (run.refused) sim::probe("refused operation", run.refused);
        if (run.injected) sim::probe("callback raised", run.injected);
        if (run.ops > 2) sim::nontrivial();
    }
    catch (const py::error_already_set &)
    {
        violation("unexpected Python error", "%s", python_error().c_str());
    }
    fakedl::install(nullptr);
}

// ---- generators -----------------------------------------------------------------------------------------------------
void common_params(Rng &r, Case &c)
{
    c.p["seed"] = static_cast<long>(r.below(1 << 20));
    c.p["entropy"] = static_cast<long>(1 + r.below(1 << 20));
    c.p["bad"] = r.chance(0.6) ? r.range(20, 300) : 0;
}
void gen_objects(Rng &r, Case &c)
{
    common_params(r, c);
    double bad = static_cast<double>(c.p["bad"]) / 1000.0;
    bool wide = r.chance(0.03);
    auto pl = [&](long n) { return std::vector<long>{static_cast<long>(r.below(1 << 16)), r.range(0, wide && r.chance(0.3) ? 390 : n), r.chance(bad)}; };
    auto add = [&](const char *k, std::vector<long> a, const std::vector<long> &b, std::vector<long> z = {})
    {
        a.insert(a.end(), b.begin(), b.end());
        a.insert(a.end(), z.begin(), z.end());
        c.op(k, a);
    };
    auto s = [&] { return r.range(0, static_cast<long>(SLOTS) - 1); };
    auto u = [&] { return r.range(0, 5); };
    double hungry = r.chance(0.3) ? 0.3 : 0;
    long n = r.range(3, r.chance(0.05) ? 120 : 30);
    for (long i = 0; i < n; ++i)
    {
        double x = i < 2 ? r.unit() * 0.25 : r.unit();
        if (r.chance(hungry)) c.op("starve", {r.range(5, 400)});
        if (x < 0.13) add("pop", {s(), r.range(0, 2), r.chance(0.2) ? -1 : u()}, pl(8));
        else if (x < 0.24) add("proj", {s(), r.chance(0.1) ? 2 : r.range(0, 1), r.chance(0.2) ? -1 : 6 + u(), u(), u()}, pl(12), {r.chance(0.1)});
        else if (x < 0.29) add("pop_add", {s()}, pl(8));
        else if (x < 0.33) c.op("pop_remove", {s(), r.range(0, 9), r.range(0, 8)});
        else if (x < 0.36) c.op("pop_remove_several", {s(), static_cast<long>(r.below(1000)), r.range(0, 3), r.range(0, 9)});
        else if (x < 0.39) c.op("pop_look", {s(), r.chance(0.5)});
        else if (x < 0.41) c.op("pop_outside", {s(), r.chance(0.3) ? -r.range(1, 5) : r.chance(0.5) ? 0 : r.range(0, 999)});
        else if (x < 0.44) c.op("pop_set", {s(), r.range(0, 9), r.range(0, 7), r.range(-20, 100), r.range(0, 8)});
        else if (x < 0.48) c.op("misuse", {s(), r.range(0, 15)});
        else if (x < 0.52) add("proj_add", {s()}, pl(12));
        else if (x < 0.54) c.op("proj_look", {s()});
        else if (x < 0.58) c.op("proj_get", {s(), r.chance(0.1) ? -r.range(1, 5) : r.range(0, 14)});
        else if (x < 0.60) c.op("uids", {r.range(0, 15), r.range(0, 15)});
        else if (x < 0.66) c.op("drop", {s(), r.range(0, 3), r.chance(0.2)});
        else if (x < 0.72) c.op("hold", {s(), r.range(0, 5), r.range(0, 4), r.range(0, 9)});
        else if (x < 0.77) c.op("release", {0, r.range(0, 5)});
        else if (x < 0.80) c.op("net", {s(), r.range(0, 11)});
        else if (x < 0.84) c.op("net_add", {s(), s()});
        else if (x < 0.87) c.op("net_connect", {s(), s()});
        else if (x < 0.89) c.op("net_remove", {s(), r.range(0, 1), r.range(0, 11)});
        else if (x < 0.92) c.op("net_get", {s(), r.range(0, 1), r.chance(0.5) ? u() : 6 + u()});
        else if (x < 0.93) c.op("net_all", {s()});
        else if (x < 0.94) c.op("net_look", {s()});
        else if (x < 0.96) c.op("model", {s(), s()});
        else if (x < 0.97) c.op("model_net", {s(), s()});
        else if (x < 0.98) c.op("model_look", {s()});
        else if (x < 0.99) c.op("model_add", {s(), s()});
        else c.op("model_channel", {s(), r.range(0, 1), r.range(0, 11), r.range(0, 11)});
    }
}
void gen_runs(Rng &r, Case &c)
{
    common_params(r, c);
    double bad = static_cast<double>(c.p["bad"]) / 1000.0;
    c.p["threads"] = r.range(1, 3);
    c.p["pop_part"] = r.range(1, 4);
    c.p["proj_part"] = r.range(1, 6);
    auto pl = [&](long lo, long n, double p) { return std::vector<long>{static_cast<long>(r.below(1 << 16)), r.range(lo, n), r.chance(p)}; };
    auto add = [&](const char *k, std::vector<long> a, const std::vector<long> &b, std::vector<long> z = {})
    {
        a.insert(a.end(), b.begin(), b.end());
        a.insert(a.end(), z.begin(), z.end());
        c.op(k, a);
    };
    auto s = [&] { return r.range(0, static_cast<long>(SLOTS) - 1); };
    bool exec = r.chance(0.55), mt = r.chance(0.2);
    auto ty = [&] { return mt || r.chance(0.7) ? r.range(0, 1) : 2; };
    // Populations have identifiers 0 to 2, projections 3 to 5, inputs 6 and 7, outputs 8 and 9.
    long np = r.range(1, 3), nj = r.range(1, 3);
    for (long i = 0; i < np; ++i) add("pop", {i, ty(), i}, pl(3, 5, 0));
    for (long i = 0; i < nj; ++i) add("proj", {i, r.range(0, 1), 3 + i, r.chance(0.4) ? 6 + r.range(0, 1) : r.range(0, np - 1), r.range(0, np - 1)}, pl(2, 12, 0));
    c.op("backend", {0, mt});
    if (exec)
    {
        c.op("net", {0, 10});
        for (long i = 0; i < np; ++i) c.op("net_add", {0, i});
        for (long i = 0; i < nj; ++i) c.op("net_connect", {0, i});
        c.op("model", {0, 0});
        bool many = r.chance(0.06);
        for (long i = r.range(1, many ? 9 : 3); i > 0; --i) c.op("model_channel", {0, 0, many && r.chance(0.6) ? r.range(12, 15) : 6 + r.range(0, 1), 3 + r.range(0, nj - 1)});
        for (long i = 0; i < 2; ++i) c.op("model_channel", {0, 1, 8 + i, r.range(0, np - 1)});
        if (many) c.op("executor", {0, 0, 0, static_cast<long>(r.below(1 << 20)), 6, 7, 12, 13, 14, 15});
        else c.op("executor", {0, 0, 0, static_cast<long>(r.below(1 << 20)), 6, 7});
        for (long i = 0; i < 2; ++i) c.op("channel", {0, i, 8 + i});
        if (r.chance(0.7)) c.op("observe", {0, r.range(0, 1), 1, r.chance(bad * 2) ? r.range(1, 8) : 0, 0, 1, r.range(2, 9)});
    }
    else
    {
        c.op("raw_load", {0});
        for (long i = 0; i < nj; ++i) c.op("raw_subscribe", {0, 0, 3 + i, r.range(0, 2), 6 + r.range(0, 1)});
        for (long i = 0; i < np; ++i) c.op("raw_subscribe", {0, 1, i, 3 + r.range(0, 2), 3 + r.range(0, 2)});
        c.op("raw_init", {0});
    }
    c.op("end", {0, 0});
    c.op("subscribe", {0, 11, 0, 0, 1, 2, r.range(3, 7)});
    c.op("subscribe", {0, 11, 1, 3, 4, 5});
    auto several = [&](std::vector<long> a, long k)
    {
        if (r.chance(0.15)) k = r.range(0, 14);
        for (; k > 0; --k) a.push_back(r.range(0, 9));
        return a;
    };
    long n = r.range(3, r.chance(0.05) ? 80 : 25);
    for (long i = 0; i < n; ++i)
    {
        double x = r.unit();
        if (x < 0.22)
        {
            if (exec) c.op("exec_start", {0, r.range(0, 6), r.range(0, 3), r.chance(bad) ? r.range(1, 6) : 0, r.range(0, 2), r.chance(0.5)});
            else c.op("raw_start", {0, r.range(0, 5), r.range(0, 3), r.chance(bad) ? r.range(1, 5) : 0, r.range(0, 2), r.chance(0.4), r.range(0, 5), r.range(0, 3), r.chance(bad) ? r.range(1, 5) : 0, r.range(0, 2)});
        }
        else if (x < 0.32) c.op("send_spikes", {0, r.chance(0.25) ? r.range(0, np - 1) : 6 + r.range(0, 1), 0, r.chance(0.03) ? r.range(100, 119) : r.range(0, 20), static_cast<long>(r.below(1 << 12)), r.chance(0.02) ? r.range(8, 499) : 0});
        else if (x < 0.36) c.op("send_impact", {0, r.range(3, 7), 0, r.chance(0.03) ? r.range(100, 119) : r.range(0, 20), static_cast<long>(r.below(16)), r.range(0, 2), r.range(0, np - 1)});
        else if (x < 0.44) c.op("receive", {s()});
        else if (x < 0.54) c.op("unload", {s(), r.chance(0.8) ? 11 : r.range(0, 11), r.range(0, 1)});
        else if (x < 0.58) c.op("route", {0, r.range(0, 1)});
        else if (x < 0.62) c.op(exec ? "update" : "raw_step", {s()});
        else if (x < 0.68) c.op(exec ? "read" : "raw_look", {s(), r.range(0, 8), r.range(0, 19)});
        else if (x < 0.72) c.op(exec ? "exec_learning" : "raw_learning", {0, r.range(0, 1)});
        else if (x < 0.75) c.op("misuse_end", {s(), r.range(0, 11), r.range(0, 9)});
        else if (x < 0.79) c.op("subscribe", several({s(), r.chance(0.5) ? 11 : r.range(9, 11), r.range(0, 1)}, 2));
        else if (x < 0.81) c.op("unsubscribe", {s(), r.range(9, 11), r.range(0, 1)});
        else if (x < 0.82) c.op("remove_receiver", {s(), r.range(9, 11)});
        else if (x < 0.84) c.op("end", {0, s()});
        else if (x < 0.86) c.op("backend", {s(), r.range(0, 2)});
        else if (x < 0.93) c.op("drop", {r.chance(0.6) ? 0 : s(), r.range(0, 7), r.chance(0.3)});
        else if (x < 0.94) c.op("raw_remove", {0, 1, r.range(3, 6), r.range(-3, 6)});
        else if (x < 0.96) c.op("observe", several({0, r.range(0, 1), r.range(2, 40), r.chance(bad) ? r.range(1, 11) : 0}, 3));
        else if (x < 0.965) c.op("recall", {});
        else if (x < 0.98) c.op("channel", {0, s(), 8 + r.range(0, 2)});
        else c.op("hold", {0, r.range(0, 5), 3, 0}), c.op("drop", {0, 3, 0}), c.op("release", {0, 0});
    }
}
void run_objects(const Case &c) { run_case(c, false); }
void run_runs(const Case &c) { run_case(c, true); }

sim::Register r1({"C33", "python_objects", 1, gen_objects, run_objects,
                  "Populations, projections, networks, models and identifiers are created, edited, compared, put together, referred to and dropped from Python, with generators that raise or return anything, and the same is done in C++; non-trivial: more than two operations",
                  "Python bindings (neuron traits, synapse traits, core, base framework), CPython, Boost.Python, core library, networks and models", "dynamic linker, memory of Python objects (on the simulated heap), entropy", 0, 0});
sim::Register r2({"C33", "python_runs", 1, gen_runs, run_runs,
                  "Backends are loaded, fed, run with Python predicates and input generators, observed and read from Python, with callbacks that raise, stop or answer nonsense and owners dropped in any order, and the same is done in C++; non-trivial: more than two operations",
                  "Python bindings (neuron traits, synapse traits, core, base framework), CPython, Boost.Python, message bus, backends, model executor, channels, observers", "dynamic linker and plugin libraries, memory of Python objects (on the simulated heap), entropy", 0, 0});
}  // namespace

extern "C" void scenario_setup() { boot(); }
