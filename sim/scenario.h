// Scenario interface: a scenario generates cases (parameters plus an explicit operation list) from a seed and executes a
// case inside a simulated run, checking invariants as it goes.
#pragma once
#include <map>
#include <string>
#include <vector>

#include "rt.h"

namespace sim
{
struct Op
{
    std::string k;
    std::vector<long> a;
    long A(size_t i, long dflt = 0) const { return i < a.size() ? a[i] : dflt; }
    // Argument folded into [0, n).
    size_t idx(size_t i, size_t n) const
    {
        long v = A(i);
        return n ? static_cast<size_t>(v < 0 ? -v : v) % n : 0;
    }
};

struct Case
{
    std::map<std::string, long> p;
    std::vector<Op> ops;
    // Parameter clamped to the range in which the scenario is meaningful (minimisation may propose anything).
    long P(const char *name, long dflt, long lo, long hi) const
    {
        Quiet q;    // the shape of the map depends on the order of insertion, which replay files do not keep
        auto it = p.find(name);
        long v = it == p.end() ? dflt : it->second;
        return v < lo ? lo : v > hi ? hi : v;
    }
    void op(const char *k, std::vector<long> a = {}) { ops.push_back({k, std::move(a)}); }
};

struct Scenario
{
    const char *property;
    const char *name;
    double weight;
    void (*gen)(Rng &, Case &);
    void (*run)(const Case &);
    const char *about;     // what a case is and what makes a run non-trivial
    const char *real;      // components that run real code
    const char *stub;      // components that are simulated
    uint64_t fair_after;   // 0 = default
    uint64_t tick_cap;     // 0 = default
};

std::vector<Scenario> &scenarios();
struct Register
{
    explicit Register(const Scenario &s) { scenarios().push_back(s); }
};
}  // namespace sim
