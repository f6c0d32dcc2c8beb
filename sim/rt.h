// Deterministic simulation runtime: the API that scenarios use inside a simulated run.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>

namespace sim
{
// ---- limits -------------------------------------------------------------------------------------------------------
constexpr int MAXT = 40;              // threads per run (slots are reused after join)
constexpr int MAXREC = 1 << 19;       // recorded scheduling decisions
constexpr int MAXFREC = 1 << 15;      // recorded non-default fault/choice decisions
constexpr int MAXKIND = 40;           // fault/choice kinds
constexpr int MAXPROBE = 64;

struct SchedRec { uint64_t tick; int32_t tid; int32_t pad; };
struct FaultRec { int32_t kind; uint32_t occ; int64_t val; };

enum Status { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_DISCARD = 3 };

// Everything a run reports; lives in memory shared with the driver.
struct Result
{
    int status;
    char msg[6000];
    uint64_t pcs[16];
    int npcs;
    uint64_t hash, ticks, accesses, syncops, switches, preempts, sim_ns;
    int max_threads;
    uint64_t nontrivial;
    uint64_t fault_asked[MAXKIND], fault_fired[MAXKIND];
    struct { char name[40]; uint64_t n; } probes[MAXPROBE];
    int nprobes;
    int overflow;
    int nsched, nfault;
    SchedRec sched[MAXREC];
    FaultRec faults[MAXFREC];
    char kind_names[MAXKIND][32];
    int nkinds;
};

// How a run is to be scheduled.
struct RunMode
{
    bool replay = false;             // follow the given streams; otherwise draw from `sched_seed`
    uint64_t sched_seed = 0;
    const SchedRec *sched = nullptr;
    int nsched = 0;
    const FaultRec *faults = nullptr;  // kinds are indices into the fixed kind table
    int nfault = 0;
    uint64_t fair_after = 3000000;   // after this many ticks scheduling becomes round-robin
    uint64_t tick_cap = 40000000;    // after this many ticks without finishing: no progress
};

using MainFn = void (*)(void *);
// Runs fn(arg) as simulated thread 0 of this (freshly forked) process; never returns.
[[noreturn]] void run_simulation(const RunMode &mode, Result *result, MainFn fn, void *arg);

// ---- inside a run -------------------------------------------------------------------------------------------------
bool active();
// Registers (or looks up) a fault/choice kind; the table is fixed before the run for replays by name.
int kind_id(const char *name);
const char *kind_name(int id);
int kind_count();

// A seeded decision with n alternatives; 0 is the default and is what a run without a recorded entry gets.
long choose(const char *kind, long n, double p_nonzero);
inline bool fault(const char *kind, double p) { return choose(kind, 2, p) != 0; }
// Global switch: while off, choose() answers 0 without counting.
void faults_enabled(bool on);

[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void discard(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void obs(uint64_t v);                 // mixes an observation into the run hash
void obs_bytes(const void *p, size_t n);
void nontrivial(uint64_t n = 1);      // this run exercised what the scenario is about
void probe(const char *name, uint64_t n = 1);
uint64_t tick();
uint64_t now_ns();
int self();                           // simulated thread id
int live_threads();                   // threads created and not yet finished
void yield_point();                   // explicit scheduling point

// While alive, the current thread's accesses are not scheduling points and not race-checked (harness bookkeeping).
struct Quiet { Quiet(); ~Quiet(); Quiet(const Quiet &) = delete; };
// While alive, operator new may fail (kind "alloc") with the given probability on the current thread.
struct AllocFaults { double prev; explicit AllocFaults(double p); ~AllocFaults(); AllocFaults(const AllocFaults &) = delete; };
// The same for every thread that does not hold a NoAllocFaults.
void alloc_faults_everywhere(double p);
struct NoAllocFaults { double prev; NoAllocFaults(); ~NoAllocFaults(); NoAllocFaults(const NoAllocFaults &) = delete; };

// Knobs the environment reports.
void set_hardware_concurrency(unsigned n);
// Random bytes handed out by the operating system: mode 0 = pseudo-random stream from `seed`; p_short / p_fail inject
// short reads and failures where the interface allows them.
void set_entropy(uint64_t seed, double p_fail);
uint64_t entropy_calls();
size_t heap_live_bytes();
size_t heap_live_blocks();

// Small deterministic generator for harness use.
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    long range(long lo, long hi) { return lo + static_cast<long>(below(static_cast<uint64_t>(hi - lo + 1))); }
    double unit() { return static_cast<double>(next() >> 11) / 9007199254740992.0; }
    bool chance(double p) { return unit() < p; }
};
}  // namespace sim
