// Seeded search over simulated runs, replay, minimisation and evidence. Not instrumented; never runs inside a simulation.
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <fstream>
#include <functional>
#include <set>
#include <sstream>
#include <unordered_set>

#include "scenario.h"

namespace sim
{
std::vector<Scenario> &scenarios()
{
    static std::vector<Scenario> v;
    return v;
}
}  // namespace sim

using namespace sim;

namespace
{
double now()
{
    timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

struct Fault { std::string kind; uint32_t occ; int64_t val; };
struct Spec
{
    const Scenario *sc = nullptr;
    Case c;
    uint64_t seed = 0;       // generation seed (informational in replays)
    bool replay = false;
    uint64_t sched_seed = 0;
    std::vector<SchedRec> sched;
    std::vector<Fault> faults;
};

uint64_t mix64(uint64_t a, uint64_t b)
{
    Rng r(a ^ (b * 0xD6E8FEB86659FD93ull + 0x632BE59BD9B4E019ull));
    return r.next();
}

const Scenario *find_scenario(const std::string &name)
{
    for (auto &s : scenarios())
        if (name == s.name) return &s;
    return nullptr;
}

Result *new_result()
{
    void *p = mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return static_cast<Result *>(p);
}
void reset_result(Result *r)
{
    r->status = 0;
    r->msg[0] = 0;
    r->npcs = 0;
    r->hash = r->ticks = r->accesses = r->syncops = r->switches = r->preempts = r->sim_ns = r->nontrivial = 0;
    r->max_threads = 0;
    memset(r->fault_asked, 0, sizeof r->fault_asked);
    memset(r->fault_fired, 0, sizeof r->fault_fired);
    memset(r->probes, 0, sizeof r->probes);
    r->nprobes = r->overflow = r->nsched = r->nfault = r->nkinds = 0;
}

bool g_verbose = false;
double g_cpu_limit = 20;

struct RunArg { const Scenario *sc; const Case *c; };
void run_main(void *v)
{
    RunArg *a = static_cast<RunArg *>(v);
    try
    {
        a->sc->run(*a->c);
    }
    catch (const std::exception &e)
    {
        violation("unexpected exception", "%s", e.what());
    }
    catch (...)
    {
        violation("unexpected exception", "of unknown type");
    }
}

// Starts a run in a forked child; returns its pid.
pid_t start_run(const Spec &s, Result *r)
{
    reset_result(r);
    std::vector<FaultRec> fr;
    for (auto &f : s.faults) fr.push_back({kind_id(f.kind.c_str()), f.occ, f.val});
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid) return pid;
    if (!g_verbose)
    {
        int fd = open("/dev/null", O_RDWR);
        dup2(fd, 1);
        dup2(fd, 2);
    }
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    rlimit rl{static_cast<rlim_t>(g_cpu_limit), static_cast<rlim_t>(g_cpu_limit + 5)};
    setrlimit(RLIMIT_CPU, &rl);
    rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
    RunMode m;
    m.replay = s.replay;
    m.sched_seed = s.sched_seed;
    m.sched = s.sched.data();
    m.nsched = static_cast<int>(s.sched.size());
    m.faults = fr.data();
    m.nfault = static_cast<int>(fr.size());
    if (s.sc->fair_after) m.fair_after = s.sc->fair_after;
    if (s.sc->tick_cap) m.tick_cap = s.sc->tick_cap;
    static RunArg a;
    a = {s.sc, &s.c};
    run_simulation(m, r, run_main, &a);
}

void after_exit(Result *r, int st)
{
    if (r->status != ST_NONE) return;
    if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL)
    {
        snprintf(r->msg, sizeof r->msg, "crash: the run was killed by signal %d", WTERMSIG(st));
        r->status = ST_VIOLATION;
    }
    else
    {
        snprintf(r->msg, sizeof r->msg, "run ended without a result (wait status %d)", st);
        r->status = ST_DISCARD;
    }
}

void run_one(const Spec &s, Result *r)
{
    pid_t pid = start_run(s, r);
    int st = 0;
    int pfd = static_cast<int>(syscall(SYS_pidfd_open, pid, 0));
    if (pfd >= 0)
    {
        pollfd p{pfd, POLLIN, 0};
        int rc;
        double t0 = now();
        do { rc = poll(&p, 1, 150000); } while (rc < 0 && errno == EINTR && now() - t0 < 150);
        if (rc <= 0) kill(pid, SIGKILL);
        close(pfd);
    }
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    after_exit(r, st);
}

std::string cls_of(const std::string &msg) { return msg.substr(0, msg.find(':')); }

void capture(const Result *r, Spec &s)
{
    s.sched.assign(r->sched, r->sched + r->nsched);
    s.faults.clear();
    for (int i = 0; i < r->nfault; ++i) s.faults.push_back({r->kind_names[r->faults[i].kind], r->faults[i].occ, r->faults[i].val});
    s.replay = true;
}

// ---- replay files -------------------------------------------------------------------------------------------------
std::string describe(const Spec &s, bool streams = true)
{
    std::ostringstream o;
    for (auto &[k, v] : s.c.p) o << "P " << k << " " << v << "\n";
    for (auto &op : s.c.ops)
    {
        o << "O " << op.k;
        for (long x : op.a) o << " " << x;
        o << "\n";
    }
    if (streams)
    {
        for (auto &d : s.sched) o << "S " << d.tick << " " << d.tid << "\n";
        for (auto &f : s.faults) o << "F " << f.kind << " " << f.occ << " " << f.val << "\n";
    }
    return o.str();
}

void save(const std::string &path, const Spec &s, const Result *r)
{
    std::ofstream f(path);
    f << "knp-simulation-replay 1\nproperty " << s.sc->property << "\nscenario " << s.sc->name << "\nseed " << s.seed
      << "\nsched_seed " << s.sched_seed << "\nreplay " << (s.replay ? 1 : 0) << "\n";
    f << describe(s);
    if (r)
    {
        char h[32];
        snprintf(h, sizeof h, "%016llx", static_cast<unsigned long long>(r->hash));
        f << "hash " << h << "\nticks " << r->ticks << "\n";
        std::string m = r->msg;
        std::replace(m.begin(), m.end(), '\n', ' ');
        f << "message " << m << "\n";
        for (int i = 0; i < r->npcs; ++i) f << "pc " << std::hex << r->pcs[i] << std::dec << "\n";
    }
}

bool load_spec(const std::string &path, Spec &s, std::string *hash = nullptr, std::string *msg = nullptr)
{
    std::ifstream f(path);
    std::string line;
    if (!std::getline(f, line) || line != "knp-simulation-replay 1") return false;
    while (std::getline(f, line))
    {
        std::istringstream i(line);
        std::string k;
        i >> k;
        if (k == "scenario") { std::string n; i >> n; s.sc = find_scenario(n); }
        else if (k == "seed") i >> s.seed;
        else if (k == "sched_seed") i >> s.sched_seed;
        else if (k == "replay") { int r; i >> r; s.replay = r; }
        else if (k == "P") { std::string n; long v; i >> n >> v; s.c.p[n] = v; }
        else if (k == "O") { Op op; i >> op.k; long x; while (i >> x) op.a.push_back(x); s.c.ops.push_back(op); }
        else if (k == "S") { SchedRec d{}; i >> d.tick >> d.tid; s.sched.push_back(d); }
        else if (k == "F") { Fault q; i >> q.kind >> q.occ >> q.val; s.faults.push_back(q); }
        else if (k == "hash" && hash) i >> *hash;
        else if (k == "message" && msg) *msg = line.substr(8);
    }
    return s.sc != nullptr;
}

// ---- generation ---------------------------------------------------------------------------------------------------
Spec make_spec(const std::vector<const Scenario *> &pool, uint64_t base, uint64_t index)
{
    Spec s;
    s.seed = mix64(base, index);
    Rng r(s.seed);
    double tot = 0;
    for (auto *x : pool) tot += x->weight;
    double u = r.unit() * tot;
    s.sc = pool.back();
    for (auto *x : pool)
    {
        if (u < x->weight) { s.sc = x; break; }
        u -= x->weight;
    }
    s.sched_seed = r.next();
    Rng g(r.next());
    s.sc->gen(g, s.c);
    return s;
}

// ---- minimisation -------------------------------------------------------------------------------------------------
struct Minimiser
{
    std::string cls;
    double deadline;
    int par;
    std::vector<Result *> res;
    uint64_t tries = 0;

    // Runs all candidates (in batches); returns the index of the first that fails the same way, with streams captured.
    int first_failing(std::vector<Spec> &cand, bool keep_streams = false)
    {
        for (size_t b = 0; b < cand.size(); b += static_cast<size_t>(par))
        {
            if (now() > deadline) return -1;
            size_t n = std::min(cand.size() - b, static_cast<size_t>(par));
            std::vector<pid_t> pids;
            for (size_t i = 0; i < n; ++i) pids.push_back(start_run(cand[b + i], res[i]));
            tries += n;
            for (size_t i = 0; i < n; ++i)
            {
                int st = 0;
                while (waitpid(pids[i], &st, 0) < 0 && errno == EINTR) {}
                after_exit(res[i], st);
            }
            for (size_t i = 0; i < n; ++i)
                if (res[i]->status == ST_VIOLATION && !res[i]->overflow && cls_of(res[i]->msg) == cls)
                {
                    if (!keep_streams) capture(res[i], cand[b + i]);
                    return static_cast<int>(b + i);
                }
        }
        return -1;
    }

    // Candidate with changed case: first its own streams, then fresh schedules.
    bool try_case(Spec &cur, const Case &c, int extra)
    {
        std::vector<Spec> cand;
        Spec s = cur;
        s.c = c;
        s.replay = true;
        cand.push_back(s);
        Spec plain = s;
        plain.sched.clear();
        plain.faults.clear();
        cand.push_back(plain);
        for (int i = 0; i < extra; ++i)
        {
            Spec q = s;
            q.replay = false;
            q.sched.clear();
            q.faults.clear();
            q.sched_seed = mix64(s.sched_seed, static_cast<uint64_t>(i) * 77 + c.ops.size());
            cand.push_back(q);
        }
        int k = first_failing(cand);
        if (k < 0) return false;
        cur = cand[static_cast<size_t>(k)];
        return true;
    }

    void shrink_ops(Spec &cur)
    {
        size_t chunk = std::max<size_t>(1, cur.c.ops.size() / 2);
        while (now() < deadline && !cur.c.ops.empty())
        {
            bool any = false;
            for (size_t at = 0; at < cur.c.ops.size() && now() < deadline;)
            {
                Case c = cur.c;
                size_t e = std::min(at + chunk, c.ops.size());
                c.ops.erase(c.ops.begin() + static_cast<long>(at), c.ops.begin() + static_cast<long>(e));
                if (try_case(cur, c, 14)) any = true;
                else at += chunk;
            }
            if (chunk == 1) { if (!any) break; }
            else chunk = std::max<size_t>(1, chunk / 2);
        }
    }
    void shrink_values(Spec &cur)
    {
        std::vector<std::string> names;
        for (auto &[k, v] : cur.c.p) names.push_back(k);
        for (auto &n : names)
        {
            for (int step = 0; step < 12 && now() < deadline; ++step)
            {
                long v = cur.c.p[n];
                if (v == 0) break;
                bool ok = false;
                for (long w : {0L, 1L, v / 2, v - (v > 0 ? 1 : -1)})
                {
                    if (w == v || (w == 1 && v == 1)) continue;
                    if (std::labs(w) >= std::labs(v)) continue;
                    Case c = cur.c;
                    c.p[n] = w;
                    if (try_case(cur, c, 6)) { ok = true; break; }
                }
                if (!ok) break;
            }
        }
        for (size_t o = 0; o < cur.c.ops.size(); ++o)
            for (size_t a = 0; a < cur.c.ops[o].a.size() && now() < deadline; ++a)
                for (int step = 0; step < 4; ++step)
                {
                    long v = cur.c.ops[o].a[a];
                    if (v == 0) break;
                    bool ok = false;
                    for (long w : {0L, 1L, v / 2})
                    {
                        if (std::labs(w) >= std::labs(v)) continue;
                        Case c = cur.c;
                        c.ops[o].a[a] = w;
                        if (try_case(cur, c, 2)) { ok = true; break; }
                    }
                    if (!ok) break;
                }
    }
    template <class V>
    void shrink_list(Spec &cur, V Spec::*member)
    {
        // All at once, then ddmin with replays of the reduced stream.
        {
            std::vector<Spec> cand(1, cur);
            (cand[0].*member).clear();
            if (first_failing(cand, true) == 0) { cur = cand[0]; return; }
        }
        size_t chunk = std::max<size_t>(1, (cur.*member).size() / 2);
        while (now() < deadline && !(cur.*member).empty())
        {
            bool any = false;
            for (size_t at = 0; at < (cur.*member).size() && now() < deadline;)
            {
                // Try several disjoint removals in parallel.
                std::vector<Spec> cand;
                std::vector<size_t> ats;
                for (size_t q = at; q < (cur.*member).size() && cand.size() < static_cast<size_t>(par); q += chunk)
                {
                    Spec s = cur;
                    auto &v = s.*member;
                    v.erase(v.begin() + static_cast<long>(q), v.begin() + static_cast<long>(std::min(q + chunk, v.size())));
                    cand.push_back(s);
                    ats.push_back(q);
                }
                int k = first_failing(cand, true);
                if (k >= 0) { any = true; at = ats[static_cast<size_t>(k)]; cur = cand[static_cast<size_t>(k)]; }
                else at = ats.back() + chunk;
            }
            if (chunk == 1) { if (!any) break; }
            else chunk = std::max<size_t>(1, chunk / 2);
        }
    }
    // Drops entries that no longer have any effect by recapturing what a replay really did.
    void recapture(Spec &cur)
    {
        std::vector<Spec> cand(1, cur);
        if (first_failing(cand) == 0) cur = cand[0];
    }
    void minimise(Spec &cur)
    {
        shrink_ops(cur);
        shrink_values(cur);
        shrink_ops(cur);
        shrink_list(cur, &Spec::faults);
        shrink_list(cur, &Spec::sched);
        recapture(cur);
    }
};

// ---- fresh-process replay -----------------------------------------------------------------------------------------
std::string self_exe()
{
    char b[4096];
    ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    return n > 0 ? std::string(b, static_cast<size_t>(n)) : "";
}
// Runs "<self> replay-raw FILE" and returns "class|hash" ("" when there was no violation).
std::string fresh_replay(const std::string &path)
{
    std::string cmd = "'" + self_exe() + "' replay-raw '" + path + "' 2>/dev/null";
    FILE *p = popen(cmd.c_str(), "r");
    if (!p) return "";
    char b[8192];
    std::string out;
    while (fgets(b, sizeof b, p)) out += b;
    pclose(p);
    while (!out.empty() && out.back() == '\n') out.pop_back();
    return out;
}

// ---- exploration --------------------------------------------------------------------------------------------------
constexpr size_t HASHES = 1 << 19;
struct Shared
{
    std::atomic<int> stop;
    std::atomic<int> nviol;
};
struct WorkerStat
{
    uint64_t runs, nontrivial_runs, discards, timeouts, ticks, accesses, syncops, switches, preempts, sim_ns, nondet, det_checked, known;
    uint64_t max_threads;
    uint64_t per_scenario[64];
    uint64_t nontriv_per_scenario[64];
    uint64_t asked[MAXKIND], fired[MAXKIND];
    char kinds[MAXKIND][32];
    int nkinds;
    struct { char name[40]; uint64_t n, runs; } probes[256];
    int nprobes;
    char last_discard[300];
    size_t nhash;
    uint64_t viol_index;
    int has_viol;
    uint64_t hashes[HASHES];
};

struct Finding { std::string property, match, what; };
std::vector<Finding> load_findings(const std::string &path)
{
    std::vector<Finding> v;
    std::ifstream f(path);
    std::string line;
    while (std::getline(f, line))
    {
        // known: property=<id> match="<text in the violation message>" <description>
        if (line.rfind("known:", 0) != 0) continue;
        Finding x;
        size_t p = line.find("property=");
        if (p == std::string::npos) continue;
        std::istringstream(line.substr(p + 9)) >> x.property;
        p = line.find("match=\"");
        if (p == std::string::npos) continue;
        size_t e = line.find('"', p + 7);
        x.match = line.substr(p + 7, e - p - 7);
        x.what = e + 2 < line.size() ? line.substr(e + 2) : x.match;
        v.push_back(x);
    }
    return v;
}

std::string jesc(const std::string &s)
{
    std::string o;
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\') { o += '\\'; o += static_cast<char>(ch); }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += static_cast<char>(ch);
    }
    return o;
}

int explore(int argc, char **argv)
{
    std::string prop, evidence, replaydir = ".", findings_path, tier = "quick", only;
    double seconds = 20, min_seconds = 60;
    uint64_t seed = 1;
    int workers = 0;
    for (int i = 2; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--property") prop = v;
        else if (k == "--seconds") seconds = atof(v.c_str());
        else if (k == "--minimise") min_seconds = atof(v.c_str());
        else if (k == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--evidence") evidence = v;
        else if (k == "--replays") replaydir = v;
        else if (k == "--findings") findings_path = v;
        else if (k == "--tier") tier = v;
        else if (k == "--workers") workers = atoi(v.c_str());
        else if (k == "--scenario") only = v;
    }
    std::vector<const Scenario *> pool;
    std::vector<Scenario> &all = scenarios();
    std::sort(all.begin(), all.end(), [](auto &a, auto &b) { return strcmp(a.name, b.name) < 0; });
    for (auto &s : all)
        if (prop == s.property && (only.empty() || only == s.name)) pool.push_back(&s);
    if (pool.empty()) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 3; }
    std::vector<Finding> findings;
    for (auto &f : load_findings(findings_path))
        if (f.property == prop) findings.push_back(f);

    cpu_set_t avail;
    CPU_ZERO(&avail);
    sched_getaffinity(0, sizeof avail, &avail);
    std::vector<int> cpus;
    for (int i = 0; i < CPU_SETSIZE; ++i)
        if (CPU_ISSET(i, &avail)) cpus.push_back(i);
    if (workers <= 0) workers = std::max(1, std::min<int>(8, static_cast<int>(cpus.size())));

    Shared *sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::vector<WorkerStat *> ws;
    for (int i = 0; i < workers; ++i)
        ws.push_back(static_cast<WorkerStat *>(mmap(nullptr, sizeof(WorkerStat), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)));

    uint64_t base = seed;
    for (char ch : prop) base = mix64(base, static_cast<unsigned char>(ch));
    printf("property %s: VERIF_SEED=%llu, %zu scenario(s), %d worker(s), %.0f s\n", prop.c_str(),
           static_cast<unsigned long long>(seed), pool.size(), workers, seconds);
    fflush(stdout);
    double t0 = now();
    double tend = t0 + seconds;
    std::vector<pid_t> pids;
    uint64_t resume_from = 0;
    std::set<uint64_t> bad_indices;
    std::vector<std::string> known_lines;
    std::string result_replay;
    Result *fin = new_result();
    uint64_t violations = 0, unreproducible = 0;
    uint64_t minimise_tries = 0;
    (void)resume_from;

    auto worker_main = [&](int w)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (!cpus.empty())
        {
            cpu_set_t one;
            CPU_ZERO(&one);
            CPU_SET(cpus[static_cast<size_t>(w) % cpus.size()], &one);
            sched_setaffinity(0, sizeof one, &one);
        }
        WorkerStat &st = *ws[static_cast<size_t>(w)];
        Result *r = new_result();
        for (uint64_t i = st.runs;; ++i)
        {
            if (sh->stop.load() || now() > tend) break;
            uint64_t index = i * static_cast<uint64_t>(workers) + static_cast<uint64_t>(w);
            Spec s = make_spec(pool, base, index);
            run_one(s, r);
            size_t si = static_cast<size_t>(std::find(pool.begin(), pool.end(), s.sc) - pool.begin());
            ++st.runs;
            if (si < 64) ++st.per_scenario[si];
            if (r->status == ST_DISCARD)
            {
                ++st.discards;
                strncpy(st.last_discard, r->msg, sizeof st.last_discard - 1);
                continue;
            }
            st.ticks += r->ticks;
            st.accesses += r->accesses;
            st.syncops += r->syncops;
            st.switches += r->switches;
            st.preempts += r->preempts;
            st.sim_ns += r->sim_ns;
            st.max_threads = std::max<uint64_t>(st.max_threads, static_cast<uint64_t>(r->max_threads));
            for (int k = 0; k < r->nkinds; ++k)
            {
                int j = 0;
                while (j < st.nkinds && strcmp(st.kinds[j], r->kind_names[k])) ++j;
                if (j == st.nkinds) { if (j >= MAXKIND) continue; strcpy(st.kinds[j], r->kind_names[k]); ++st.nkinds; }
                st.asked[j] += r->fault_asked[k];
                st.fired[j] += r->fault_fired[k];
            }
            for (int k = 0; k < r->nprobes; ++k)
            {
                int j = 0;
                while (j < st.nprobes && strcmp(st.probes[j].name, r->probes[k].name)) ++j;
                if (j == st.nprobes) { if (j >= 256) continue; strcpy(st.probes[j].name, r->probes[k].name); ++st.nprobes; }
                st.probes[j].n += r->probes[k].n;
                ++st.probes[j].runs;
            }
            if (r->nontrivial)
            {
                ++st.nontrivial_runs;
                if (si < 64) ++st.nontriv_per_scenario[si];
                if (st.nhash < HASHES) st.hashes[st.nhash++] = r->hash;
            }
            if (r->status == ST_VIOLATION)
            {
                bool known = false;
                for (auto &f : findings)
                    if (strstr(r->msg, f.match.c_str())) known = true;
                if (known) { ++st.known; continue; }
                if (!bad_indices.count(index))
                {
                    st.has_viol = 1;
                    st.viol_index = index;
                    sh->stop.store(1);
                    break;
                }
            }
            else if ((index % 61) == 7)
            {
                // Determinism sample: the same seed must give exactly the same run.
                uint64_t h = r->hash, t = r->ticks;
                run_one(s, r);
                ++st.det_checked;
                if (r->hash != h || r->ticks != t || r->status != ST_OK) ++st.nondet;
            }
        }
    };

    bool found = false;
    while (!found && now() < tend)
    {
        sh->stop.store(0);
        pids.clear();
        for (int w = 0; w < workers; ++w)
        {
            ws[static_cast<size_t>(w)]->has_viol = 0;
            fflush(stdout);
            pid_t p = fork();
            if (p == 0) { worker_main(w); _exit(0); }
            pids.push_back(p);
        }
        for (pid_t p : pids) while (waitpid(p, nullptr, 0) < 0 && errno == EINTR) {}
        std::vector<uint64_t> idx;
        for (auto *w : ws)
            if (w->has_viol) idx.push_back(w->viol_index);
        std::sort(idx.begin(), idx.end());
        for (uint64_t index : idx)
        {
            ++violations;
            Spec s = make_spec(pool, base, index);
            Result *r = fin;
            run_one(s, r);
            if (r->status != ST_VIOLATION)
            {
                printf("note: run %llu failed once but not when repeated; not reported\n", static_cast<unsigned long long>(index));
                ++unreproducible;
                bad_indices.insert(index);
                continue;
            }
            std::string cls = cls_of(r->msg);
            printf("run %llu (scenario %s, seed %llu) violates %s: %s\n", static_cast<unsigned long long>(index), s.sc->name,
                   static_cast<unsigned long long>(s.seed), prop.c_str(), r->msg);
            fflush(stdout);
            bool is_hang = cls == "hang";
            Spec m = s;
            if (!r->overflow) capture(r, m);
            mkdir(replaydir.c_str(), 0777);
            std::string path = replaydir + "/" + prop + "-" + std::to_string(s.seed) + ".replay";
            Minimiser mz;
            mz.cls = cls;
            mz.deadline = now() + min_seconds;
            mz.par = workers;
            for (int i = 0; i < workers; ++i) mz.res.push_back(new_result());
            if (!r->overflow && !is_hang) mz.minimise(m);
            minimise_tries += mz.tries;
            // Gate: exact reproduction in fresh processes, else fall back to the unminimised run.
            for (int attempt = 0; attempt < 2 && !found; ++attempt)
            {
                Spec &q = attempt == 0 ? m : s;
                run_one(q, r);
                if (r->status != ST_VIOLATION || cls_of(r->msg) != cls) continue;
                save(path, q, r);
                char h[40];
                snprintf(h, sizeof h, "|%016llx", static_cast<unsigned long long>(r->hash));
                std::string want = is_hang ? cls : cls + h;
                std::string a = fresh_replay(path), b = fresh_replay(path);
                if (is_hang) { a = a.substr(0, a.find('|')); b = b.substr(0, b.find('|')); }
                if (a == want && b == want)
                {
                    found = true;
                    result_replay = path;
                    printf("minimised to %zu operations, %zu scheduling decisions, %zu faults: %s\n", q.c.ops.size(), q.sched.size(),
                           q.faults.size(), r->msg);
                }
            }
            if (found) break;
            printf("note: run %llu did not replay identically in a fresh process; not reported\n", static_cast<unsigned long long>(index));
            ++unreproducible;
            bad_indices.insert(index);
        }
        if (idx.empty()) break;
    }
    double wall = now() - t0;

    // ---- evidence ----
    WorkerStat *tot = static_cast<WorkerStat *>(calloc(1, sizeof(WorkerStat)));
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, std::pair<uint64_t, uint64_t>> faults, probes;
    std::string disc;
    for (auto *w : ws)
    {
        tot->runs += w->runs; tot->nontrivial_runs += w->nontrivial_runs; tot->discards += w->discards; tot->ticks += w->ticks;
        tot->accesses += w->accesses; tot->syncops += w->syncops; tot->switches += w->switches; tot->preempts += w->preempts;
        tot->sim_ns += w->sim_ns; tot->nondet += w->nondet; tot->det_checked += w->det_checked; tot->known += w->known;
        tot->max_threads = std::max(tot->max_threads, w->max_threads);
        for (int i = 0; i < 64; ++i) { tot->per_scenario[i] += w->per_scenario[i]; tot->nontriv_per_scenario[i] += w->nontriv_per_scenario[i]; }
        for (int k = 0; k < w->nkinds; ++k) { faults[w->kinds[k]].first += w->asked[k]; faults[w->kinds[k]].second += w->fired[k]; }
        for (int k = 0; k < w->nprobes; ++k) { probes[w->probes[k].name].first += w->probes[k].n; probes[w->probes[k].name].second += w->probes[k].runs; }
        for (size_t i = 0; i < w->nhash; ++i) distinct.insert(w->hashes[i]);
        if (w->last_discard[0]) disc = w->last_discard;
    }
    printf("%llu runs, %llu non-trivial, %zu distinct, %llu discarded%s%s, %llu context switches, %.1f s; determinism sample %llu runs, %llu mismatches\n",
           static_cast<unsigned long long>(tot->runs), static_cast<unsigned long long>(tot->nontrivial_runs), distinct.size(),
           static_cast<unsigned long long>(tot->discards), disc.empty() ? "" : " last: ", disc.c_str(), static_cast<unsigned long long>(tot->switches), wall,
           static_cast<unsigned long long>(tot->det_checked), static_cast<unsigned long long>(tot->nondet));
    for (auto &f : findings)
        if (tot->known) printf("KNOWN-FINDING: property=%s %s (%llu runs)\n", prop.c_str(), f.what.c_str(), static_cast<unsigned long long>(tot->known));
    if (!evidence.empty())
    {
        std::string tmp = evidence + ".tmp";
        std::ofstream o(tmp);
        o << "{\n \"property\": \"" << prop << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n";
        o << " \"coverage\": {\n  \"evaluations\": " << tot->runs << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n";
        std::string rule = "One evaluation is one simulated run of a generated case under one seeded schedule and fault sequence. Runs are distinct when "
                           "the hash over all context switches (step, thread), injected faults and recorded observations differs. ";
        for (auto *s : pool) rule += std::string(s->name) + ": " + s->about + " ";
        o << "  \"rule\": \"" << jesc(rule) << "\",\n";
        o << "  \"samples\": [";
        for (uint64_t i = 0; i < 4; ++i)
        {
            Spec s = make_spec(pool, base, i);
            std::string t = describe(s, false);
            if (t.size() > 1500) t = t.substr(0, 1500) + "...";
            o << (i ? ",\n   " : "\n   ") << "{\"index\": " << i << ", \"scenario\": \"" << s.sc->name << "\", \"seed\": \"" << s.seed << "\", \"schedule_seed\": \""
              << s.sched_seed << "\", \"case\": \"" << jesc(t) << "\"}";
        }
        o << "],\n";
        o << "  \"runs_per_hour\": " << static_cast<uint64_t>(wall > 0 ? static_cast<double>(tot->runs) / wall * 3600 : 0) << ",\n";
        o << "  \"seeds_per_hour\": " << static_cast<uint64_t>(wall > 0 ? static_cast<double>(tot->runs) / wall * 3600 : 0) << ",\n";
        o << "  \"nontrivial_runs\": " << tot->nontrivial_runs << ",\n  \"discarded_runs\": " << tot->discards << ",\n";
        o << "  \"simulated_seconds\": " << static_cast<double>(tot->sim_ns) * 1e-9 << ",\n  \"scheduling_steps\": " << tot->ticks
          << ",\n  \"memory_accesses_checked\": " << tot->accesses << ",\n  \"synchronisation_operations\": " << tot->syncops
          << ",\n  \"context_switches\": " << tot->switches << ",\n  \"preemptions\": " << tot->preempts << ",\n  \"max_threads\": " << tot->max_threads << ",\n";
        o << "  \"runs_per_scenario\": {";
        for (size_t i = 0; i < pool.size() && i < 64; ++i)
            o << (i ? ", " : "") << "\"" << pool[i]->name << "\": {\"runs\": " << tot->per_scenario[i] << ", \"nontrivial\": " << tot->nontriv_per_scenario[i] << "}";
        o << "},\n  \"faults\": {";
        bool first = true;
        for (auto &[k, v] : faults)
        {
            o << (first ? "" : ", ") << "\"" << jesc(k) << "\": {\"opportunities\": " << v.first << ", \"injected\": " << v.second << "}";
            first = false;
        }
        o << "},\n  \"probes\": {";
        first = true;
        for (auto &[k, v] : probes)
        {
            o << (first ? "" : ", ") << "\"" << jesc(k) << "\": {\"hits\": " << v.first << ", \"runs\": " << v.second << "}";
            first = false;
        }
        o << "},\n  \"determinism\": {\"runs_repeated\": " << tot->det_checked << ", \"mismatches\": " << tot->nondet << "},\n";
        o << "  \"minimisation_runs\": " << minimise_tries << ", \"unreproducible\": " << unreproducible << ", \"known_finding_runs\": " << tot->known << ",\n";
        std::set<std::string> real, stub;
        for (auto *s : pool) { real.insert(s->real); stub.insert(s->stub); }
        o << "  \"real_code\": [";
        first = true;
        for (auto &x : real) { o << (first ? "" : ", ") << "\"" << jesc(x) << "\""; first = false; }
        o << "],\n  \"simulated\": [";
        first = true;
        for (auto &x : stub) { o << (first ? "" : ", ") << "\"" << jesc(x) << "\""; first = false; }
        o << "]\n },\n \"assumptions\": [\"Schedules are sequentially consistent interleavings; unordered conflicting accesses are reported by a happens-before race "
             "detector instead of being executed under weak memory.\", \"Seeded sampling, not enumeration: a clean batch is evidence, not proof.\"],\n";
        o << " \"wall_s\": " << wall << ",\n \"violations\": " << (found ? 1 : 0) << "\n}\n";
        o.close();
        rename(tmp.c_str(), evidence.c_str());
    }
    if (found)
    {
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), result_replay.c_str());
        return 1;
    }
    if (unreproducible) { printf("error: %llu violation(s) did not reproduce\n", static_cast<unsigned long long>(unreproducible)); return 2; }
    return 0;
}

// Runs seeds [0, n) of a property and prints one "index hash ticks status" line each (for determinism comparisons).
int hashes(int argc, char **argv)
{
    std::string prop = argv[2];
    uint64_t n = strtoull(argv[3], nullptr, 10);
    uint64_t seed = argc > 4 ? strtoull(argv[4], nullptr, 10) : 1;
    std::vector<const Scenario *> pool;
    std::vector<Scenario> &all = scenarios();
    std::sort(all.begin(), all.end(), [](auto &a, auto &b) { return strcmp(a.name, b.name) < 0; });
    for (auto &s : all)
        if (prop == s.property) pool.push_back(&s);
    if (pool.empty()) return 3;
    uint64_t base = seed;
    for (char ch : prop) base = mix64(base, static_cast<unsigned char>(ch));
    cpu_set_t one;
    CPU_ZERO(&one);
    CPU_SET(static_cast<int>(static_cast<unsigned>(getpid()) % 8), &one);
    sched_setaffinity(0, sizeof one, &one);
    Result *r = new_result();
    for (uint64_t i = 0; i < n; ++i)
    {
        Spec s = make_spec(pool, base, i);
        double t0 = now();
        run_one(s, r);
        double t1 = now();
        printf("%llu %s %016llx %llu %d %s\n", static_cast<unsigned long long>(i), s.sc->name, static_cast<unsigned long long>(r->hash),
               static_cast<unsigned long long>(r->ticks), r->status, r->status == ST_OK ? "" : r->msg);
        if (const char *rt = getenv("SIM_ROUNDTRIP"))
        {
            // The same run from a file in a fresh process.
            char h[40];
            snprintf(h, sizeof h, "|%016llx", static_cast<unsigned long long>(r->hash));
            std::string msg = r->msg;
            int status = r->status;
            uint64_t ticks = r->ticks;
            std::string want = (status == ST_VIOLATION ? cls_of(msg) : "") + h;
            save(rt, s, r);
            std::string got = fresh_replay(rt);
            if (got != want) printf("  ROUNDTRIP DIFFERS %s %s (ticks %llu)\n", want.c_str(), got.c_str(), static_cast<unsigned long long>(ticks));
        }
        if (getenv("SIM_TIMES")) printf("  time %.1f ms\n", (t1 - t0) * 1e3);
    }
    return 0;
}
}  // namespace

// What a scenario group prepares once, before the runs are forked.
extern "C" void scenario_setup() __attribute__((weak));

int main(int argc, char **argv)
{
    // No address randomisation, so that addresses (hash orders, stack contents) are the same in every process.
    if (!getenv("SIM_NO_REEXEC"))
    {
        setenv("SIM_NO_REEXEC", "1", 1);
        int pers = personality(0xffffffff);
        if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(static_cast<unsigned long>(pers) | ADDR_NO_RANDOMIZE) != -1)
            execv(self_exe().c_str(), argv);
    }
    prctl(PR_SET_THP_DISABLE, 1, 0, 0, 0);
    setvbuf(stdout, nullptr, _IOLBF, 0);
    std::string cmd = argc > 1 ? argv[1] : "";
    if (scenario_setup && cmd != "list") scenario_setup();
    if (cmd == "explore") return explore(argc, argv);
    if (cmd == "hashes" && argc > 3) return hashes(argc, argv);
    if (cmd == "list")
    {
        for (auto &s : scenarios()) printf("%s %s %g\n", s.property, s.name, s.weight);
        return 0;
    }
    if ((cmd == "replay" || cmd == "replay-raw" || cmd == "trace") && argc > 2)
    {
        Spec s;
        std::string hash, msg;
        if (!load_spec(argv[2], s, &hash, &msg)) { fprintf(stderr, "cannot read %s\n", argv[2]); return 3; }
        g_verbose = cmd == "trace";
        Result *r = new_result();
        cpu_set_t avail;
        CPU_ZERO(&avail);
        sched_getaffinity(0, sizeof avail, &avail);
        for (int i = 0; i < CPU_SETSIZE; ++i)
            if (CPU_ISSET(i, &avail))
            {
                cpu_set_t one;
                CPU_ZERO(&one);
                CPU_SET(i, &one);
                sched_setaffinity(0, sizeof one, &one);
                break;
            }
        run_one(s, r);
        char h[32];
        snprintf(h, sizeof h, "%016llx", static_cast<unsigned long long>(r->hash));
        if (cmd == "replay-raw")
        {
            printf("%s|%s\n", r->status == ST_VIOLATION ? cls_of(r->msg).c_str() : "", h);
            return 0;
        }
        printf("scenario %s, property %s\n%s", s.sc->name, s.sc->property, describe(s).c_str());
        printf("status %d hash %s (recorded %s) ticks %llu switches %llu threads %d\n%s\n", r->status, h, hash.c_str(),
               static_cast<unsigned long long>(r->ticks), static_cast<unsigned long long>(r->switches), r->max_threads, r->msg);
        for (int i = 0; i < r->npcs; ++i) printf("pc %llx\n", static_cast<unsigned long long>(r->pcs[i]));
        if (r->status == ST_VIOLATION)
        {
            printf("%s\n", hash == h ? "reproduced exactly" : "reproduced (hash differs)");
            return 1;
        }
        return 0;
    }
    fprintf(stderr, "usage: explore|replay FILE|trace FILE|hashes PROP N [SEED]|list\n");
    return 3;
}
