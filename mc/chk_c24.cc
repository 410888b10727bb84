// C24: what a run owns does not depend on how many iterations it makes.
#include "runs.hh"
#include <cstring>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <cerrno>
using namespace rt;
namespace {
struct Use { uint64_t ok, peak, live, blocks, files, iterations; };
// one run in a process of its own; false: it did not end normally (other checks)
bool once(const std::function<void()> &body, double limit, Use &u)
{
    sh->status = ST_RUNNING; sh->msg[0] = 0; sh->nPts = 0; sh->full = 0; Use *o = (Use *)sh->blob; memset(o, 0, sizeof *o);
    pid_t p = fork(); if (p < 0) { perror("fork"); _exit(2); }
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = (long)limit + 1; setitimer(ITIMER_PROF, &it, nullptr);
        g_variant = "_m"; memStart(0); body();
        if (getenv("MC_DBG")) fprintf(stderr, "%s\n", memReport(30).c_str());
        if (memStats().unwatched) _exit(0);
        *o = Use{1, memStats().peak, memStats().live, memStats().blocks, filesOpen(), kspLog().size() ? (uint64_t)kspLog()[0].its : 0}; _exit(0);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    u = *o; if (WIFSIGNALED(st) && sh->status == ST_RUNNING) { sh->status = ST_EXIT; snprintf(sh->msg, sizeof sh->msg, "signal %d", WTERMSIG(st)); }
    return u.ok && (sh->status == ST_RUNNING || sh->status == ST_OK);
}
Scenario grows(const std::string &what, RunCase few, RunCase many, int more)
{
    few.ref = many.ref = RunCase::NONE; Scenario a = runScenario(few), b = runScenario(many), s; s.name = what + "/" + few.name(); s.maxDev = 0; s.maxExec = 1; s.expect = Scenario::EITHER; s.cpuLimit = 120;
    auto fa = a.body, fb = b.body;
    s.body = [=] {
        Use x, y; if (!once(fa, 50, x) || !once(fb, 50, y)) { if (sh->status == ST_RUNNING) sh->status = ST_EXIT; _exit(0); }
        sh->status = ST_RUNNING; countCase(); sh->userCount[UC_A] += x.blocks + y.blocks; sh->userCount[UC_B] += y.iterations;
        uint64_t allowed = few.np * (384 + 32 * (uint64_t)more);
        if (getenv("MC_DBG")) fprintf(stderr, "%s: peak %lu %lu, at the end %lu %lu, blocks %lu %lu\n", s.name.c_str(), x.peak, y.peak, x.live, y.live, x.blocks, y.blocks);
        if (y.blocks < x.blocks) snprintf(sh->note, sizeof sh->note, "fewer objects with more iterations");
        if (y.peak > x.peak + allowed) fail(ST_WRONG, "%d more iterations need %lu bytes more (%lu instead of %lu)", more, y.peak - x.peak, y.peak, x.peak);
        if (y.live > x.live + allowed) fail(ST_WRONG, "%d more iterations leave %lu bytes more that are never released (%lu instead of %lu)", more, y.live - x.live, y.live, x.live);
        if (y.files) fail(ST_WRONG, "%lu files are still open when the program ends", y.files);
        sh->status = ST_OK;
    };
    return s;
}
std::vector<Scenario> make()
{
    std::vector<Scenario> v; bool T = g_thorough; int n = 0;
    std::vector<std::string> sweeps = {"OriginalTycho1", "OriginalTycho2", "TraverseGraph", "Schur", "SchurOuter", "SchurKrylov", "PBJ", "PBJOuter", "PBJSI"};
    for (auto &sw : sweeps) for (auto mesh : {"cube6", "reg12", "box20", "fan4"}) for (int np = 1; np <= 4; np++) for (int thr : {1, 2, 4}) {
        RMesh &m = meshOf(mesh); if (np > m.nc()) continue;
        for (int mode = 0; mode < 2; mode++) for (int ng : {1, 3}) for (auto mpi : {"TychoTwoSided", "CapsaicinTwoSided"}) {
            n++; if (!T && n % 3) continue;
            RunCase k; k.mesh = mesh; k.np = np; k.thr = thr; k.part.clear(); for (int c = 0; c < m.nc(); c++) k.part.push_back(n % 2 ? c % np : c * np / m.nc());
            k.sweep = sw; k.mpi = mpi; k.ng = ng; k.mode = mode ? SYNC : EAGER; k.dev = 0; k.errMax = "0.0"; k.ddErr = "0.0"; k.maxc = n % 5 ? 100 : 2; k.s1 = 0.049; k.s2 = 0.1; RunCase l;
            // source iterations, Krylov iterations, domain iterations
            if (mode == 0 || T) { k.si = true; k.iterMax = 3; k.ddIter = 3; l = k; l.iterMax = 35; v.push_back(grows("source", k, l, 32)); }
            if (mode == 1 || T) { k.si = false; k.iterMax = 3; k.ddIter = 3; l = k; l.iterMax = 35; v.push_back(grows("krylov", k, l, 32)); }
            // domain iterations that end because they have converged
            if (!isFull(sw) && (mode == 0) != (n % 2 == 0)) { RunCase c = k; c.ddErr = n / 3 % 2 ? "0.5" : "1e-3"; c.ddIter = 20; c.si = n % 4 < 2; c.iterMax = 3; l = c; l.iterMax = 35; v.push_back(grows("converged", c, l, 32)); }
            if (!isFull(sw)) { k.si = true; k.iterMax = 2; k.ddIter = 3; l = k; l.ddIter = 35; v.push_back(grows("domain", k, l, 32)); }
        }
    }
    return v;
}
}
static Check chk{"C24", "bounded memory",
    "pairs of runs of the whole program that differ in the number of iterations only (source, Krylov, domain), all sweep types, one to four ranks, one to four threads, groups, both communication modes; memory owned by the program at its peak and at its end compared, files left open", "exploration", make,
    [](const Totals &t, std::string &x) { x += fmt("\"objects_counted\": %lu, ", t.user[UC_A]); },
    {"growth below 32 bytes for each rank and iteration (and 384 bytes in all) is allowed", "what libraries own is not counted, except PETSc's vectors, matrices and solvers", "one schedule per case"}, 300, 780, {ST_WRONG}};
static Reg reg(&chk);
