// C25: the same run gives the same bits, whatever the timing.
#include "runs.hh"
#include <cstring>
#include <map>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <cerrno>
using namespace rt;
namespace {
typedef std::vector<char> B;
struct Ref { bool ok = false; B psi; uint64_t its = 0; };
uint64_t its() { uint64_t h = 0; for (auto &k : kspLog()) if (k.rank == 0) h = mix(h, k.its + 1); return h; }
// the run to compare with, in a process of its own, once for each worker
const Ref &reference2(const RunCase &k)
{
    static std::map<std::string, Ref> refs; auto it = refs.find(k.name()); if (it != refs.end()) return it->second;
    Ref &r = refs[k.name()]; RunCase q = k; q.ref = RunCase::NONE; Scenario s = runScenario(q);
    sh->status = ST_RUNNING; sh->msg[0] = 0; sh->nPts = 0; sh->full = 0; sh->blobLen = 0; uint32_t keep = sh->nDev; sh->nDev = 0; bool pr = pruning; pruning = false;
    pid_t p = fork(); if (p < 0) { perror("fork"); _exit(2); }
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = 60; signal(SIGPROF, SIG_DFL); setitimer(ITIMER_PROF, &t, nullptr);
        s.body(); auto &f = files(); auto o = f.find("out.psi"); if (o == f.end() || o->second.size() + 16 > sizeof sh->blob) _exit(1);
        uint64_t h = its(); memcpy(sh->blob, &h, 8); memcpy(sh->blob + 8, o->second.data(), o->second.size()); sh->blobLen = 8 + o->second.size(); _exit(0);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (sh->blobLen >= 8) { r.ok = true; memcpy(&r.its, sh->blob, 8); r.psi.assign(sh->blob + 8, sh->blob + sh->blobLen); }
    sh->blobLen = 0; sh->status = ST_RUNNING; sh->nDev = keep; pruning = pr; return r;
}
Scenario same(RunCase k, RunCase with, const char *what, bool compareIts)
{
    k.ref = with.ref = RunCase::NONE; with.mode = EAGER; with.dev = 0; std::string w = what;
    Scenario s = runScenario(k, [=](const RunCase &) {
        const Ref &r = reference2(with); if (!r.ok) return; auto &f = files(); auto o = f.find("out.psi"); if (o == f.end()) return;
        if (o->second.size() != r.psi.size()) fail(ST_WRONG, "the output has %zu bytes, with %s %zu", o->second.size(), w.c_str(), r.psi.size());
        for (size_t i = 0; i < r.psi.size(); i++) if (o->second[i] != r.psi[i]) {
            size_t q = i / 8 * 8; double a, b; memcpy(&a, &o->second[q], 8); memcpy(&b, &r.psi[q], 8);
            fail(ST_WRONG, "the value at byte %zu of the output is %.17g, with %s it is %.17g", q, a, w.c_str(), b);
        }
        sh->userCount[UC_A] += r.psi.size(); if (compareIts && its() != r.its) fail(ST_WRONG, "the linear solves take other numbers of iterations than with %s", w.c_str());
    });
    s.name = fmt("%s|%s", what, s.name.c_str()); s.prepare = [with] { reference2(with); }; s.expect = Scenario::EITHER; s.cpuLimit = 60; return s;
}
std::vector<Scenario> make()
{
    std::vector<Scenario> v; bool T = g_thorough; int n = 0;
    std::vector<std::string> sweeps = {"OriginalTycho1", "OriginalTycho2", "TraverseGraph", "Schur", "SchurOuter", "SchurKrylov", "PBJ", "PBJOuter", "PBJSI"};
    // one partition, all timings and thread counts
    for (auto &sw : sweeps) for (auto mesh : {"tet3", "fan4", "cube5", "cube6", "box12", "reg10", "box20"}) for (int np = 1; np <= 4; np++) {
        RMesh &m = meshOf(mesh); if (np > m.nc() || (np == 4 && m.nc() < 6)) continue;
        for (int si = 0; si < 2; si++) for (int mode = 0; mode < 3; mode++) for (int thr : {1, 2, 3}) {
            n++; if (np == 1 && thr == 1) continue; if (!T && n % 2 && np > 2) continue;
            RunCase k; k.mesh = mesh; k.np = np; k.thr = thr; k.part.clear(); for (int c = 0; c < m.nc(); c++) k.part.push_back(n % 4 < 2 ? c % np : c * np / m.nc());
            k.sweep = sw; k.mpi = n % 3 ? "TychoTwoSided" : "CapsaicinTwoSided"; k.ng = 1 + n % 2; k.mode = (SendMode)mode; k.si = si; k.iterMax = si ? 3 : 20; k.ddIter = 6; k.errMax = si ? "0.0" : "1e-6"; k.ddErr = "1e-6"; k.maxc = n % 5 ? 100 : 1; k.inter = n % 3; k.intra = n % 5;
            k.t1 = 2; k.s1 = 1.9; k.t2 = 3; k.s2 = 2.5; k.dev = m.nc() > 8 || !T ? 1 : 2; k.cap = T ? 2000 : m.nc() > 8 ? 16 : 40;
            RunCase r = k; r.thr = 1; v.push_back(same(k, r, "one thread and messages that are buffered", true));
        }
    }
    // full sweeps: whatever the partition, the sweep type, the communication mode and the order of work
    for (auto mesh : {"tet2", "tet3", "tet4", "tet5", "fan4"}) for (int np = 2; np <= (T ? 4 : 3); np++) { RMesh &m = meshOf(mesh); if (np > m.nc()) continue;
        for (auto &p : allPartitions(m.nc(), np, true, true)) { n++;
            RunCase k; k.mesh = mesh; k.np = np; k.thr = 1 + n % 3; k.part = p; k.sweep = sweeps[n % 3]; k.mpi = n % 2 ? "TychoTwoSided" : "CapsaicinTwoSided"; k.ng = 1 + n % 2; k.mode = (SendMode)(n % 3); k.iterMax = 3; k.maxc = n % 7 ? 100 : 1; k.inter = n % 3; k.intra = n % 5; k.order = n % 7; k.dev = 1; k.cap = T ? 2000 : 40;
            RunCase r = k; r.np = 1; r.thr = 1; r.part.assign(m.nc(), 0); r.sweep = "TraverseGraph"; r.mpi = "TychoTwoSided"; r.maxc = 100; r.inter = r.intra = 1; v.push_back(same(k, r, "one rank and one thread", false));
        } }
    for (auto mesh : {"cube5", "cube6", "reg5", "reg6", "box10", "box12", "reg10", "reg12", "box20"}) for (int np = 2; np <= 4; np++) for (int x = 0; x < (T ? 24 : 9); x++) { RMesh &m = meshOf(mesh); n++;
        RunCase k; k.mesh = mesh; k.np = np; k.thr = 1 + n % 3; k.part.clear(); for (int c = 0; c < m.nc(); c++) k.part.push_back(x % 3 == 0 ? c * np / m.nc() : x % 3 == 1 ? c % np : (c * (x + 3) / 2) % np);
        k.sweep = sweeps[x % 3]; k.mpi = n % 2 ? "TychoTwoSided" : "CapsaicinTwoSided"; k.ng = 1 + n % 2; k.mode = (SendMode)(n % 3); k.iterMax = 3; k.maxc = n % 7 ? 100 : 1; k.inter = n % 3; k.intra = n % 5; k.order = n % 7; k.dev = 1; k.cap = T ? 1000 : 16; if (n % 4 == 0) k.sn = 4;
        RunCase r = k; r.np = 1; r.thr = 1; r.part.assign(m.nc(), 0); r.sweep = "TraverseGraph"; r.mpi = "TychoTwoSided"; r.maxc = 100; r.inter = r.intra = 1; v.push_back(same(k, r, "one rank and one thread", false));
    }
    // sizes beyond those of the other scenarios
    for (auto &sw : sweeps) for (int i = 0; i < (T ? 24 : 6); i++) {
        RunCase k; n++; bigSize(k, n); if (k.sn > 4) k.sn = 4; k.sweep = sw; k.mpi = n % 3 ? "TychoTwoSided" : "CapsaicinTwoSided"; k.si = n % 3 != 0; k.iterMax = k.si ? 3 : 8; k.ddIter = 4; k.errMax = k.si ? "0.0" : "1e-6"; k.ddErr = "1e-6"; k.maxc = n % 2 ? 1000 : 20; k.inter = n % 3; k.intra = n % 5; k.t1 = 2; k.s1 = 1.9; k.t2 = 3; k.s2 = 2.5; k.dev = T ? 1 : 0; k.cap = 20;
        RunCase r = k; r.thr = 1; v.push_back(same(k, r, "one thread and messages that are buffered", true));
        if (isFull(sw)) { k.si = true; k.errMax = "0.0"; k.iterMax = 3; r = k; r.np = 1; r.thr = 1; r.part.assign(meshOf(k.mesh).nc(), 0); r.sweep = "TraverseGraph"; r.mpi = "TychoTwoSided"; r.maxc = 100; r.inter = r.intra = 1; v.push_back(same(k, r, "one rank and one thread", false)); }
    }
    return v;
}
}
static Check chk{"C25", "reproducible results",
    "runs of the whole program under all schedules, message orders, buffering choices within a deviation bound and with one to three threads, all sweep types and both iterations, compared bit by bit with the run on the same partition with one thread and the default schedule; full sweeps of all partitions, sweep types, communication modes, step limits and priorities compared bit by bit with one rank and one thread", "model_checking", make,
    [](const Totals &t, std::string &x) { x += fmt("\"bytes_compared\": %lu, ", t.user[UC_A]); }, {"the reductions of the MPI library are deterministic"}, 200, 780, {ST_WRONG}};
static Reg reg(&chk);
