#include "explore.hh"
#include <cstdio>
#include <exception>
#include <cstring>
#include <cstdlib>
#include <ctime>
#include <cerrno>
#include <deque>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
using namespace rt;

double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
void countCase(bool nt, uint64_t n) { sh->userCount[UC_CASES] += n; if (nt) sh->userCount[UC_NONTRIVIAL] += n; }

struct Res {                       // written by a worker for one scenario
    int done; uint64_t exec, pruned, states, steps, points, outcomes, messages, bytes, collectives, polls, regions, races, accesses, user[8], maxPts, refused;
    int devDone, exhaustive, nFound, odd; int fStatus; char fMsg[3000]; uint32_t nDev; Dev dev[MAXDEV]; char sample[600]; int deadline;
};
struct Ctl { volatile int next; volatile int stop; volatile int found; volatile int hang; volatile uint64_t other; };
std::vector<int> g_only;
static Ctl *theCtl = nullptr;
static const int ENOUGH = 40;      // violating scenarios after which the rest is skipped

static void *shm(size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return p; }

static volatile pid_t theChild = 0;
// run one execution; returns final status
static int execute(const Scenario &s, const Dev *dev, uint32_t nDev, double limit, bool trace = false)
{
    sh->status = ST_RUNNING; sh->msg[0] = 0; sh->nPts = 0; sh->full = 0; sh->nDev = nDev; if (nDev) memcpy(sh->dev, dev, nDev * sizeof(Dev));
    sh->steps = sh->accesses = sh->messages = sh->bytes = sh->collectives = sh->polls = sh->regions = sh->races_checked = sh->outcomeHash = sh->states = 0;
    memset(sh->userCount, 0, sizeof sh->userCount); sh->note[0] = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = (long)limit; it.it_value.tv_usec = (long)((limit - (long)limit) * 1e6);
        signal(SIGPROF, SIG_DFL); setitimer(ITIMER_PROF, &it, nullptr);
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        rt::verbose = trace;
        std::set_terminate([] { rt::fail(ST_ABORT, "uncaught exception on rank %d", curRank()); });
        s.body();
        if (sh->status == ST_RUNNING) sh->status = ST_OK;
        _exit(0);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) {
        if (WTERMSIG(st) == SIGPROF) { sh->status = ST_HANG; snprintf(sh->msg, sizeof sh->msg, "execution used more than %.0f s of processor time%s", limit, sh->note[0] ? sh->note : ""); }
        else if (WTERMSIG(st) == SIGKILL) { fprintf(stderr, "child killed (memory?) in %s\n", s.name.c_str()); sh->status = ST_TOOLONG; snprintf(sh->msg, sizeof sh->msg, "execution was killed"); }
        else { sh->status = WTERMSIG(st) == SIGABRT ? ST_ABORT : ST_CRASH; snprintf(sh->msg, sizeof sh->msg, "signal %d (%s) %s", WTERMSIG(st), strsignal(WTERMSIG(st)), sh->note); }
    } else if (sh->status == ST_RUNNING) { sh->status = ST_EXIT; snprintf(sh->msg, sizeof sh->msg, "process exited with %d", WEXITSTATUS(st)); }
    return sh->status;
}
// 0 fine, 1 violation, 2 machinery problem
static int judge(const Scenario &s, int st)
{
    switch (st) {
    case ST_PRUNED: return 0;
    case ST_DIVERGED: case ST_TOOLONG: return 2;
    default: break;
    }
    if (!g_only.empty() && std::find(g_only.begin(), g_only.end(), st) == g_only.end()) { if (st != ST_OK && theCtl) __sync_fetch_and_add(&theCtl->other, 1); return 0; }
    switch (st) {
    case ST_WRONG: return 1;
    case ST_OK: if (s.expect == Scenario::REFUSES) { snprintf(sh->msg, sizeof sh->msg, "was accepted, but must be refused. %s", sh->note); return 1; } return 0;
    case ST_ABORT: case ST_EXIT: return s.expect == Scenario::RUNS ? 1 : 0;
    default: return 1;
    }
}
static int executeJudged(const Scenario &s, const Dev *d, uint32_t n)
{
    bool seen = theCtl && theCtl->hang;
    int st = execute(s, d, n, seen ? std::min(s.cpuLimit, 5.0) : s.cpuLimit);
    if (st == ST_HANG && !seen) { st = execute(s, d, n, s.cpuLimit * 4); if (st == ST_HANG && theCtl) theCtl->hang = 1; }
    return st;
}

static void worker(const std::vector<Scenario> &scn, Ctl *ctl, Res *res, double deadline)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    sh = (Shared *)shm(sizeof(Shared));
    const uint64_t cap = 1 << 20;
    visited = (Visited *)shm(sizeof(Visited) + cap * 8);
    visited->cap = cap;
    for (;;) {
        int i = __sync_fetch_and_add(&ctl->next, 1);
        if (i >= (int)scn.size() || ctl->stop) break;
        const Scenario &s = scn[i]; Res &r = res[i];
        if (now() > deadline) { r.deadline = 1; continue; }
        bool prune = s.prune && s.maxDev > 0;
        if (s.prepare) s.prepare();
        if (visited->used) memset((void *)visited->slot, 0, cap * 8);
        visited->used = 0;
        struct Node { std::vector<Dev> d; };
        std::vector<std::deque<Node>> q(s.maxDev + 2);
        q[0].push_back(Node());
        std::unordered_set<uint64_t> outcomes;
        bool capped = false, cut = false; int lvl;
        // the default execution twice: everything nondeterministic must be under control; if it is not, only default executions are judged
        int maxDev = s.maxDev;
        if (s.maxDev > 0) {
            rt::pruning = false; int st0 = executeJudged(s, nullptr, 0); uint64_t h = sh->outcomeHash; uint32_t np = sh->nPts; uint64_t s0 = np ? sh->pts[np - 1].state : 0;
            if (st0 == ST_OK || st0 == ST_PRUNED) {
                executeJudged(s, nullptr, 0);
                if (h != sh->outcomeHash || np != sh->nPts || st0 != sh->status || s0 != (np ? sh->pts[np - 1].state : 0)) { r.odd++; maxDev = 0; prune = false; }
            }
        }
        rt::pruning = prune;
        for (lvl = 0; lvl <= maxDev && !capped && !r.nFound; lvl++) {
            while (!q[lvl].empty()) {
                if (r.exec >= s.maxExec) { capped = true; break; }
                if ((r.exec & 15) == 0 && now() > deadline) { capped = true; r.deadline = 1; break; }
                Node n = std::move(q[lvl].front()); q[lvl].pop_front();
                int st = executeJudged(s, n.d.data(), n.d.size());
                if (st == ST_PRUNED && n.d.empty()) { r.odd++; rt::pruning = prune = false; st = executeJudged(s, n.d.data(), n.d.size()); }   // a default execution meets no state twice
                r.exec++; r.steps += sh->steps; r.points += sh->nPts; r.messages += sh->messages; r.bytes += sh->bytes; r.collectives += sh->collectives; r.polls += sh->polls; r.regions += sh->regions; r.races += sh->races_checked; r.accesses += sh->accesses; r.states += sh->states;
                for (int k = 0; k < 8; k++) r.user[k] += sh->userCount[k];
                if (st == ST_PRUNED) r.pruned++; else outcomes.insert(sh->outcomeHash);
                if ((st == ST_ABORT || st == ST_EXIT) && s.expect != Scenario::RUNS) r.refused++;
                r.maxPts = std::max<uint64_t>(r.maxPts, sh->nPts);
                if (!r.sample[0]) { int k = snprintf(r.sample, sizeof r.sample, "%s: %s, %u choice points", s.name.c_str(), statusName(st), sh->nPts); if (sh->note[0] && k > 0 && k < 400) snprintf(r.sample + k, sizeof r.sample - k, "; %s", sh->note); }
                int j = judge(s, st);
                if (j == 2 && !n.d.empty()) { r.odd++; cut = true; continue; }
                if (j) {
                    // confirm by an exact replay, without pruning
                    Res keep; keep.fStatus = st; snprintf(keep.fMsg, sizeof keep.fMsg, "%s", sh->msg);
                    rt::pruning = false; int st2 = st == ST_HANG ? st : executeJudged(s, n.d.data(), n.d.size()); judge(s, st2); rt::pruning = prune;
                    if (j == 1 && st2 != st && !(judge(s, st2) == 1)) { j = 2; snprintf(keep.fMsg, sizeof keep.fMsg, "not reproducible: %s then %s", statusName(st), statusName(st2)); }
                    r.nFound = j; r.fStatus = keep.fStatus; snprintf(r.fMsg, sizeof r.fMsg, "%s", keep.fMsg); r.nDev = n.d.size(); std::copy(n.d.begin(), n.d.end(), r.dev);
                    if (j == 1 && __sync_add_and_fetch(&ctl->found, 1) >= ENOUGH) ctl->stop = 1;
                    break;
                }
                uint32_t from = n.d.empty() ? 0 : n.d.back().pos + 1;
                if ((lvl == maxDev && sh->nPts > from) || sh->full) cut = true;
                if (lvl < maxDev && n.d.size() < MAXDEV) {
                    for (uint32_t k = from; k < sh->nPts; k++)
                        for (int c = 1; c < sh->pts[k].n; c++) { Node m; m.d = n.d; m.d.push_back(Dev{k, (uint16_t)c, sh->pts[k].n}); q[lvl + 1].push_back(std::move(m)); }
                }
            }
            if (!capped && !r.nFound) r.devDone = lvl;
        }
        r.exhaustive = !capped && !r.nFound && !cut;      // nothing was left out, by caps or by the bound
        r.outcomes = outcomes.size(); r.done = 1;
    }
    _exit(0);
}

void explore(const std::vector<Scenario> &scn, double deadlineSec, Totals &t, std::vector<Finding> &found)
{
    double dl = now() + deadlineSec;
    Ctl *ctl = theCtl = (Ctl *)shm(sizeof(Ctl)); Res *res = (Res *)shm(sizeof(Res) * scn.size());
    int nw = sysconf(_SC_NPROCESSORS_ONLN); if (nw > 8) nw = 8; if (nw < 1) nw = 1; if (nw > (int)scn.size()) nw = scn.size();
    if (const char *e = getenv("MC_WORKERS")) nw = atoi(e);
    fflush(stdout); fflush(stderr);
    std::vector<pid_t> ws;
    for (int i = 0; i < nw; i++) { pid_t p = fork(); if (p == 0) worker(scn, ctl, res, dl); ws.push_back(p); }
    for (size_t done = 0; done < ws.size();) {
        int st; pid_t p = waitpid(-1, &st, 0); if (p < 0 && errno != EINTR) break;
        if (p > 0) { done++; if (!WIFEXITED(st) || WEXITSTATUS(st)) { Finding f; f.scenario = "(worker)"; f.status = "machinery"; f.msg = "a worker process ended abnormally"; found.push_back(f); } }
    }
    t.other = ctl->other;
    for (size_t i = 0; i < scn.size(); i++) {
        Res &r = res[i]; t.scenarios++;
        if (r.deadline) { t.deadline = true; if (t.skipped.size() < 50) t.skipped.push_back(scn[i].name); }
        t.odd += r.odd;
        if (!r.done) continue;
        t.scenariosDone++; t.exec += r.exec; t.pruned += r.pruned; t.states += r.states; t.steps += r.steps; t.points += r.points; t.outcomes += r.outcomes; t.messages += r.messages; t.bytes += r.bytes; t.collectives += r.collectives; t.polls += r.polls; t.regions += r.regions; t.racesChecked += r.races; t.accesses += r.accesses; t.refused += r.refused; t.maxPts = std::max(t.maxPts, r.maxPts);
        for (int k = 0; k < 8; k++) t.user[k] += r.user[k];
        t.exhaustive += r.exhaustive; if (r.devDone < 8) t.doneAt[r.devDone]++; t.maxDev = std::max(t.maxDev, r.devDone);
        if (r.sample[0] && (t.samples.size() < 6 || (i % (scn.size() / 6 + 1) == 0 && t.samples.size() < 14))) t.samples.push_back(r.sample);
        if (r.nFound) { Finding f; f.scenario = scn[i].name; f.status = r.nFound == 2 ? std::string("machinery") : statusName(r.fStatus); f.msg = r.fMsg; f.dev.assign(r.dev, r.dev + r.nDev); found.push_back(f); }
    }
}

int replayOne(const Scenario &s, const std::vector<Dev> &dev, std::string &msg)
{
    sh = (Shared *)shm(sizeof(Shared)); rt::pruning = false;
    if (s.prepare) s.prepare();
    int st = execute(s, dev.data(), dev.size(), s.cpuLimit * 6, getenv("MC_TRACE") != nullptr);
    int j = judge(s, st); msg = std::string(statusName(st)) + ": " + sh->msg; return j;
}
