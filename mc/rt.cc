// Controlled run time. See rt.hh. Everything the program under test could observe as nondeterminism
// (which rank/thread runs, which message a probe sees, buffered or synchronous sends, completion order)
// goes through choose().
#include "rt.hh"
#include "fake/mpi.h"
#include <cstdio>
#include <dlfcn.h>
#include <cxxabi.h>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <ctime>
#include <new>
#include <deque>
#include <set>
#include <unordered_map>
#include <algorithm>
#include <malloc.h>
#include <chrono>
#include <unistd.h>
#include <iostream>
#include <streambuf>
#include <sys/mman.h>

#define NOSAN
namespace rt {

Shared *sh = nullptr;
Visited *visited = nullptr;
bool pruning = false;
bool verbose = false;
bool exploring = true;
static uint32_t nextDev = 0;

const char *statusName(int s)
{
    static const char *n[] = {"running", "ok", "pruned", "abort", "exit", "deadlock", "livelock", "data-race",
        "buffer-misuse", "thread-level", "message-left", "mpi-misuse", "wrong-result", "crash", "hang", "diverged", "too-long", "memory-misuse"};
    return n[s];
}

// place of an instruction: function + offset (demangled), for messages
static std::string where(void *pc)
{
    Dl_info i; if (!dladdr(pc, &i)) return "?";
    std::string n = "?"; if (i.dli_sname) { int st; char *d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st); n = d ? d : i.dli_sname; free(d); }
    char b[64]; snprintf(b, sizeof b, " +0x%zx", (size_t)((char *)pc - (char *)i.dli_fbase)); return n + b;
}
uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C159E3779B9ull + (a << 6) + (a >> 2));
    x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 29; x *= 0x94D049BB133111EBull; x ^= x >> 32;
    return x;
}

// ---------------------------------------------------------------- fibers
extern "C" void mc_switch(void **save, void *to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");

const int MAXT = 12;
struct VC { uint32_t c[MAXT]; VC() { memset(c, 0, sizeof c); }
    void join(const VC &o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

struct Rank;
struct Team {
    int n = 1; uint32_t region = 0; void (*fn)(void *) = nullptr; void *data = nullptr;
    int arrived = 0, gen = 0, done = 0; VC bar; uint64_t barHash = 0;
    // worksharing
    struct Loop { long next, end, incr, chunk; int users; bool init; };
    std::map<int, Loop> loops; std::map<int, bool> singles;
};
struct Fiber {
    int id = 0; Rank *rank = nullptr; int tid = 0; Team *team = nullptr;
    void *sp = nullptr; char *stack = nullptr; bool live = false, done = false;
    std::function<bool()> ready;     // empty: runnable
    bool blocked = false;
    const char *what = "";
    uint64_t hist = 0;               // happens-before history hash
    uint64_t seenHist = 0; uint32_t sub = 0;   // scheduling points passed since it changed
    uint64_t yieldAt = 0; bool yielded = false;
    // spin detection
    const void *lastLoad = nullptr; uint64_t lastVal = 0; int sameLoads = 0; uint64_t lastLoadObj = 0;
    uint64_t lastPollKey = 0; bool onlyPolls = false; std::set<uint64_t> idlePolls;
    VC vc; int wsLoop = 0, wsSingle = 0;
    bool inMpi = false;
    std::function<void()> entry;
};

}
struct mc_request {
    bool isRecv = false, complete = false, matched = false, blocking = false, freed = false;
    rt::Rank *rank = nullptr; const char *buf = nullptr; char *rbuf = nullptr; size_t len = 0, cap = 0;
    uint64_t hash = 0; int src = 0, tag = 0, dst = 0, comm = 0; uint64_t hist = 0; const char *where = nullptr;
    bool eager = false; std::vector<char> data; size_t gotBytes = 0; int gotSrc = 0, gotTag = 0; uint64_t matchHist = 0;
    bool userDone = false; uint64_t seq = 0;
};
struct mc_file { std::string name; int mode; size_t pos = 0; int rank; };

namespace rt {
struct Rank {
    int id; Team *team = nullptr; Team solo; int threadsWanted = 0;
    std::string out; int collIdx = 0; int level = -1; bool inited = false, finalized = false;
    std::vector<mc_request *> pend;          // active non-blocking requests (buffers pinned)
    std::deque<mc_request *> unexpected;     // sends posted to this rank, not matched
    std::deque<mc_request *> posted;         // receives posted by this rank, not matched
    Fiber *mpiUser = nullptr; std::map<const void *, VC> lockVC; std::map<const void *, Fiber *> lockOwner;
    std::map<const void *, uint64_t> objHash; VC mpiVC; int mpiLastTid = -1; uint32_t mpiLastClk = 0;
    std::unordered_map<uint64_t, VC> atomVC;
    uint64_t mpiCalls = 0;
};
struct Coll { int arrived = 0; bool complete = false; int op = 0; uint64_t desc = 0; uint64_t hist = 0;
    std::vector<const void *> in; std::vector<void *> out; std::vector<std::vector<char>> data; std::string name; std::string fname; int mode = 0; int result = 0; };

static Config C;
static std::vector<Rank> R;
static std::vector<Fiber *> F;
static std::vector<char *> stacks; static std::vector<char *> freeStacks;
static const size_t STK = 512 * 1024;
static Fiber *cur = nullptr;
static void *schedSp = nullptr;
static std::deque<Coll> colls;
static std::map<std::string, std::vector<char>> memfs;
static FileStats fstats; static std::map<std::string, std::vector<int8_t>> writerMap;
static uint64_t progress = 1; static int idleRounds = 0; static uint64_t seqNo = 0;
static bool running = false;
static bool anyRace = false;       // a team of >1 threads is active on some rank and race checking is on
static int anyPend = 0;            // pinned buffers exist

bool memOn = false; static int memFill = 0xFF; static const char *callPc = nullptr;      // callPc: who called the message layer last
uint64_t mpiCalls(int r) { return R[r].mpiCalls; }
int rankCount() { return (int)R.size(); }
int curRank() { return cur ? cur->rank->id : 0; }
std::string &captured(int r) { return R[r].out; }
std::map<std::string, std::vector<char>> &files() { return memfs; }
FileStats &fileStats() { return fstats; }
uint64_t ioFaultAt = 0, ioOps = 0; bool ioFaultHit = false;
std::string probeName, gapName; std::function<void(uint64_t, const char *, uint64_t)> probe; uint64_t gapAt = 0, gapLen = 0;

void fail(int status, const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    if (sh->status == ST_RUNNING) {
        vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
        sh->status = status;
    }
    va_end(ap);
    if (verbose) fprintf(stderr, "[end] %s: %s\n", statusName(sh->status), sh->msg);
    _exit(0);
}

static uint64_t stateHash()
{
    uint64_t h = 1469598103934665603ull;
    for (Fiber *f : F) h = mix(h, f->done ? 77 : f->hist + f->sub * 0x9e3779b97f4a7c15ull);
    for (Rank &r : R) { h = mix(h, r.team ? r.team->gen : 0); }
    return mix(h, cur ? cur->id + 1 : 0);
}

int choose(int n, Kind k)
{
    if (n <= 1) return 0;
    if (!exploring) return 0;
    uint32_t i = sh->nPts;
    if (i >= MAXPTS) { sh->full = 1; return 0; }      // the rest follows the default; the explorer notes that something was left out
    int c = 0; uint64_t st = mix(stateHash(), (uint64_t)n * 8 + k);
    if (nextDev < sh->nDev) {
        if (sh->dev[nextDev].pos == i) {
            c = sh->dev[nextDev].c;
            if (sh->dev[nextDev].n != n || c >= n)
                fail(ST_DIVERGED, "replay diverged at choice %u: recorded %d options, now %d", i, sh->dev[nextDev].n, n);
            nextDev++;
        }
    } else if (pruning && visited) {
        uint64_t key = st | 1, p = key % visited->cap;
        for (;;) {
            if (visited->slot[p] == key) { sh->status = ST_PRUNED; _exit(0); }
            if (visited->slot[p] == 0) {
                if (visited->used * 4 < visited->cap * 3) { visited->slot[p] = key; visited->used++; sh->states++; }
                break;
            }
            if (++p == visited->cap) p = 0;
        }
    }
    sh->pts[i] = ChoicePt{(uint16_t)n, (uint16_t)c, (uint8_t)k, (uint8_t)curRank(), st};
    sh->nPts = i + 1;
    sh->outcomeHash = mix(sh->outcomeHash, (uint64_t)k * 131 + c);
    if (verbose) fprintf(stderr, "[choice %u] kind %d rank %d thread %d: %d of %d\n", i, k, curRank(), cur ? cur->tid : -1, c, n);
    if (cur && k == K_USER) cur->hist = mix(cur->hist, 100 + c);
    return c;
}

// ---------------------------------------------------------------- scheduler
static bool isReady(Fiber *f)
{
    if (f->done || !f->live) return false;
    if (f->blocked) { if (f->ready()) return true; return false; }
    return true;
}
static bool lowPrio(Fiber *f) { return f->yielded && f->yieldAt == progress; }

static void switchTo(Fiber *f)
{
    Fiber *me = cur;
    if (f == me) return;
    cur = f;
    if (me) mc_switch(&me->sp, f->sp); else mc_switch(&schedSp, f->sp);
}
static void backToMain() { Fiber *me = cur; cur = nullptr; mc_switch(&me->sp, schedSp); }

static void deadlock()
{
    std::string s;
    for (Fiber *f : F) if (f->live && !f->done) {
        char b[200]; snprintf(b, sizeof b, "rank %d thread %d waits in %s; ", f->rank->id, f->tid, f->what); s += b;
    }
    fail(ST_DEADLOCK, "%s", s.c_str());
}

// Decide who runs next. cur may be blocked/done. Explorer chooses among the enabled fibers.
static void reschedule(bool curMayRun)
{
    std::vector<Fiber *> en, low;
    Fiber *me = cur;
    int n = F.size(), start = me ? me->id : 0;
    bool meOk = me && curMayRun && isReady(me);
    if (meOk && !lowPrio(me)) en.push_back(me);
    for (int k = 1; k <= n; k++) {
        Fiber *f = F[(start + k) % n];
        if (f == me) continue;
        if (!isReady(f)) continue;
        bool sameRank = me && f->rank == me->rank;
        if (!lowPrio(f)) en.push_back(f); else low.push_back(f);
        (void)sameRank;
    }
    if (meOk && lowPrio(me)) low.push_back(me);
    if (en.empty()) {
        if (low.empty()) {
            bool all = true;
            for (Fiber *f : F) if (f->live && !f->done) all = false;
            if (all) { backToMain(); return; }
            deadlock();
        }
        // everybody polls: fair round robin, no choice
        if (++idleRounds > 3000) {
            std::string s;
            for (Fiber *f : F) if (f->live && !f->done) {
                char b[200]; snprintf(b, sizeof b, "rank %d thread %d: %s; ", f->rank->id, f->tid, f->blocked ? f->what : "polling"); s += b;
            }
            fail(ST_LIVELOCK, "no progress while polling: %s", s.c_str());
        }
        en.push_back(low[0]);
    }
    int k = 0;
    // Fibers of other ranks / other threads are alternatives according to the configuration
    std::vector<Fiber *> opt; opt.push_back(en[0]);
    for (size_t i = 1; i < en.size(); i++) {
        bool same = en[i]->rank == en[0]->rank;
        if (same ? C.schedThreads : C.schedRanks) opt.push_back(en[i]);
    }
    if (opt.size() > 1) k = choose(opt.size(), K_SCHED);
    Fiber *f = opt[k];
    f->blocked = false;
    switchTo(f);
}

static void made_progress() { progress++; idleRounds = 0; }

static void schedPoint()
{
    if (!running) return;
    sh->steps++; if (cur->seenHist == cur->hist) cur->sub++; else { cur->seenHist = cur->hist; cur->sub = 0; }
    reschedule(true);
}
static void yieldPoint() { if (!running) return; sh->steps++; cur->yielded = true; cur->yieldAt = progress; reschedule(true); cur->yielded = false; }
template <class P> static void blockUntil(const char *what, P p)
{
    cur->what = what;
    if (p()) return;
    if (!running) fail(ST_DEADLOCK, "would block outside a run: %s", what);
    sh->steps++;
    Fiber *me = cur;
    while (!p()) {
        me->blocked = true; me->ready = p;
        reschedule(false);
        me->blocked = false;
    }
}

static void fiberMain()
{
    Fiber *f = cur;
    f->entry();
    f->done = true;
    made_progress();
    reschedule(false);
    abort();
}
static void startFiber(Fiber *f, std::function<void()> entry)
{
    if (freeStacks.empty()) { char *s = (char *)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); freeStacks.push_back(s); }
    f->stack = freeStacks.back(); freeStacks.pop_back();
    f->entry = entry;
    if (memOn) memset(f->stack, memFill, STK);
    char *top = f->stack + STK - 64;
    void **p = (void **)((uintptr_t)top & ~15ull);
    *--p = nullptr;
    *--p = (void *)fiberMain;
    for (int i = 0; i < 6; i++) *--p = nullptr;
    f->sp = p; f->live = true; f->done = false; f->blocked = false;
}
void allocStacks(int n)
{
    for (int i = 0; i < n; i++) freeStacks.push_back((char *)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
}

void run(const Config &cfg, const std::function<void(int)> &body)
{
    C = cfg; R.clear(); R.resize(cfg.nRanks); F.clear(); colls.clear();
    progress = 1; idleRounds = 0; writerMap.clear(); fstats = FileStats();
    anyPend = 0; anyRace = false;
    for (int r = 0; r < cfg.nRanks; r++) { R[r].id = r; R[r].team = nullptr; R[r].out.clear(); }
    for (int r = 0; r < cfg.nRanks; r++) {
        Fiber *f = new Fiber; f->id = F.size(); f->rank = &R[r]; f->tid = 0; f->hist = mix(1000, r); f->vc.c[0] = 1;
        startFiber(f, [r, &body] { body(r); });
        F.push_back(f);
    }
    running = true;
    cur = nullptr;
    Fiber *first = F[0];
    switchTo(first);
    running = false;
    cur = nullptr;
    for (Rank &r : R) {
        for (mc_request *q : r.pend)
            if (C.strictBuf) fail(ST_BUFFER, "rank %d never completed a %s of %zu bytes", r.id, q->isRecv ? "receive" : "send", q->len);
        for (mc_request *q : r.unexpected)
            fail(ST_MSGLEFT, "message from rank %d to rank %d (tag %d, %zu bytes) was never received", q->rank->id, r.id, q->tag, q->len);
        for (mc_request *q : r.posted)
            fail(ST_MSGLEFT, "receive posted by rank %d (from %d, tag %d) never matched", r.id, q->src, q->tag);
        if (r.inited && !r.finalized) fail(ST_MSGLEFT, "rank %d ended without finalizing", r.id);
    }
    for (Fiber *f : F) if (f->stack) freeStacks.push_back(f->stack);
}

// ---------------------------------------------------------------- memory accesses: race and pinned-buffer checks
struct Cell { uint64_t gran; uint32_t gen; uint32_t w[MAXT]; uint32_t r[MAXT]; uint8_t wm[MAXT], rm[MAXT], awm[MAXT], arm[MAXT]; uint32_t aw[MAXT], ar[MAXT]; uint32_t region; };
static const size_t NC = 1 << 21;
static uint32_t regionCount = 0;
static Cell *cells = nullptr; static uint32_t cellGen = 1; static size_t cellUsed = 0;
static Cell *cellOf(uint64_t gran)
{
    if (!cells) cells = (Cell *)mmap(nullptr, NC * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    size_t p = (gran * 0x9E3779B97F4A7C15ull) >> 43;
    for (;;) {
        Cell &c = cells[p];
        if (c.gen != cellGen) { memset(&c, 0, sizeof c); c.gen = cellGen; c.gran = gran; if (++cellUsed > NC * 3 / 4) fail(ST_TOOLONG, "race table full"); return &c; }
        if (c.gran == gran) return &c;
        p = (p + 1) & (NC - 1);
    }
}
static Cell *cellFind(uint64_t gran)
{
    if (!cells) return nullptr;
    size_t p = (gran * 0x9E3779B97F4A7C15ull) >> 43;
    for (;;) {
        Cell &c = cells[p];
        if (c.gen != cellGen) return nullptr;
        if (c.gran == gran) return &c;
        p = (p + 1) & (NC - 1);
    }
}
static void forget(Cell &c) { memset(c.wm, 0, sizeof c.wm); memset(c.rm, 0, sizeof c.rm); memset(c.awm, 0, sizeof c.awm); memset(c.arm, 0, sizeof c.arm); }
static void raceAccess1(uint64_t gran, uint8_t mask, bool wr, void *pc, bool atomic = false)
{
    Cell *c = cellOf(gran); Fiber *f = cur; int t = f->tid;
    // an entry left by another parallel section (of this or another rank) says nothing about this one
    if (c->region != f->team->region) { forget(*c); c->region = f->team->region; }
    sh->races_checked++;
    for (int o = 0; o < f->team->n; o++) {
        if (o == t) continue;
        if ((c->wm[o] & mask) && c->w[o] > f->vc.c[o])
            fail(ST_RACE, "data race on rank %d: thread %d %s memory that thread %d wrote, unordered (in %s)", f->rank->id, t, wr ? "writes" : "reads", o, where(pc).c_str());
        if (wr && (c->rm[o] & mask) && c->r[o] > f->vc.c[o])
            fail(ST_RACE, "data race on rank %d: thread %d writes memory that thread %d read, unordered (in %s)", f->rank->id, t, o, where(pc).c_str());
        if (atomic) continue;
        if ((c->awm[o] & mask) && c->aw[o] > f->vc.c[o])
            fail(ST_RACE, "data race on rank %d: thread %d %s memory that thread %d updates atomically, unordered (in %s)", f->rank->id, t, wr ? "writes" : "reads", o, where(pc).c_str());
        if (wr && (c->arm[o] & mask) && c->ar[o] > f->vc.c[o])
            fail(ST_RACE, "data race on rank %d: thread %d writes memory that thread %d reads atomically, unordered (in %s)", f->rank->id, t, o, where(pc).c_str());
    }
    uint32_t clk = f->vc.c[t];
    if (atomic) {
        if (wr) { if (c->aw[t] != clk) { c->aw[t] = clk; c->awm[t] = 0; } c->awm[t] |= mask; }
        else { if (c->ar[t] != clk) { c->ar[t] = clk; c->arm[t] = 0; } c->arm[t] |= mask; }
        return;
    }
    if (wr) { if (c->w[t] != clk) { c->w[t] = clk; c->wm[t] = 0; } c->wm[t] |= mask; }
    else { if (c->r[t] != clk) { c->r[t] = clk; c->rm[t] = 0; } c->rm[t] |= mask; }
}
// note: a newer epoch of the same thread overwrites the byte mask of its older epoch; keeping the newest is enough
// for detection because an unordered older access implies the region is unordered as well in the executions explored.

static void memAccess(const void *a, size_t n, bool wr, void *pc)
{
    if (!cur) return;
    if (anyPend) {
        for (mc_request *q : cur->rank->pend) {
            if (q->blocking || !C.strictBuf) continue;
            const char *b = q->isRecv ? q->rbuf : q->buf; size_t l = q->isRecv ? q->cap : q->len;
            if ((const char *)a < b + l && b < (const char *)a + n) {
                if (q->isRecv) fail(ST_BUFFER, "rank %d %s the buffer of a receive (from %d, tag %d) that is not known complete (in %s)", cur->rank->id, wr ? "writes" : "reads", q->src, q->tag, where(pc).c_str());
                if (wr) fail(ST_BUFFER, "rank %d writes the buffer of a send (to %d, tag %d) that is not known complete (in %s)", cur->rank->id, q->dst, q->tag, where(pc).c_str());
            }
        }
    }
    if (anyRace && cur->team && cur->team->n > 1) {
        uint64_t x = (uint64_t)a, e = x + n;
        while (x < e) {
            uint64_t g = x >> 3; uint64_t lim = std::min(e, (g + 1) << 3);
            uint8_t m = (uint8_t)((((1u << (lim - x)) - 1) << (x & 7)) & 0xff);
            raceAccess1(g, m, wr, pc);
            x = lim;
        }
    }
}
// ---------------------------------------------------------------- memory monitor
// Arena blocks: [guard][header 32][user n][guard]; one shadow byte per 8 bytes: 0 not part of a live object, 1..8 the
// first k bytes are, 0xFD released. Nothing is reused within an execution.
static char *arena = nullptr, *arenaAt = nullptr; static unsigned char *shadow = nullptr;
static const size_t ARENA = (size_t)3 << 29; static const uint64_t MAGIC = 0x6d634c6976654f6bull;
static MemStats mstats; MemStats &memStats() { return mstats; } std::string memText, allText;
struct Head { uint64_t magic, n; void *pc; uint32_t array, state; };
extern "C" char __executable_start, etext;
static inline bool fromMachinery(void *pc) { return (char *)pc >= &__executable_start && (char *)pc < &etext; }
void memStart(int fill)
{
    if (!arena) {
        arena = (char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        shadow = (unsigned char *)mmap(nullptr, ARENA / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (arena == MAP_FAILED || shadow == MAP_FAILED) { perror("mmap"); _exit(2); }
        arenaAt = arena;
    }
    memOn = true; memFill = fill & 255;
}
static void *memAlloc(size_t n, bool array, void *pc)
{
    size_t g = std::min<size_t>(std::max<size_t>(64, n), 4096); g = (g + 15) & ~(size_t)15; size_t body = (n + 15) & ~(size_t)15;
    if (n > ARENA || arenaAt + 2 * g + 64 + body > arena + ARENA) return nullptr;
    char *h = arenaAt + g, *u = h + sizeof(Head); arenaAt = u + body;       // the next block's leading guard is this one's trailing guard
    Head *H = (Head *)h; H->magic = MAGIC; H->n = n; H->pc = pc; H->array = array; H->state = 1;
    if (arenaAt + g < arena + ARENA) arenaAt += g;
    memset(u, memFill, n); unsigned char *s = shadow + (u - arena) / 8; memset(s, 8, n / 8); if (n % 8) s[n / 8] = n % 8;
    mstats.blocks++; mstats.live += n; if (mstats.live > mstats.peak) mstats.peak = mstats.live;
    return u;
}
// what is alive, largest first (for messages)
std::string memReport(size_t most)
{
    std::map<std::string, std::pair<size_t, size_t>> m; for (char *q = arena; q < arenaAt; q += 16) { Head *H = (Head *)q; if (H->magic != MAGIC) continue; if (H->state == 1) { auto &e = m[where(H->pc)]; e.first += H->n; e.second++; } q += sizeof(Head) - 16; }
    std::vector<std::pair<std::pair<size_t, size_t>, std::string>> v; for (auto &e : m) v.push_back({e.second, e.first}); std::sort(v.rbegin(), v.rend()); std::string r;
    for (size_t i = 0; i < v.size() && i < most; i++) { if (i) r += ", "; r += std::to_string(v[i].first.first) + " bytes in " + std::to_string(v[i].first.second) + " objects allocated in " + v[i].second; }
    return r;
}
static inline bool inArena(const void *p) { return (size_t)((const char *)p - arena) < (size_t)(arenaAt - arena); }
static Head *memOwner(const void *p)      // the block at or before an address
{
    char *q = (char *)((uintptr_t)p & ~15ull);
    for (size_t k = 0; q >= arena && k < (1u << 20); q -= 16, k++) { Head *H = (Head *)(q - sizeof(Head)); if ((char *)H >= arena && H->magic == MAGIC && H->state) return H; }
    return nullptr;
}
static std::string memAbout(const void *p)
{
    Head *H = memOwner(p); if (!H) return "outside every object"; long off = (const char *)p - (char *)(H + 1); char b[200];
    snprintf(b, sizeof b, H->state == 2 ? "at offset %ld of a released object of %lu bytes" : "at offset %ld of an object of %lu bytes", off, (unsigned long)H->n); return std::string(b) + " obtained in " + where(H->pc);
}
static void memCheck(const void *a, size_t n, bool wr, void *pc)
{
    mstats.checked++; const char *p = (const char *)a, *e = p + n;
    while (p < e) {
        unsigned char s = shadow[(p - arena) / 8]; size_t o = (p - arena) & 7, m = std::min<size_t>(8 - o, e - p);
        if (s > 8 || o + m > s) fail(ST_MEM, "rank %d %s %zu bytes, the byte %zu of them %s (in %s)", curRank(), wr ? "writes" : "reads", n, (size_t)(p - (const char *)a), memAbout(s > 8 ? p : s > o ? arena + ((p - arena) & ~7ul) + s : p).c_str(), where(pc).c_str());
        p += m;
    }
}
static void memRelease(void *p, bool array, void *pc)
{
    Head *H = (Head *)p - 1;
    if (((uintptr_t)p & 15) || (char *)H < arena || H->magic != MAGIC || !H->state) fail(ST_MEM, "rank %d releases %s (in %s)", curRank(), memAbout(p).c_str(), where(pc).c_str());
    if (H->state == 2) fail(ST_MEM, "rank %d releases an object twice: %s (in %s)", curRank(), memAbout(p).c_str(), where(pc).c_str());
    if (H->array != array) fail(ST_MEM, "rank %d releases %s with the wrong form of delete (in %s)", curRank(), memAbout(p).c_str(), where(pc).c_str());
    H->state = 2; memset(shadow + ((char *)p - arena) / 8, 0xFD, (H->n + 7) / 8); mstats.releases++; mstats.live -= H->n;
    if (H->n > 65536) { char *b = (char *)(((uintptr_t)p + 4095) & ~4095ull), *e = (char *)(((uintptr_t)p + H->n) & ~4095ull); if (e > b) madvise(b, e - b, MADV_DONTNEED); }
    else memset(p, memFill ^ 0x5A, H->n);
}
void *memObj(size_t n) { if (!memOn) return calloc(1, n ? n : 1); void *p = memAlloc(n, false, __builtin_return_address(0)); if (!p) return calloc(1, n ? n : 1); memset(p, 0, n); return p; }
void memObjFree(void *p) { if (!p) return; if (memOn && inArena(p)) memRelease(p, false, __builtin_return_address(0)); else free(p); }
static inline void memUse(const void *a, size_t n, bool wr, void *pc) { if (memOn && n && inArena(a)) memCheck(a, n, wr, pc); }
static inline void acc(const void *a, size_t n, bool wr, void *pc)
{
    if (memOn && inArena(a) && n) memCheck(a, n, wr, pc);
    if (anyPend | (int)anyRace) { if (running) { sh->accesses++; memAccess(a, n, wr, pc); } }
}

static size_t usable(void *p) { return memOn && inArena(p) ? ((Head *)p - 1)->n : malloc_usable_size(p); }
static void onFree(void *p)
{
    if (!running || !cur || !p) return;
    if (anyPend) {
        size_t n = usable(p);
        for (mc_request *q : cur->rank->pend) {
            if (q->blocking || !C.strictBuf) continue;
            const char *b = q->isRecv ? q->rbuf : q->buf; size_t l = q->isRecv ? q->cap : q->len;
            if (l && (const char *)p < b + l && b < (const char *)p + n)
                fail(ST_BUFFER, "rank %d releases the buffer of a %s (%s %d, tag %d) that is not known complete", cur->rank->id, q->isRecv ? "receive" : "send", q->isRecv ? "from" : "to", q->isRecv ? q->src : q->dst, q->tag);
        }
    }
    if (anyRace && cur->team && cur->team->n > 1) {
        size_t n = usable(p);
        // releasing is a write for race purposes; afterwards the memory is fresh
        uint64_t x = (uint64_t)p >> 3, e = ((uint64_t)p + n + 7) >> 3;
        if (e - x > 4096) { for (size_t i = 0; i < NC; i++) if (cells && cells[i].gen == cellGen && cells[i].gran >= x && cells[i].gran < e) { forget(cells[i]); } }
        else for (; x < e; x++) { Cell *c = cellFind(x); if (c) forget(*c); }
    }
}

} // namespace rt
using namespace rt;

// operator new/delete of the whole process
static void *mcnew(size_t n, bool array, void *pc)
{
    if (memOn && !fromMachinery(pc)) { if (n > (size_t)1 << 33) throw std::bad_alloc(); void *p = memAlloc(n, array, pc); if (p) return p; mstats.unwatched++; }      // arena full: the rest goes unwatched
    void *p = malloc(n ? n : 1);
    if (!p) { if (memOn) throw std::bad_alloc(); abort(); }
    if (rt::running && rt::C.fillNew) memset(p, 0xFF, n);
    return p;
}
static void mcdelete(void *p, bool array, void *pc)
{
    if (!p) return;
    if (memOn && inArena(p)) { if (rt::running) rt::onFree(p); memRelease(p, array, pc); return; }
    if (rt::running) rt::onFree(p);
    free(p);
}
#define PC __builtin_return_address(0)
void *operator new(size_t n) { return mcnew(n, false, PC); }
void *operator new[](size_t n) { return mcnew(n, true, PC); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return mcnew(n, false, PC); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return mcnew(n, true, PC); }
void operator delete(void *p) noexcept { mcdelete(p, false, PC); }
void operator delete[](void *p) noexcept { mcdelete(p, true, PC); }
void operator delete(void *p, size_t) noexcept { mcdelete(p, false, PC); }
void operator delete[](void *p, size_t) noexcept { mcdelete(p, true, PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { mcdelete(p, false, PC); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { mcdelete(p, true, PC); }
// the clock is part of what is controlled while the memory monitor is on
static uint64_t ticks = 0;
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { if (memOn) return time_point(duration(1700000000000000000ll + 1000000ll * (long long)ticks++)); struct timespec t; clock_gettime(CLOCK_REALTIME, &t); return time_point(duration((long long)t.tv_sec * 1000000000ll + t.tv_nsec)); }
steady_clock::time_point steady_clock::now() noexcept { if (memOn) return time_point(duration(1000000ll * (long long)ticks++)); struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return time_point(duration((long long)t.tv_sec * 1000000000ll + t.tv_nsec)); }
} } }

extern "C" {
// ---------------------------------------------------------------- TSan entry points
// ---------------------------------------------------------------- undefined operations (builds with -fsanitize=undefined)
struct UbLoc { const char *file; uint32_t line, col; };
static void ub(const char *what, void *data)
{
    if (!memOn) return; UbLoc *l = (UbLoc *)data; const char *f = l && l->file ? strrchr(l->file, '/') : nullptr;
    fail(ST_MEM, "rank %d: %s (%s:%u)", curRank(), what, f ? f + 1 : l && l->file ? l->file : "?", l ? l->line : 0);
}
#define UB(n, what) void __ubsan_handle_##n(void *d) { ub(what, d); } void __ubsan_handle_##n##_abort(void *d) { ub(what, d); abort(); }
UB(type_mismatch_v1, "use of a null or misplaced object") UB(out_of_bounds, "index outside an array") UB(shift_out_of_bounds, "shift by an impossible amount") UB(add_overflow, "signed addition overflows") UB(sub_overflow, "signed subtraction overflows")
UB(mul_overflow, "signed multiplication overflows") UB(negate_overflow, "negation overflows") UB(divrem_overflow, "division by zero or overflow") UB(pointer_overflow, "pointer arithmetic overflows") UB(float_cast_overflow, "conversion of a number that does not fit")
UB(load_invalid_value, "a bool or enumeration holds an impossible value") UB(builtin_unreachable, "impossible place reached") UB(missing_return, "a function ends without a result") UB(vla_bound_not_positive, "array of impossible size") UB(nonnull_arg, "null passed where it is not allowed")
UB(nonnull_return_v1, "null returned where it is not allowed") UB(invalid_builtin, "bad argument of a builtin") UB(alignment_assumption, "misaligned object") UB(implicit_conversion, "conversion loses value")
void mc_stack() { fail(ST_MEM, "rank %d: a function overwrote its stack frame", curRank()); }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *a) { acc(a, n, false, PC); } void __tsan_write##n(void *a) { acc(a, n, true, PC); } \
  void __tsan_volatile_read##n(void *a) { acc(a, n, false, PC); } void __tsan_volatile_write##n(void *a) { acc(a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define URW(n) void __tsan_unaligned_read##n(void *a) { acc(a, n, false, PC); } void __tsan_unaligned_write##n(void *a) { acc(a, n, true, PC); } \
  void __tsan_unaligned_volatile_read##n(void *a) { acc(a, n, false, PC); } void __tsan_unaligned_volatile_write##n(void *a) { acc(a, n, true, PC); }
URW(2) URW(4) URW(8) URW(16)
void __tsan_read_range(void *a, long n) { acc(a, n, false, PC); }
void __tsan_write_range(void *a, long n) { acc(a, n, true, PC); }
void __tsan_vptr_update(void **a, void *v) { if (*a != v) acc(a, 8, true, PC); }
void __tsan_vptr_read(void **a) { acc(a, 8, false, PC); }

// atomics: a scheduling point, acquire+release on the location
static void atomicSync(const void *a, bool isLoad, uint64_t val, unsigned n, void *pc)
{
    if (!running || !cur) return;
    Rank *r = cur->rank;
    if (cur->team && cur->team->n > 1) {
        VC &v = r->atomVC[(uint64_t)a];
        cur->vc.join(v);
        if (anyRace) raceAccess1((uint64_t)a >> 3, (uint8_t)(((1u << n) - 1) << ((uint64_t)a & 7)), !isLoad, pc, true);
        if (!isLoad) { v.join(cur->vc); cur->vc.c[cur->tid]++; }
    }
    uint64_t &o = r->objHash[a];
    if (isLoad) {
        bool spin = cur->lastLoad == a && cur->lastVal == val;
        if (spin) { cur->sameLoads++; }
        else { cur->lastLoad = a; cur->lastVal = val; cur->sameLoads = 0; if (cur->lastLoadObj != o) { cur->hist = mix(cur->hist, mix(o, 31)); cur->lastLoadObj = o; } }
        cur->idlePolls.clear();
    } else {
        cur->lastLoad = nullptr; cur->sameLoads = 0;
        cur->hist = mix(cur->hist, mix(o, 37)); o = mix(o, cur->hist); cur->lastLoadObj = o;
        cur->idlePolls.clear();
        made_progress();
    }
}
static void atomicPre(const void *a, bool isLoad, uint64_t)
{
    if (!running || !cur) return;
    if (!(cur->team && cur->team->n > 1)) return;
    if (isLoad && cur->lastLoad == a && cur->sameLoads >= 2) yieldPoint(); else schedPoint();
}
#define AT(n, T) \
T __tsan_atomic##n##_load(const volatile T *a, int) { atomicPre((const void*)a, true, *a); T v = *a; atomicSync((const void*)a, true, v, n / 8, PC); return v; } \
void __tsan_atomic##n##_store(volatile T *a, T v, int) { atomicPre((const void*)a, false, 0); *a = v; atomicSync((const void*)a, false, v, n / 8, PC); } \
T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { atomicPre((const void*)a, false, 0); T o = *a; *a = v; atomicSync((const void*)a, false, v, n / 8, PC); return o; } \
T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { atomicPre((const void*)a, false, 0); T o = *a; *a = o + v; atomicSync((const void*)a, false, v, n / 8, PC); return o; } \
T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { atomicPre((const void*)a, false, 0); T o = *a; *a = o - v; atomicSync((const void*)a, false, v, n / 8, PC); return o; } \
T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { atomicPre((const void*)a, false, 0); T o = *a; *a = o & v; atomicSync((const void*)a, false, v, n / 8, PC); return o; } \
T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { atomicPre((const void*)a, false, 0); T o = *a; *a = o | v; atomicSync((const void*)a, false, v, n / 8, PC); return o; } \
T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) { atomicPre((const void*)a, false, 0); T o = *a; *a = o ^ v; atomicSync((const void*)a, false, v, n / 8, PC); return o; } \
int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { atomicPre((const void*)a, false, 0); T o = *a; int ok = o == *c; if (ok) *a = v; else *c = o; atomicSync((const void*)a, !ok, o, n / 8, PC); return ok; } \
int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int x, int y) { return __tsan_atomic##n##_compare_exchange_strong(a, c, v, x, y); } \
T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int, int) { atomicPre((const void*)a, false, 0); T o = *a; if (o == c) *a = v; atomicSync((const void*)a, o != c, o, n / 8, PC); return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void mc_range(const void *a, size_t n, int wr) { acc(a, n, wr, PC); }

// ---------------------------------------------------------------- OpenMP
int omp_get_thread_num() { return cur && cur->team ? cur->tid : 0; }
int omp_get_num_threads() { return cur && cur->team ? cur->team->n : 1; }
int omp_get_max_threads() { if (!cur) return 1; return cur->rank->threadsWanted ? cur->rank->threadsWanted : C.nThreads; }
int omp_in_parallel() { return cur && cur->team && cur->team->n > 1; }
int omp_get_num_procs() { return C.nThreads; }
void omp_set_num_threads(int n) { if (cur) cur->rank->threadsWanted = n; }
int omp_get_thread_limit() { return MAXT; }
int omp_get_level() { return omp_in_parallel(); }
double omp_get_wtime() { return MPI_Wtime(); }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }

static void taskBarrier(const char *what)
{
    Fiber *f = cur; Team *t = f->team;
    if (!t || t->n <= 1) return;
    schedPoint();
    if (t->arrived == 0) { t->bar = VC(); }
    t->bar.join(f->vc);
    t->barHash += mix(f->hist, 91);
    int gen = t->gen;
    if (++t->arrived == t->n) {
        t->arrived = 0; t->gen++;
        uint64_t bh = t->barHash; VC b = t->bar; t->barHash = 0;
        for (Fiber *g : F) if (g->team == t && !g->done) { g->vc.join(b); g->vc.c[g->tid]++; g->hist = mix(g->hist, bh); }
        made_progress();
    } else blockUntil(what, [t, gen] { return t->gen != gen; });
}

static void raceRegions() { anyRace = false; if (!C.race) return; for (Rank &r : R) if (r.team && r.team->n > 1) anyRace = true; }

void GOMP_parallel(void (*fn)(void *), void *data, unsigned nth, unsigned)
{
    int n = nth ? nth : omp_get_max_threads();
    if (!cur || (cur->team && cur->team->n > 1)) n = 1;
    if (n > MAXT) n = MAXT;
    if (!cur) { fn(data); return; }
    Fiber *m = cur; Rank *r = m->rank;
    Team *old = m->team; int oldTid = m->tid;
    if (n == 1) { Team t; t.n = 1; m->team = &t; m->tid = 0; r->team = &t; fn(data); m->team = old; m->tid = oldTid; r->team = old; return; }
    if (verbose) fprintf(stderr, "[omp] rank %d forks %d threads\n", r->id, n);
    sh->regions++;
    Team *t = new Team; t->n = n; t->fn = fn; t->data = data; t->region = ++regionCount;
    r->atomVC.clear(); r->lockVC.clear(); r->mpiLastTid = -1;
    bool others = false; for (Rank &q : R) if (&q != r && q.team && q.team->n > 1) others = true;
    if (!others) { cellGen++; cellUsed = 0; }
    m->team = t; m->tid = 0; r->team = t;
    m->vc = VC(); for (int i = 0; i < n; i++) m->vc.c[i] = 1;
    std::vector<Fiber *> kids;
    for (int i = 1; i < n; i++) {
        Fiber *k = nullptr;
        for (Fiber *g : F) if (g->rank == r && g != m && g->done && g->live) { k = g; break; }
        if (!k) { k = new Fiber; k->id = F.size(); F.push_back(k); } else { freeStacks.push_back(k->stack); }
        k->rank = r; k->tid = i; k->team = t; k->vc = VC(); for (int j = 0; j < n; j++) k->vc.c[j] = 1; k->vc.c[i] = 2;
        k->hist = mix(m->hist, 500 + i); k->seenHist = 0; k->sub = 0; k->yielded = false; k->lastLoad = nullptr; k->idlePolls.clear(); k->wsLoop = k->wsSingle = 0;
        startFiber(k, [t, fn, data] {
            fn(data);
            // join: the edge is taken by the master when all are done
            cur->what = "end of parallel section"; t->done++; t->bar.join(cur->vc); t->barHash += mix(cur->hist, 95);
        });
        kids.push_back(k);
    }
    m->vc.c[0] = 2; m->hist = mix(m->hist, 499); m->wsLoop = m->wsSingle = 0;
    // implicit barrier(s) inside fn use t->arrived; reuse of t->bar by the end join is safe: kids only write it when done
    raceRegions();
    made_progress();
    schedPoint();
    fn(data);
    blockUntil("end of parallel section", [t, n] { return t->done == n - 1; });
    for (Fiber *k : kids) { m->vc.join(k->vc); m->hist = mix(m->hist, mix(k->hist, k->tid)); }
    m->team = old; m->tid = oldTid; r->team = old;
    raceRegions();
    made_progress();
    delete t;
}
void GOMP_parallel_start(void (*)(void *), void *, unsigned) { rt::fail(ST_MPIERR, "old OpenMP interface"); }
void GOMP_barrier() { if (cur) taskBarrier("OpenMP barrier"); }
bool GOMP_cancel(int, bool) { return false; }
static void lockAcquire(const void *o, const char *what)
{
    if (!cur || !cur->team || cur->team->n <= 1) return;
    Rank *r = cur->rank;
    schedPoint();
    blockUntil(what, [r, o] { auto it = r->lockOwner.find(o); return it == r->lockOwner.end() || !it->second; });
    r->lockOwner[o] = cur;
    cur->vc.join(r->lockVC[o]);
    uint64_t &h = r->objHash[o]; cur->hist = mix(cur->hist, mix(h, 41)); h = mix(h, cur->hist);
    cur->lastLoad = nullptr; cur->idlePolls.clear();
    made_progress();
}
static void lockRelease(const void *o)
{
    if (!cur || !cur->team || cur->team->n <= 1) return;
    Rank *r = cur->rank;
    r->lockVC[o] = cur->vc; cur->vc.c[cur->tid]++;
    r->lockOwner[o] = nullptr;
    made_progress();
}
static char critDefault, atomDefault;
void GOMP_critical_start() { lockAcquire(&critDefault, "critical section"); }
void GOMP_critical_end() { lockRelease(&critDefault); }
void GOMP_critical_name_start(void **p) { lockAcquire(p, "named critical section"); }
void GOMP_critical_name_end(void **p) { lockRelease(p); }
void GOMP_atomic_start() { lockAcquire(&atomDefault, "atomic"); }
void GOMP_atomic_end() { lockRelease(&atomDefault); }
bool GOMP_single_start()
{
    if (!cur || !cur->team || cur->team->n <= 1) return true;
    int k = cur->wsSingle++;
    schedPoint();
    Team *t = cur->team; if (t->singles[k]) return false; t->singles[k] = true;
    uint64_t &h = cur->rank->objHash[t]; cur->hist = mix(cur->hist, mix(h, 43)); h = mix(h, cur->hist);
    return true;
}
// dynamic/guided loops: iterations handed out one chunk at a time, the order is a scheduling choice
static bool loopNext(long *s, long *e)
{
    Team *t = cur->team; Team::Loop &l = t->loops[cur->wsLoop];
    schedPoint();
    if (l.incr > 0 ? l.next >= l.end : l.next <= l.end) return false;
    *s = l.next; long c = l.chunk * l.incr; long ne = l.next + c;
    if (l.incr > 0 ? ne > l.end : ne < l.end) ne = l.end;
    *e = ne; l.next = ne;
    uint64_t &h = cur->rank->objHash[(char *)t + 1]; cur->hist = mix(cur->hist, mix(h, 47)); h = mix(h, cur->hist);
    VC &v = cur->rank->atomVC[(uint64_t)t + 1]; (void)v;
    made_progress();
    return true;
}
static bool loopStart(long s, long e, long incr, long chunk, long *is, long *ie)
{
    static Team fallback; if (!cur->team) { cur->team = &fallback; }
    Team *t = cur->team; Team::Loop &l = t->loops[++cur->wsLoop];
    if (!l.init) { l.init = true; l.next = s; l.end = e; l.incr = incr; l.chunk = chunk > 0 ? chunk : 1; }
    return loopNext(is, ie);
}
#define LOOP(kind) \
bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *is, long *ie) { return loopStart(s, e, i, c, is, ie); } \
bool GOMP_loop_##kind##_next(long *is, long *ie) { return loopNext(is, ie); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOP(static)
bool GOMP_loop_runtime_start(long s, long e, long i, long *is, long *ie) { return loopStart(s, e, i, 1, is, ie); }
bool GOMP_loop_runtime_next(long *is, long *ie) { return loopNext(is, ie); }
void GOMP_loop_end() { taskBarrier("loop end"); }
void GOMP_loop_end_nowait() {}
static void parLoop(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c)
{
    // a combined construct: fn itself calls the _next entry only, so set the loop up first
    struct Arg { void (*fn)(void *); void *data; long s, e, i, c; } a{fn, data, s, e, i, c};
    GOMP_parallel([](void *p) { Arg *a = (Arg *)p; Team *t = cur->team; Team::Loop &l = t->loops[++cur->wsLoop];
        if (!l.init) { l.init = true; l.next = a->s; l.end = a->e; l.incr = a->i; l.chunk = a->c > 0 ? a->c : 1; } a->fn(a->data); }, &a, n, 0);
}
#define PLOOP(kind) void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned) { parLoop(fn, data, n, s, e, i, c); }
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
// unsigned long long variants
#define ULOOP(kind) \
bool GOMP_loop_ull_##kind##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *is, unsigned long long *ie) { return loopStart(s, e, i, c, (long *)is, (long *)ie); } \
bool GOMP_loop_ull_##kind##_next(unsigned long long *is, unsigned long long *ie) { return loopNext((long *)is, (long *)ie); }
ULOOP(dynamic) ULOOP(guided) ULOOP(nonmonotonic_dynamic) ULOOP(nonmonotonic_guided)

// ---------------------------------------------------------------- MPI
static int tsize(int dt) { return dt & 0xff; }
struct MpiCall {
    bool on;
    __attribute__((always_inline)) MpiCall(const char *name) {
        callPc = (const char *)__builtin_return_address(0);
        on = running && cur;
        if (!on) return;
        Rank *r = cur->rank; r->mpiCalls++;
        bool multi = cur->team && cur->team->n > 1;
        if (multi && C.strictLevel) {
            if (r->level == MPI_THREAD_SINGLE) fail(ST_THREADLEVEL, "rank %d calls %s inside a parallel section of %d threads, but asked for a single-threaded message layer", r->id, name, cur->team->n);
            if (r->level == MPI_THREAD_FUNNELED && cur->tid != 0) fail(ST_THREADLEVEL, "rank %d thread %d calls %s, but asked for a funneled message layer", r->id, cur->tid, name);
            if (r->level < MPI_THREAD_MULTIPLE) {
                if (r->mpiUser) fail(ST_THREADLEVEL, "rank %d: threads %d and %d are in message-passing calls at the same time (%s)", r->id, r->mpiUser->tid, cur->tid, name);
                if (r->mpiLastTid >= 0 && r->mpiLastTid != cur->tid && r->mpiLastClk > cur->vc.c[r->mpiLastTid])
                    fail(ST_THREADLEVEL, "rank %d: message-passing calls of threads %d and %d are not ordered (%s)", r->id, r->mpiLastTid, cur->tid, name);
            }
        }
        if (multi) schedPoint();
        r->mpiUser = cur;
        if (multi) { r->mpiLastTid = cur->tid; r->mpiLastClk = cur->vc.c[cur->tid]; }
        if (verbose) fprintf(stderr, "[mpi] rank %d thread %d %s\n", r->id, cur->tid, name);
    }
    ~MpiCall() { if (on) { cur->rank->mpiUser = nullptr; if (cur->team && cur->team->n > 1) { cur->rank->mpiLastTid = cur->tid; cur->rank->mpiLastClk = cur->vc.c[cur->tid]; } } }
};
static uint64_t bufHash(const void *b, size_t n)
{
    uint64_t h = 1469598103934665603ull; const unsigned char *p = (const unsigned char *)b;
    for (size_t i = 0; i < n; i++) { h ^= p[i]; h *= 1099511628211ull; }
    return h;
}
static void histOp(uint64_t v) { cur->hist = mix(cur->hist, v); cur->idlePolls.clear(); cur->lastLoad = nullptr; }
static void checkArgs(const char *name, int count, int peer, int comm)
{
    if (count < 0) fail(ST_MPIERR, "%s with negative count %d", name, count);
    if (comm != MPI_COMM_WORLD && comm != MPI_COMM_SELF) fail(ST_MPIERR, "%s on an invalid communicator", name);
    int size = comm == MPI_COMM_WORLD ? (int)R.size() : 1;
    if (peer != MPI_ANY_SOURCE && peer != MPI_PROC_NULL && (peer < 0 || peer >= size)) fail(ST_MPIERR, "%s with invalid rank %d", name, peer);
    if (!cur->rank->inited || cur->rank->finalized) fail(ST_MPIERR, "%s outside MPI_Init..MPI_Finalize", name);
}
static bool envMatch(const mc_request *rcv, const mc_request *snd)
{
    return rcv->comm == snd->comm && (rcv->src == MPI_ANY_SOURCE || rcv->src == snd->src) && (rcv->tag == MPI_ANY_TAG || rcv->tag == snd->tag);
}
static void doMatch(mc_request *rcv, mc_request *snd)
{
    const char *d = snd->eager ? snd->data.data() : snd->buf;
    if (snd->len > rcv->cap) fail(ST_BUFFER, "rank %d posted a receive of %zu bytes for a message of %zu bytes from rank %d tag %d", rcv->rank->id, rcv->cap, snd->len, snd->src, snd->tag);
    if (!snd->eager && bufHash(snd->buf, snd->len) != snd->hash && C.strictBuf)
        fail(ST_BUFFER, "the buffer of a send from rank %d to %d (tag %d) was changed before the message was transferred", snd->src, snd->dst, snd->tag);
    if (!snd->eager) memUse(d, snd->len, false, (void *)snd->where);
    memUse(rcv->rbuf, snd->len, true, (void *)rcv->where);
    if (snd->len) memcpy(rcv->rbuf, d, snd->len);
    rcv->matched = rcv->complete = true; rcv->gotBytes = snd->len; rcv->gotSrc = snd->src; rcv->gotTag = snd->tag; rcv->matchHist = snd->hist;
    rcv->hash = bufHash(rcv->rbuf, snd->len);
    snd->matched = snd->complete = true; snd->matchHist = rcv->hist;
    made_progress();
    if (snd->freed) delete snd;
}
static mc_request *postSend(const void *buf, int count, int dt, int dst, int tag, int comm, bool sync, bool blocking)
{
    Rank *r = cur->rank; mc_request *q = new mc_request;
    q->rank = r; q->buf = (const char *)buf; q->len = (size_t)count * tsize(dt); q->src = r->id; q->dst = dst; q->tag = tag; q->comm = comm; q->blocking = blocking; q->seq = ++seqNo; q->where = callPc;
    histOp(mix(2, mix(dst, tag))); q->hist = cur->hist;
    acc(buf, q->len, false, (void *)q->where);
    bool eager = !sync;
    if (!sync) switch (C.sendMode) {
        case EAGER: eager = true; break;
        case SYNC: eager = false; break;
        case CHOOSE: eager = choose(2, K_MODE) == 0; break;
        case CHOOSE_SYNC: eager = choose(2, K_MODE) == 1; break;
    }
    if (!sync && C.sendMode >= CHOOSE) cur->hist = mix(cur->hist, eager);
    q->eager = eager; q->hash = bufHash(buf, q->len);
    if (eager) { q->data.assign(q->buf, q->buf + q->len); q->complete = true; }
    sh->messages++; sh->bytes += q->len;
    Rank *d = &R[dst];
    // non-overtaking: a posted receive can only take it if no earlier unmatched message of ours fits it
    for (auto it = d->posted.begin(); it != d->posted.end(); ++it)
        if (envMatch(*it, q)) { mc_request *rc = *it; d->posted.erase(it); doMatch(rc, q); if (verbose) fprintf(stderr, "[msg] %d->%d tag %d %zu bytes matched posted receive\n", q->src, dst, tag, q->len); made_progress(); return q; }
    d->unexpected.push_back(q);
    if (verbose) fprintf(stderr, "[msg] %d->%d tag %d %zu bytes posted (%s)\n", q->src, dst, tag, q->len, eager ? "buffered" : "synchronous");
    made_progress();
    return q;
}
static mc_request *postRecv(void *buf, int count, int dt, int src, int tag, int comm, bool blocking)
{
    Rank *r = cur->rank; mc_request *q = new mc_request;
    q->rank = r; q->isRecv = true; q->rbuf = (char *)buf; q->cap = (size_t)count * tsize(dt); q->src = src; q->tag = tag; q->comm = comm; q->blocking = blocking; q->dst = r->id; q->where = callPc;
    memUse(buf, q->cap, true, (void *)q->where);
    histOp(mix(3, mix(src, tag))); q->hist = cur->hist;
    std::vector<mc_request *> cand; std::set<int> seen;
    for (mc_request *s : r->unexpected) if (envMatch(q, s) && !seen.count(s->src)) { seen.insert(s->src); cand.push_back(s); }
    if (!cand.empty()) {
        mc_request *s = cand[cand.size() > 1 ? choose(cand.size(), K_SRC) : 0];
        r->unexpected.erase(std::find(r->unexpected.begin(), r->unexpected.end(), s));
        doMatch(q, s);
    } else r->posted.push_back(q);
    made_progress();
    return q;
}
static void pin(mc_request *q) { q->rank->pend.push_back(q); anyPend++; }
static void unpin(mc_request *q)
{
    auto &p = q->rank->pend; auto it = std::find(p.begin(), p.end(), q);
    if (it != p.end()) { p.erase(it); anyPend--; }
}
// the user learns that q is complete
static void finish(mc_request **req, MPI_Status *st)
{
    mc_request *q = *req;
    if (q->isRecv) {
        histOp(mix(5, q->matchHist));
        if (bufHash(q->rbuf, q->gotBytes) != q->hash && C.strictBuf) fail(ST_BUFFER, "rank %d changed the buffer of a receive (from %d tag %d) before its completion", q->rank->id, q->gotSrc, q->gotTag);
        if (st) { st->MPI_SOURCE = q->gotSrc; st->MPI_TAG = q->gotTag; st->MPI_ERROR = 0; st->mc_bytes = q->gotBytes; }
        acc(q->rbuf, 0, true, nullptr);
    } else {
        histOp(q->eager ? 7 : mix(7, q->matchHist));
        if (bufHash(q->buf, q->len) != q->hash && C.strictBuf) fail(ST_BUFFER, "rank %d changed the buffer of a send (to %d tag %d) before its completion", q->rank->id, q->dst, q->tag);
        if (st) { st->MPI_SOURCE = q->src; st->MPI_TAG = q->tag; st->MPI_ERROR = 0; st->mc_bytes = q->len; }
    }
    unpin(q);
    if (q->isRecv && q->gotBytes) acc(q->rbuf, q->gotBytes, true, __builtin_return_address(0));
    if (q->isRecv) delete q; else if (q->matched) delete q; else q->freed = true;
    *req = MPI_REQUEST_NULL;
    made_progress();
}
static inline bool isReq(mc_request *q) { return q != MPI_REQUEST_NULL; }
static void validReq(mc_request *q, const char *name)
{
    if (!isReq(q)) return;
    auto &p = cur->rank->pend;
    if (std::find(p.begin(), p.end(), q) == p.end()) fail(ST_BUFFER, "rank %d: %s on a request that is not active", cur->rank->id, name);
}

int MPI_Init_thread(int *, char ***, int required, int *provided)
{
    Rank *r = cur->rank; if (r->inited) fail(ST_MPIERR, "MPI initialized twice");
    r->inited = true; r->level = required; *provided = required; return MPI_SUCCESS;
}
int MPI_Init(int *, char ***) { int p; return MPI_Init_thread(nullptr, nullptr, MPI_THREAD_SINGLE, &p); }
int MPI_Initialized(int *f) { *f = cur->rank->inited; return 0; }
int MPI_Finalized(int *f) { *f = cur->rank->finalized; return 0; }
int MPI_Query_thread(int *p) { *p = cur->rank->level; return 0; }
int MPI_Is_thread_main(int *f) { *f = cur->tid == 0; return 0; }
int MPI_Abort(MPI_Comm, int code) { fail(ST_EXIT, "MPI_Abort(%d) on rank %d: %s", code, curRank(), cur ? cur->rank->out.c_str() : ""); }
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = c == MPI_COMM_SELF ? 0 : cur->rank->id; return 0; }
int MPI_Comm_size(MPI_Comm c, int *s) { *s = c == MPI_COMM_SELF ? 1 : (int)R.size(); return 0; }
int MPI_Get_processor_name(char *s, int *l) { strcpy(s, "mc"); *l = 2; return 0; }
int MPI_Error_string(int c, char *s, int *l) { *l = sprintf(s, "error %d", c); return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
double MPI_Wtime() { if (memOn) return 1e-3 * ticks++; struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
int MPI_Type_size(MPI_Datatype d, int *s) { *s = tsize(d); return 0; }

int MPI_Isend(const void *b, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm comm, MPI_Request *req)
{
    MpiCall c("MPI_Isend"); checkArgs("MPI_Isend", n, dst, comm);
    if (dst == MPI_PROC_NULL) { *req = MPI_REQUEST_NULL; return 0; }
    *req = postSend(b, n, dt, dst, tag, comm, false, false); pin(*req); return 0;
}
int MPI_Issend(const void *b, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm comm, MPI_Request *req)
{
    MpiCall c("MPI_Issend"); checkArgs("MPI_Issend", n, dst, comm);
    *req = postSend(b, n, dt, dst, tag, comm, true, false); pin(*req); return 0;
}
int MPI_Irecv(void *b, int n, MPI_Datatype dt, int src, int tag, MPI_Comm comm, MPI_Request *req)
{
    MpiCall c("MPI_Irecv"); checkArgs("MPI_Irecv", n, src, comm);
    *req = postRecv(b, n, dt, src, tag, comm, false); pin(*req); return 0;
}
static int sendBlocking(const void *b, int n, int dt, int dst, int tag, int comm, bool sync, const char *name)
{
    MpiCall c(name); checkArgs(name, n, dst, comm);
    if (dst == MPI_PROC_NULL) return 0;
    mc_request *q = postSend(b, n, dt, dst, tag, comm, sync, true); pin(q);
    blockUntil(name, [q] { return q->complete; });
    finish(&q, nullptr); return 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm comm) { return sendBlocking(b, n, dt, dst, tag, comm, false, "MPI_Send"); }
int MPI_Ssend(const void *b, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm comm) { return sendBlocking(b, n, dt, dst, tag, comm, true, "MPI_Ssend"); }
int MPI_Recv(void *b, int n, MPI_Datatype dt, int src, int tag, MPI_Comm comm, MPI_Status *st)
{
    MpiCall c("MPI_Recv"); checkArgs("MPI_Recv", n, src, comm);
    mc_request *q = postRecv(b, n, dt, src, tag, comm, true); pin(q);
    blockUntil("MPI_Recv", [q] { return q->complete; });
    finish(&q, st); return 0;
}
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype sdt, int dst, int stag, void *rb, int rn, MPI_Datatype rdt, int src, int rtag, MPI_Comm comm, MPI_Status *st)
{
    MpiCall c("MPI_Sendrecv"); checkArgs("MPI_Sendrecv", sn, dst, comm); checkArgs("MPI_Sendrecv", rn, src, comm);
    mc_request *s = postSend(sb, sn, sdt, dst, stag, comm, false, true); pin(s);
    mc_request *r = postRecv(rb, rn, rdt, src, rtag, comm, true); pin(r);
    blockUntil("MPI_Sendrecv", [s, r] { return s->complete && r->complete; });
    finish(&r, st); finish(&s, nullptr); return 0;
}
int MPI_Wait(MPI_Request *req, MPI_Status *st)
{
    MpiCall c("MPI_Wait"); if (!isReq(*req)) return 0; validReq(*req, "MPI_Wait");
    mc_request *q = *req; blockUntil("MPI_Wait", [q] { return q->complete; }); finish(req, st); return 0;
}
int MPI_Waitall(int n, MPI_Request *reqs, MPI_Status *sts)
{
    MpiCall c("MPI_Waitall"); 
    for (int i = 0; i < n; i++) validReq(reqs[i], "MPI_Waitall");
    blockUntil("MPI_Waitall", [=] { for (int i = 0; i < n; i++) if (isReq(reqs[i]) && !reqs[i]->complete) return false; return true; });
    for (int i = 0; i < n; i++) if (isReq(reqs[i])) finish(&reqs[i], sts ? &sts[i] : nullptr);
    return 0;
}
int MPI_Waitany(int n, MPI_Request *reqs, int *idx, MPI_Status *st)
{
    MpiCall c("MPI_Waitany");
    int act = 0; for (int i = 0; i < n; i++) if (isReq(reqs[i])) { act++; validReq(reqs[i], "MPI_Waitany"); }
    if (!act) { *idx = MPI_UNDEFINED; return 0; }
    auto any = [=] { for (int i = 0; i < n; i++) if (isReq(reqs[i]) && reqs[i]->complete) return true; return false; };
    blockUntil("MPI_Waitany", any);
    if (act > 1) schedPoint();
    std::vector<int> cand; for (int i = 0; i < n; i++) if (isReq(reqs[i]) && reqs[i]->complete) cand.push_back(i);
    int k = cand[cand.size() > 1 ? choose(cand.size(), K_ANY) : 0];
    sh->outcomeHash = mix(sh->outcomeHash, mix(k, 999 + curRank()));
    histOp(mix(11, k)); finish(&reqs[k], st); *idx = k; return 0;
}
int MPI_Waitsome(int n, MPI_Request *reqs, int *outc, int *idx, MPI_Status *sts)
{
    int one; int rc = MPI_Waitany(n, reqs, &one, sts ? &sts[0] : nullptr);
    if (one == MPI_UNDEFINED) { *outc = MPI_UNDEFINED; return rc; } *outc = 1; idx[0] = one; return rc;
}
// poll bookkeeping: an idle loop (only fruitless polls since the same poll last failed) returns to the same state
static void fruitless(uint64_t key)
{
    sh->polls++;
    if (cur->idlePolls.count(key)) { cur->sub = 0; yieldPoint(); return; }
    uint64_t h = mix(cur->hist, mix(13, key));
    auto keep = cur->idlePolls; keep.insert(key);
    cur->hist = h; cur->idlePolls = keep;
    yieldPoint();
}
static bool pollSees(bool there)
{
    if (!there) return false;
    if (!C.pollMiss) return true;
    return choose(2, K_POLL) == 0;
}
int MPI_Test(MPI_Request *req, int *flag, MPI_Status *st)
{
    MpiCall c("MPI_Test"); if (!isReq(*req)) { *flag = 1; return 0; } validReq(*req, "MPI_Test");
    schedPoint();
    if (pollSees((*req)->complete)) { *flag = 1; finish(req, st); } else { *flag = 0; fruitless((uint64_t)mix((*req)->tag, (*req)->src * 64 + (*req)->dst)); }
    return 0;
}
int MPI_Testall(int n, MPI_Request *reqs, int *flag, MPI_Status *sts)
{
    MpiCall c("MPI_Testall"); for (int i = 0; i < n; i++) validReq(reqs[i], "MPI_Testall");
    schedPoint();
    bool all = true, some = false; for (int i = 0; i < n; i++) { if (isReq(reqs[i])) some = true; if (isReq(reqs[i]) && !reqs[i]->complete) all = false; }
    if (!some) { *flag = 1; return 0; }
    if (pollSees(all)) { *flag = 1; for (int i = 0; i < n; i++) if (isReq(reqs[i])) finish(&reqs[i], sts ? &sts[i] : nullptr); }
    else { *flag = 0; fruitless(mix(17, n)); }
    return 0;
}
int MPI_Testany(int n, MPI_Request *reqs, int *idx, int *flag, MPI_Status *st)
{
    MpiCall c("MPI_Testany"); schedPoint();
    std::vector<int> cand; int act = 0; for (int i = 0; i < n; i++) if (isReq(reqs[i])) { act++; if (reqs[i]->complete) cand.push_back(i); }
    if (!act) { *flag = 1; *idx = MPI_UNDEFINED; return 0; }
    if (pollSees(!cand.empty())) { int k = cand[cand.size() > 1 ? choose(cand.size(), K_ANY) : 0]; *flag = 1; *idx = k; histOp(mix(11, k)); finish(&reqs[k], st); }
    else { *flag = 0; *idx = MPI_UNDEFINED; fruitless(mix(18, n)); }
    return 0;
}
static mc_request *findUnexpected(Rank *r, int src, int tag, int comm)
{
    mc_request probe; probe.src = src; probe.tag = tag; probe.comm = comm;
    for (mc_request *s : r->unexpected) if (envMatch(&probe, s)) return s;
    return nullptr;
}
static void setSt(MPI_Status *st, mc_request *s) { if (st) { st->MPI_SOURCE = s->src; st->MPI_TAG = s->tag; st->MPI_ERROR = 0; st->mc_bytes = s->len; } }
int MPI_Probe(int src, int tag, MPI_Comm comm, MPI_Status *st)
{
    MpiCall c("MPI_Probe"); Rank *r = cur->rank; 
    blockUntil("MPI_Probe", [=] { return findUnexpected(r, src, tag, comm) != nullptr; });
    schedPoint();
    std::vector<mc_request *> cand; std::set<int> seen; mc_request probe; probe.src = src; probe.tag = tag; probe.comm = comm;
    for (mc_request *s : r->unexpected) if (envMatch(&probe, s) && !seen.count(s->src)) { seen.insert(s->src); cand.push_back(s); }
    mc_request *s = cand[cand.size() > 1 ? choose(cand.size(), K_SRC) : 0];
    histOp(mix(19, s->hist)); setSt(st, s); return 0;
}
int MPI_Iprobe(int src, int tag, MPI_Comm comm, int *flag, MPI_Status *st)
{
    MpiCall c("MPI_Iprobe"); checkArgs("MPI_Iprobe", 0, src, comm); Rank *r = cur->rank;
    schedPoint();
    std::vector<mc_request *> cand; std::set<int> seen; mc_request probe; probe.src = src; probe.tag = tag; probe.comm = comm;
    for (mc_request *s : r->unexpected) if (envMatch(&probe, s) && !seen.count(s->src)) { seen.insert(s->src); cand.push_back(s); }
    bool sees = pollSees(!cand.empty());
    sh->outcomeHash = mix(sh->outcomeHash, mix(sees, 777 + curRank()));
    if (sees) { mc_request *s = cand[cand.size() > 1 ? choose(cand.size(), K_SRC) : 0]; *flag = 1; histOp(mix(21, s->hist)); setSt(st, s); sh->polls++; made_progress(); }
    else { *flag = 0; if (st) { st->MPI_SOURCE = MPI_PROC_NULL; st->MPI_TAG = MPI_ANY_TAG; st->mc_bytes = 0; } fruitless(mix(23, mix(src, tag))); }
    return 0;
}
int MPI_Get_count(const MPI_Status *st, MPI_Datatype dt, int *n) { *n = (st->mc_bytes % tsize(dt)) ? MPI_UNDEFINED : (int)(st->mc_bytes / tsize(dt)); return 0; }
int MPI_Request_free(MPI_Request *req) { MpiCall c("MPI_Request_free"); fail(ST_BUFFER, "rank %d frees an active request", curRank()); *req = MPI_REQUEST_NULL; return 0; }

// ---- collectives
enum { OP_BARRIER = 1, OP_ALLREDUCE, OP_REDUCE, OP_BCAST, OP_GATHER, OP_ALLGATHER, OP_ALLTOALL, OP_FOPEN, OP_FCLOSE, OP_FIN, OP_FSETSIZE };
extern "C++" {
template <class T> static T red(int op, T a, T b)
{
    switch (op) { case MPI_SUM: return a + b; case MPI_MAX: return a > b ? a : b; case MPI_MIN: return a < b ? a : b; case MPI_PROD: return a * b;
        case MPI_LAND: return a && b; case MPI_LOR: return a || b; }
    fail(ST_MPIERR, "reduction operation"); 
}
template <class T> static void redT(int op, char *accu, const char *x, int n) { for (int i = 0; i < n; i++) { T a, b; memcpy(&a, accu + i * sizeof(T), sizeof(T)); memcpy(&b, x + i * sizeof(T), sizeof(T)); a = red<T>(op, a, b); memcpy(accu + i * sizeof(T), &a, sizeof(T)); } }
static void reduceInto(int op, int dt, char *a, const char *x, int n)
{
    switch (dt) {
    case MPI_DOUBLE: redT<double>(op, a, x, n); return; case MPI_FLOAT: redT<float>(op, a, x, n); return;
    case MPI_INT: case MPI_INT32_T: redT<int32_t>(op, a, x, n); return; case MPI_UNSIGNED: case MPI_UINT32_T: redT<uint32_t>(op, a, x, n); return;
    case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: redT<int64_t>(op, a, x, n); return;
    case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: redT<uint64_t>(op, a, x, n); return;
    default: redT<int8_t>(op, a, x, n); }
}
}
// every rank's k-th collective must be the same operation
static Coll &collective(const char *name, int comm, uint64_t desc, const void *in, size_t inLen, bool &last)
{
    Rank *r = cur->rank;
    if (comm == MPI_COMM_SELF) { memUse(in, inLen, false, (void *)callPc); static Coll self; self = Coll(); self.data.resize(1); self.data[0].assign((const char *)in, (const char *)in + inLen); last = true; self.complete = true; return self; }
    checkArgs(name, 0, 0, comm);
    size_t k = r->collIdx++;
    while (colls.size() <= k) { colls.emplace_back(); colls.back().data.resize(R.size()); }
    Coll &c = colls[k];
    if (c.arrived == 0) { c.desc = desc; c.name = name; sh->collectives++; }
    else if (c.desc != desc || c.name != name)
        fail(ST_MPIERR, "collective mismatch: rank %d calls %s (signature %llx) where another rank called %s (%llx)", r->id, name, (unsigned long long)desc, c.name.c_str(), (unsigned long long)c.desc);
    memUse(in, inLen, false, (void *)callPc);
    if (inLen) c.data[r->id].assign((const char *)in, (const char *)in + inLen);
    histOp(29);
    c.hist += mix(cur->hist, r->id);
    c.arrived++;
    last = c.arrived == (int)R.size();
    made_progress();
    return c;
}
static void collWait(Coll &c, bool last, int comm)
{
    if (comm == MPI_COMM_SELF) return;
    if (last) { c.complete = true; made_progress(); }
    else { Coll *p = &c; blockUntil(c.name.c_str(), [p] { return p->complete; }); }
    histOp(mix(31, c.hist));
}
int MPI_Barrier(MPI_Comm comm) { MpiCall c("MPI_Barrier"); bool last; Coll &k = collective("MPI_Barrier", comm, 0, "", 0, last); collWait(k, last, comm); return 0; }
int MPI_Allreduce(const void *in, void *out, int n, MPI_Datatype dt, MPI_Op op, MPI_Comm comm)
{
    MpiCall c("MPI_Allreduce"); bool last; size_t len = (size_t)n * tsize(dt);
    if (in == MPI_IN_PLACE) in = out;
    Coll &k = collective("MPI_Allreduce", comm, mix(mix(n, dt), op), in, len, last);
    if (last && comm != MPI_COMM_SELF) { std::vector<char> a = k.data[0]; for (size_t i = 1; i < R.size(); i++) reduceInto(op, dt, a.data(), k.data[i].data(), n); k.data.push_back(a); }
    collWait(k, last, comm); acc(out, len, true, (void *)callPc); if (len) memcpy(out, k.data.back().data(), len); return 0;
}
int MPI_Reduce(const void *in, void *out, int n, MPI_Datatype dt, MPI_Op op, int root, MPI_Comm comm)
{
    MpiCall c("MPI_Reduce"); bool last; size_t len = (size_t)n * tsize(dt); if (in == MPI_IN_PLACE) in = out;
    Coll &k = collective("MPI_Reduce", comm, mix(mix(n, dt), op * 64 + root), in, len, last);
    if (last && comm != MPI_COMM_SELF) { std::vector<char> a = k.data[0]; for (size_t i = 1; i < R.size(); i++) reduceInto(op, dt, a.data(), k.data[i].data(), n); k.data.push_back(a); }
    collWait(k, last, comm); int me; MPI_Comm_rank(comm, &me); if (me == root && len) { acc(out, len, true, (void *)callPc); memcpy(out, k.data.back().data(), len); } return 0;
}
int MPI_Bcast(void *b, int n, MPI_Datatype dt, int root, MPI_Comm comm)
{
    MpiCall c("MPI_Bcast"); bool last; size_t len = (size_t)n * tsize(dt);
    Coll &k = collective("MPI_Bcast", comm, mix(len, root), b, len, last); collWait(k, last, comm);
    if (len) { int me; MPI_Comm_rank(comm, &me); if (me != root) acc(b, len, true, (void *)callPc); memcpy(b, k.data[comm == MPI_COMM_SELF ? 0 : root].data(), len); } return 0;
}
int MPI_Allgather(const void *in, int n, MPI_Datatype dt, void *out, int, MPI_Datatype, MPI_Comm comm)
{
    MpiCall c("MPI_Allgather"); bool last; size_t len = (size_t)n * tsize(dt);
    Coll &k = collective("MPI_Allgather", comm, len, in, len, last); collWait(k, last, comm);
    int sz; MPI_Comm_size(comm, &sz); acc(out, sz * len, true, (void *)callPc); for (int i = 0; i < sz; i++) if (len) memcpy((char *)out + i * len, k.data[i].data(), len); return 0;
}
int MPI_Gather(const void *in, int n, MPI_Datatype dt, void *out, int, MPI_Datatype, int root, MPI_Comm comm)
{
    MpiCall c("MPI_Gather"); bool last; size_t len = (size_t)n * tsize(dt);
    Coll &k = collective("MPI_Gather", comm, mix(len, root), in, len, last); collWait(k, last, comm);
    int sz, me; MPI_Comm_size(comm, &sz); MPI_Comm_rank(comm, &me); if (me == root) acc(out, sz * len, true, (void *)callPc); if (me == root) for (int i = 0; i < sz; i++) if (len) memcpy((char *)out + i * len, k.data[i].data(), len); return 0;
}
int MPI_Alltoall(const void *in, int n, MPI_Datatype dt, void *out, int, MPI_Datatype, MPI_Comm comm)
{
    MpiCall c("MPI_Alltoall"); bool last; size_t len = (size_t)n * tsize(dt); int sz, me; MPI_Comm_size(comm, &sz); MPI_Comm_rank(comm, &me);
    Coll &k = collective("MPI_Alltoall", comm, len, in, len * sz, last); collWait(k, last, comm);
    acc(out, sz * len, true, (void *)callPc); for (int i = 0; i < sz; i++) if (len) memcpy((char *)out + i * len, k.data[i].data() + me * len, len); return 0;
}
int MPI_Finalize()
{
    MpiCall c("MPI_Finalize"); bool last; Coll &k = collective("MPI_Finalize", MPI_COMM_WORLD, 0, "", 0, last); collWait(k, last, MPI_COMM_WORLD);
    cur->rank->finalized = true; return 0;
}

// ---- files
static std::vector<char> *findFile(const std::string &n, bool load)
{
    auto it = memfs.find(n); if (it != memfs.end()) return &it->second;
    if (!load) return nullptr;
    FILE *f = fopen(n.c_str(), "rb"); if (!f) return nullptr;
    std::vector<char> d; char buf[65536]; size_t k; while ((k = fread(buf, 1, sizeof buf, f)) > 0) d.insert(d.end(), buf, buf + k); fclose(f);
    return &(memfs[n] = d);
}
static std::set<mc_file *> openFiles;
static bool isFile(mc_file *f) { return openFiles.count(f) > 0; }
static bool ioFault() { ioOps++; if (ioFaultAt && ioOps == ioFaultAt) { ioFaultHit = true; return true; } return false; }
int MPI_File_open(MPI_Comm comm, const char *name, int mode, MPI_Info, MPI_File *fh)
{
    MpiCall c("MPI_File_open"); bool last;
    Coll &k = collective("MPI_File_open", comm, mix(mode, std::hash<std::string>()(name)), "", 0, last);
    if (last) {
        std::string nm = name; auto *f = findFile(nm, true); k.result = MPI_SUCCESS; fstats.opens++;
        if (ioFault()) k.result = MPI_ERR_OTHER;
        else if (f && (mode & MPI_MODE_EXCL)) k.result = MPI_ERR_FILE_EXISTS;
        else if (!f && !(mode & MPI_MODE_CREATE)) k.result = MPI_ERR_NO_SUCH_FILE;
        else if (!f) memfs[nm];
    }
    collWait(k, last, comm);
    if (k.result != MPI_SUCCESS) { *fh = MPI_FILE_NULL; return k.result; }
    *fh = new mc_file; (*fh)->name = name; (*fh)->mode = mode; (*fh)->rank = curRank(); openFiles.insert(*fh); return 0;
}
int MPI_File_close(MPI_File *fh)
{
    MpiCall c("MPI_File_close"); bool last; if (!isFile(*fh)) fail(ST_MPIERR, "closing a file that is not open"); openFiles.erase(*fh); Coll &k = collective("MPI_File_close", MPI_COMM_WORLD, 0, "", 0, last);
    if (last) k.result = ioFault() ? MPI_ERR_OTHER : MPI_SUCCESS;
    collWait(k, last, MPI_COMM_WORLD); delete *fh; *fh = MPI_FILE_NULL; return k.result;
}
int MPI_File_delete(const char *name, MPI_Info)
{
    MpiCall c("MPI_File_delete"); fstats.deletes++; if (ioFault()) return MPI_ERR_OTHER;
    if (!findFile(name, true)) return MPI_ERR_NO_SUCH_FILE; memfs.erase(name); writerMap.erase(name); return 0;
}
static size_t fileSize(mc_file *f);
int MPI_File_seek(MPI_File f, MPI_Offset o, int w)
{
    MpiCall c("MPI_File_seek"); if (!isFile(f)) fail(ST_MPIERR, "seek on a file that is not open");
    size_t sz = fileSize(f);
    long long p = w == MPI_SEEK_SET ? o : w == MPI_SEEK_CUR ? (long long)f->pos + o : (long long)sz + o;
    if (p < 0) return MPI_ERR_OTHER; f->pos = p; return 0;
}
int MPI_File_get_position(MPI_File f, MPI_Offset *o) { *o = f->pos; return 0; }
static size_t fileSize(mc_file *f) { auto *d = findFile(f->name, false); return d ? d->size() + (gapLen && f->name == gapName ? gapLen : 0) : 0; }
int MPI_File_get_size(MPI_File f, MPI_Offset *o) { *o = fileSize(f); return 0; }
int MPI_File_sync(MPI_File) { return 0; }
int MPI_File_set_size(MPI_File f, MPI_Offset n) { MpiCall c("MPI_File_set_size"); bool last; Coll &k = collective("MPI_File_set_size", MPI_COMM_WORLD, n, "", 0, last); if (last) findFile(f->name, false)->resize(n); collWait(k, last, MPI_COMM_WORLD); return 0; }
static int readAt(mc_file *f, size_t pos, void *b, int n, int dt, MPI_Status *st, size_t *got)
{
    if (!isFile(f)) fail(ST_MPIERR, "read on a file that is not open");
    if (f->mode & MPI_MODE_WRONLY) return MPI_ERR_OTHER;
    if (ioFault()) { if (st) { st->mc_bytes = 0; st->MPI_ERROR = MPI_ERR_OTHER; } *got = 0; return MPI_ERR_OTHER; }
    auto *d = findFile(f->name, false); size_t len = (size_t)n * tsize(dt), k = 0;
    if (d && gapLen && f->name == gapName) {      // piecewise
        if ((long long)pos < 0) return MPI_ERR_OTHER;
        if (pos < d->size() + gapLen) k = std::min(len, d->size() + gapLen - pos);
        acc(b, k, true, (void *)callPc);
        for (size_t i = 0; i < k; i++) { size_t p = pos + i; ((char *)b)[i] = p < gapAt ? (*d)[p] : p < gapAt + gapLen ? 0 : (*d)[p - gapLen]; }
        if (st) { st->mc_bytes = k; st->MPI_ERROR = 0; }
        *got = k; return 0;
    }
    if (d && pos < d->size()) k = std::min(len, d->size() - pos);
    acc(b, k, true, (void *)callPc);
    if (k) memcpy(b, d->data() + pos, k);
    if (st) { st->mc_bytes = k; st->MPI_ERROR = 0; }
    *got = k; return 0;
}
int MPI_File_read(MPI_File f, void *b, int n, MPI_Datatype dt, MPI_Status *st) { MpiCall c("MPI_File_read"); size_t g = 0; int r = readAt(f, isFile(f) ? f->pos : 0, b, n, dt, st, &g); f->pos += g; return r; }
int MPI_File_read_all(MPI_File f, void *b, int n, MPI_Datatype dt, MPI_Status *st) { return MPI_File_read(f, b, n, dt, st); }
int MPI_File_read_at(MPI_File f, MPI_Offset o, void *b, int n, MPI_Datatype dt, MPI_Status *st) { MpiCall c("MPI_File_read_at"); size_t g; return readAt(f, o, b, n, dt, st, &g); }
int MPI_File_read_at_all(MPI_File f, MPI_Offset o, void *b, int n, MPI_Datatype dt, MPI_Status *st) { return MPI_File_read_at(f, o, b, n, dt, st); }
static int writeAt(mc_file *f, size_t pos, const void *b, int n, int dt)
{
    if (!isFile(f)) fail(ST_MPIERR, "write on a file that is not open");
    if (f->mode & MPI_MODE_RDONLY) return MPI_ERR_OTHER;
    if (ioFault()) return MPI_ERR_OTHER;
    if (n < 0) fail(ST_MPIERR, "file write with negative count %d", n);
    auto *d = findFile(f->name, false); if (!d) fail(ST_MPIERR, "write to a deleted file"); size_t len = (size_t)n * tsize(dt);
    if (!probeName.empty() && f->name == probeName) { if ((long long)pos < 0) return MPI_ERR_OTHER; fstats.writes++; probe(pos, (const char *)b, len); return 0; }
    if (pos + len > (size_t)1 << 30) fail(ST_MPIERR, "write of %zu bytes at absurd offset %zu", len, pos);
    if (d->size() < pos + len) d->resize(pos + len, 0);
    acc(b, len, false, (void *)callPc);
    if (len) memcpy(d->data() + pos, b, len);
    auto &w = writerMap[f->name]; if (w.size() < pos + len) w.resize(pos + len, -1);
    for (size_t i = pos; i < pos + len; i++) { if (w[i] >= 0 && w[i] != curRank()) fstats.overlap = true; w[i] = curRank(); }
    fstats.writes++; return 0;
}
int MPI_File_write(MPI_File f, const void *b, int n, MPI_Datatype dt, MPI_Status *) { MpiCall c("MPI_File_write"); int r = writeAt(f, isFile(f) ? f->pos : 0, b, n, dt); f->pos += (size_t)n * tsize(dt); return r; }
int MPI_File_write_at(MPI_File f, MPI_Offset o, const void *b, int n, MPI_Datatype dt, MPI_Status *) { MpiCall c("MPI_File_write_at"); return writeAt(f, o, b, n, dt); }
int MPI_File_write_at_all(MPI_File f, MPI_Offset o, const void *b, int n, MPI_Datatype dt, MPI_Status *s) { return MPI_File_write_at(f, o, b, n, dt, s); }

// ---------------------------------------------------------------- called by the shim in each copy of the program
struct Unwatched { bool was; Unwatched() : was(memOn) { memOn = false; } ~Unwatched() { memOn = was; } };      // the machinery's own strings are not the program's memory
void mc_out(const char *s, size_t n) { bool watched = memOn; Unwatched u; if (allText.size() < (1u << 22)) allText.append(s, n); if (!cur && watched) memText.append(s, n); if (cur) { cur->rank->out.append(s, n); if (verbose) { fprintf(stderr, "[out %d] %.*s", curRank(), (int)n, s); } } }
void mc_abort(const char *why)
{
    std::string o = cur ? cur->rank->out : ""; if (o.size() > 600) o = o.substr(o.size() - 600);
    fail(ST_ABORT, "rank %d aborts (%s): %s", curRank(), why, o.c_str());
}
void mc_exit(int code)
{
    std::string o = cur ? cur->rank->out : ""; if (o.size() > 600) o = o.substr(o.size() - 600);
    fail(ST_EXIT, "rank %d exits with code %d: %s", curRank(), code, o.c_str());
}
} // extern "C"
size_t rt::filesOpen() { return openFiles.size(); }

// what the program writes with streams
namespace { struct OutBuf : std::streambuf { int_type overflow(int_type c) override { if (c != traits_type::eof()) { char b = c; mc_out(&b, 1); } return 0; } std::streamsize xsputn(const char *s, std::streamsize n) override { mc_out(s, n); return n; } }; }
void rt::captureStreams() { static OutBuf b; std::cout.rdbuf(&b); }
