// Controlled run time: ranks and OpenMP threads as fibers, MPI/OpenMP/TSan entry points, choices.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace rt {

enum SendMode { EAGER = 0, SYNC = 1, CHOOSE = 2, CHOOSE_SYNC = 3 };   // CHOOSE: eager unless the explorer deviates

struct Config {
    int nRanks = 1;
    int nThreads = 1;
    SendMode sendMode = EAGER;
    bool race = true;            // happens-before race detection (needs the instrumented build)
    bool schedRanks = true;      // rank interleavings are choices
    bool schedThreads = true;    // thread interleavings are choices
    bool pollMiss = true;        // a probe/test may miss a message that is there
    bool fillNew = true;         // fresh heap memory is filled with NaN patterns
    bool strictLevel = true;     // report MPI thread level violations
    bool strictBuf = true;       // report buffer discipline violations
    bool strictRace = true;      // report races
};

enum Status { ST_RUNNING = 0, ST_OK, ST_PRUNED, ST_ABORT, ST_EXIT, ST_DEADLOCK, ST_LIVELOCK, ST_RACE,
              ST_BUFFER, ST_THREADLEVEL, ST_MSGLEFT, ST_MPIERR, ST_WRONG, ST_CRASH, ST_HANG, ST_DIVERGED, ST_TOOLONG, ST_MEM };
const char *statusName(int s);

enum Kind { K_SCHED = 1, K_POLL = 2, K_ANY = 3, K_MODE = 4, K_SRC = 5, K_USER = 6 };

struct ChoicePt { uint16_t n, chosen; uint8_t kind; uint8_t rank; uint64_t state; };

const uint32_t MAXPTS = 120000, MAXDEV = 64;
struct Dev { uint32_t pos; uint16_t c, n; };      // at choice number pos (of n options) take c; all others take 0
struct Shared {                        // per worker, MAP_SHARED between explorer and execution
    int status;
    char msg[8192];
    uint32_t nPts, full;
    uint32_t nDev;
    uint64_t steps;                    // visible operations executed
    uint64_t accesses;                 // instrumented memory accesses seen
    uint64_t messages, bytes, collectives, polls, regions, races_checked;
    uint64_t outcomeHash;              // hash of all nondeterministic outcomes of the execution
    uint64_t userCount[8];
    uint64_t states;                   // new happens-before states met at choice points
    char note[256];
    Dev dev[MAXDEV];
    ChoicePt pts[MAXPTS];
    size_t blobLen;
    char blob[1 << 22];
};
extern Shared *sh;

// visited-state table (open addressing), shared between executions of one scenario
struct Visited { uint64_t cap, used; uint64_t slot[1]; };
extern Visited *visited;
extern bool pruning;
extern bool exploring;                 // false: choose() takes the default without recording a choice point

// Runs body(rank) on nRanks fibers; returns when all are finished. Failures end the process (sh->status).
void run(const Config &cfg, const std::function<void(int)> &body);
[[noreturn]] void fail(int status, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
int choose(int n, Kind k);             // explorer-controlled choice (usable by checks, too)
int rankCount(); int curRank(); uint64_t mpiCalls(int rank);      // MPI calls the rank has made
                         // rank of the running fiber
extern bool verbose;                   // trace to stderr (replay)

// a file whose bytes are not stored: every write goes to the probe
extern std::string probeName; extern std::function<void(uint64_t pos, const char *b, uint64_t n)> probe;
// the named file has gapLen zero bytes (not stored) before its byte gapAt
extern std::string gapName; extern uint64_t gapAt, gapLen;
// captured program output per rank
std::string &captured(int rank);
// in-memory files
std::map<std::string, std::vector<char>> &files();
struct FileStats { uint64_t writes = 0; bool overlap = false; uint64_t opens = 0, deletes = 0; };
FileStats &fileStats(); size_t filesOpen();
extern uint64_t ioFaultAt, ioOps; extern bool ioFaultHit;   // the ioFaultAt-th file operation of the execution fails (0: none)
struct KspRec { int rank, n, its, maxit; double rtol; int reason; };
std::vector<KspRec> &kspLog();         // linear solves of this execution
void captureStreams(); void allocStacks(int n);
// memory monitor: the program's heap comes from an arena with guarded, never reused blocks; accesses are checked
void memStart(int fill);               // from now on in this process; fresh blocks and stacks hold this byte
extern bool memOn;
struct MemStats { uint64_t blocks = 0, releases = 0, checked = 0, live = 0, peak = 0, unwatched = 0; };
std::string memReport(size_t most); MemStats &memStats(); extern std::string memText, allText;      // memText: output of tools; allText: all output in the order it was made
void *memObj(size_t n); void memObjFree(void *p);     // zeroed, monitored when the monitor is on
uint64_t mix(uint64_t a, uint64_t b);
}
