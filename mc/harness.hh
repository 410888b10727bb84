#pragma once
#include "rt.hh"
#include "api.hh"
#include "mesh.hh"
#include "explore.hh"
#include <string>
#include <vector>
#include <memory>
#include <functional>
#include <dlfcn.h>

extern std::string g_build, g_scratch;     // directory of the built copies; scratch directory of this run
extern bool g_thorough;

const int MAXR = 8;
extern std::string g_variant;             // which build of the program: "", "_m", "_z" (see check.py)
void *copyHandle(int rank);                // the rank's own copy of the program
void *symOf(int rank, const char *name);
template <class F> F fn(int rank, const char *name) { return (F)symOf(rank, name); }
bool haveSym(const char *name);
void *toolHandle(const char *tool);        // util programs
void *toolSym(const char *tool, const char *name);

struct Check {
    const char *id, *title, *rule; const char *level;
    std::function<std::vector<Scenario>()> make;
    std::function<void(const Totals &, std::string &extraJson)> extra;
    std::vector<std::string> assumptions;
    double quickSec = 150, thoroughSec = 780; std::vector<int> only = {};
};
std::vector<Check *> &checks();
struct Reg { Reg(Check *c) { checks().push_back(c); } };

// ---- running the whole program
typedef std::vector<std::pair<std::string, std::string>> Deck;
std::string deckFile(const Deck &over);    // written to the scratch directory, shared by equal decks
std::string rawFile(const std::string &text, const char *suffix);
struct RunOut { bool fileOk = false; std::string why; uint64_t nc = 0, na = 0, ng = 0; std::vector<std::vector<double>> psi; std::vector<std::string> out; };
// all ranks run the program's main on "in.pmesh" (in memory) and the deck
void runMain(const rt::Config &cfg, const std::vector<char> &pmesh, const std::string &deck);
RunOut readPsi(const std::string &name);
void checkPsi(const RunOut &o, const std::vector<double> &ref, int ng, double tol, const char *what);
std::string partName(const std::vector<int> &p);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
void mpiInit(); void mpiFini();
void fixScratchPid(); int scratchPid();                          // part of the names of scratch files; one value for all processes of a scenario
