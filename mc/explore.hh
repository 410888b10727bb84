// Exhaustive exploration of scenarios: every execution is a forked child that replays a list of deviations.
#pragma once
#include "rt.hh"
#include <functional>
#include <string>
#include <vector>
struct Scenario {
    std::string name;                  // identifies it in replays and known findings
    std::function<void()> body;        // runs in the child: rt::run + oracle (rt::fail on violation)
    std::function<void()> prepare;     // runs before the first execution, in the process that forks the executions
    int maxDev = 0;                    // deviations from the default schedule/environment
    uint64_t maxExec = 1000000;        // cap on executions (reported when hit)
    enum Expect { RUNS, REFUSES, EITHER } expect = RUNS;
    bool prune = true;
    bool allowLive = false;
    double cpuLimit = 12;              // seconds per execution before it is re-run with 6 times as much and called a hang
};
struct Finding { std::string scenario, status, msg; std::vector<rt::Dev> dev; };
struct Totals {
    uint64_t scenarios = 0, scenariosDone = 0, exhaustive = 0, exec = 0, pruned = 0, states = 0, steps = 0, points = 0, outcomes = 0;
    uint64_t messages = 0, bytes = 0, collectives = 0, polls = 0, regions = 0, racesChecked = 0, accesses = 0;
    uint64_t user[8] = {0}; int maxDev = 0; uint64_t doneAt[8] = {0}; uint64_t refused = 0, maxPts = 0, odd = 0, other = 0;
    std::vector<std::string> samples, skipped; bool deadline = false;
};
// user counters
enum { UC_CASES = 0, UC_NONTRIVIAL = 1, UC_A = 2, UC_B = 3, UC_C = 4, UC_D = 5 };
extern std::vector<int> g_only;           // statuses the property is about (all if empty)
void explore(const std::vector<Scenario> &scn, double deadlineSec, Totals &tot, std::vector<Finding> &found);
// one execution with a trace on stderr; returns the status text
int replayOne(const Scenario &s, const std::vector<rt::Dev> &dev, std::string &msg);
void countCase(bool nontrivial = true, uint64_t n = 1);
double now();
