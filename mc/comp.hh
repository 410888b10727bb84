// Scenarios that drive components of the program directly on every rank.
#pragma once
#include "harness.hh"
#include "runs.hh"
struct CompCase {
    std::string mesh = "tet3"; std::vector<int> part = {0, 0, 0}; int np = 1, thr = 1; unsigned order = 0; int sn = 2, ng = 1, mpi = 0, maxc = 100, intra = 1, inter = 1, elim = 1; bool xs = false;
    double t1 = 0.05, s1 = 0.02, t2 = 0.11, s2 = 0.03;
    rt::SendMode mode = rt::EAGER; int dev = 1; uint64_t cap = 500; bool race = false, strictLevel = false, strictBuf = false; uint64_t gap = 0;      // gap: unused bytes of the mesh file before the first partition
   
    std::string name() const;
    McParams params() const; rt::Config cfg() const;
};
// what a rank's mesh object says, identified with the global mesh by coordinates
struct LocalView {
    int rank = 0, nc = 0, nSides = 0; const RMesh *m = nullptr;
    std::vector<int> gc;                               // local cell -> global cell
    std::vector<std::array<int, 4>> gv, gk;            // local vertex -> vertex of the global cell; local face -> face k of the global cell
    std::vector<std::array<std::array<int, 3>, 4>> fv; // [cell][face][face vertex] -> vertex of the global cell
    std::vector<int> sc, sf;                           // side -> local cell, local face
    std::vector<int> lc;                               // global cell -> local cell or -1
    uint64_t mu(int w, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0) const; double md(int w, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0) const;
};
LocalView localView(int rank, const RMesh &m);         // fails (wrong-result) if the mesh object cannot be identified
extern const std::vector<int> *g_part;                 // of the current scenario
// body runs on every rank between setup and finalize
Scenario compScenario(const std::string &name, const CompCase &k, std::function<void(int rank, LocalView &v)> body, std::function<void()> after = nullptr);
bool needSyms(std::initializer_list<const char *> names, const char *what);   // note and false if the program lost an interface
