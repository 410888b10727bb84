// Plain interface between the harness and the copies of the program (see shim/*.cc).
#pragma once
#include <cstdint>
#include <vector>
struct McParams {
    uint64_t snOrder, nGroups, nThreads, maxCellsPerStep, intraP, interP;
    int mpiType;        // 0 Tycho, 1 Capsaicin
    int gaussElim;      // 0..3
    double sT1, sS1, sT2, sS2;
    const char *pmesh;
    int xs;             // create cross sections
};
struct McTrav {
    void *ctx;
    const char *(*getData)(void *, uint64_t cell, uint64_t face, uint64_t angle);
    void (*setSide)(void *, uint64_t side, uint64_t angle, const char *data);
    uint64_t (*prio)(void *, uint64_t cell, uint64_t angle);
    void (*update)(void *, uint64_t cell, uint64_t angle, const uint64_t *adj, const int *bdry);
};
enum { BT_OUT_PART = 0, BT_OUT_EXT, BT_OUT_INT, BT_IN_PART, BT_IN_EXT, BT_IN_INT };
enum { MU_NSIDES, MU_NNODES, MU_CELLNODE, MU_ADJCELL, MU_ADJFACE, MU_SIDECELL, MU_SIDE, MU_LGSIDE, MU_GLSIDE, MU_LGCELL, MU_ADJRANK,
       MU_FTOC, MU_CTOF, MU_NBVRTX, MU_OUTGOING, MU_INCOMING, MU_ADJCELLSIDE, MU_ADJFACESIDE, MU_MATERIAL, MU_NCELLS, MU_NANGLES };
enum { MD_COORD, MD_OMEGADOTN, MD_VOLUME, MD_AREA };
struct McSerial { std::vector<uint64_t> cells, faces; std::vector<double> nodes; uint64_t nc, nf, nn, version; };   // cells: 9 each, faces: 5, nodes: 3
struct McPart { uint64_t nc, nf, nn; std::vector<uint64_t> cells, faces, nodeIds; std::vector<double> nodes; };       // cells: 10, faces: 9
struct McParallel { uint64_t version, np; std::vector<uint64_t> offsets; std::vector<McPart> parts; };
// the source of group g in a run with the source hook (kind 1: differs between groups; 2: direction dependent as well; 3: one group without a source)
inline double mcGroupSource(int kind, double s, uint64_t g, uint64_t a, double x, double y, double z)
{
    if (kind == 3) return g == 1 ? 0.0 : (1 + g) * (0.02 + s);
    double f = g * (0.004 + 1e-4 * ((g * 3) % 5)) * (1 + 0.01 * x + 0.02 * ((g + 1) % 3) * y + 0.005 * z);
    return kind == 1 ? s + f : s * (1 + (a * 7 + g * 3) % 5) + f * (1 + (a * 5 + g) % 3);
}
