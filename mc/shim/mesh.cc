#include "../api.hh"
#include "Global.hh"
#include "Quadrature.hh"
#include "TychoMesh.hh"
#include "Problem.hh"
extern "C" void mcs_globals(const McParams *p)
{
    g_nAngleGroups = p->nThreads; g_nThreads = p->nThreads; g_nGroups = p->nGroups; g_snOrder = p->snOrder;
    g_maxCellsPerStep = p->maxCellsPerStep; g_intraAngleP = p->intraP; g_interAngleP = p->interP;
    g_mpiType = p->mpiType ? MPIType_CapsaicinTwoSided : MPIType_TychoTwoSided;
    static const GaussElim ge[4] = {GaussElim_Original, GaussElim_NoPivot, GaussElim_CramerGlu, GaussElim_CramerIntel};
    g_gaussElim = ge[p->gaussElim & 3];
}
extern "C" void mcs_setup(const McParams *p)
{
    mcs_globals(p);
    g_quadrature = new Quadrature(p->snOrder);
    g_tychoMesh = new TychoMesh(p->pmesh);
    if (p->xs) Problem::createCrossSections(g_sigmaT, g_sigmaS, p->sT1, p->sS1, p->sT2, p->sS2);
}
extern "C" uint64_t mcs_mu(int w, uint64_t a, uint64_t b, uint64_t c)
{
    TychoMesh &m = *g_tychoMesh;
    switch (w) {
    case MU_NSIDES: return m.getNSides(); case MU_NNODES: return m.getNNodes(); case MU_CELLNODE: return m.getCellNode(a, b);
    case MU_ADJCELL: return m.getAdjCell(a, b); case MU_ADJFACE: return m.getAdjFace(a, b); case MU_SIDECELL: return m.getSideCell(a);
    case MU_SIDE: return m.getSide(a, b); case MU_LGSIDE: return m.getLGSide(a); case MU_GLSIDE: return m.getGLSide(a); case MU_LGCELL: return m.getLGCell(a);
    case MU_ADJRANK: return m.getAdjRank(a, b); case MU_FTOC: return m.getFaceToCellVrtx(a, b, c); case MU_CTOF: return m.getCellToFaceVrtx(a, b, c);
    case MU_NBVRTX: return m.getNeighborVrtx(a, b, c); case MU_OUTGOING: return m.isOutgoing(a, b, c); case MU_INCOMING: return m.isIncoming(a, b, c);
    case MU_ADJCELLSIDE: return m.getAdjCellFromSide(a); case MU_ADJFACESIDE: return m.getAdjFaceFromSide(a); case MU_MATERIAL: return m.getCellMaterial(a);
    case MU_NCELLS: return g_nCells; case MU_NANGLES: return g_nAngles;
    }
    return 0;
}
extern "C" double mcs_md(int w, uint64_t a, uint64_t b, uint64_t c)
{
    TychoMesh &m = *g_tychoMesh;
    switch (w) { case MD_COORD: return m.getNodeCoord(a, b); case MD_OMEGADOTN: return m.getOmegaDotN(a, b, c); case MD_VOLUME: return m.getCellVolume(a); case MD_AREA: return m.getFaceArea(a, b); }
    return 0;
}
extern "C" void mcs_sigma(double *t, double *s) { for (UINT i = 0; i < g_nCells; i++) { t[i] = g_sigmaT[i]; s[i] = g_sigmaS[i]; } }
