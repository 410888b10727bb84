#include "../api.hh"
#include "Global.hh"
#include "Transport.hh"
#include "Mat.hh"
extern "C" void mcs_set_elim(int k)
{ static const GaussElim ge[4] = {GaussElim_Original, GaussElim_NoPivot, GaussElim_CramerGlu, GaussElim_CramerIntel}; g_gaussElim = ge[k & 3]; }
extern "C" void mcs_set_groups(uint64_t n) { g_nGroups = n; }
// bound[(g*4+face)*3+v], src[g*4+v], out[g*4+v]
extern "C" void mcs_cell_solve(uint64_t cell, uint64_t angle, double st, const double *bound, const double *src, double *out, uint64_t ng)
{
    Mat3<double> b(g_nVrtxPerFace, g_nFacePerCell, ng); Mat2<double> s(g_nVrtxPerCell, ng), p(g_nVrtxPerCell, ng);
    for (UINT g = 0; g < ng; g++) {
        for (UINT f = 0; f < 4; f++) for (UINT v = 0; v < 3; v++) b(v, f, g) = bound[(g * 4 + f) * 3 + v];
        for (UINT v = 0; v < 4; v++) { s(v, g) = src[g * 4 + v]; p(v, g) = -777; }
    }
    Transport::solve(cell, angle, st, b, s, p);
    for (UINT g = 0; g < ng; g++) for (UINT v = 0; v < 4; v++) out[g * 4 + v] = p(v, g);
}
extern "C" void mcs_populate(uint64_t angle, uint64_t cell, double *psi, const double *side, double *out)
{
    PsiData p(psi); PsiBoundData b; for (size_t i = 0; i < b.size(); i++) b[i] = side[i];
    Mat3<double> l(g_nVrtxPerFace, g_nFacePerCell, g_nGroups);
    for (UINT g = 0; g < g_nGroups; g++) for (UINT f = 0; f < 4; f++) for (UINT v = 0; v < 3; v++) l(v, f, g) = -555;
    Transport::populateLocalPsiBound(angle, cell, p, b, l);
    for (UINT g = 0; g < g_nGroups; g++) for (UINT f = 0; f < 4; f++) for (UINT v = 0; v < 3; v++) out[(g * 4 + f) * 3 + v] = l(v, f, g);
}
