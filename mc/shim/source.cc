// The fixed source of a run can be replaced by one that differs between groups (and directions): the call of Problem::getSource is wrapped at link time.
#include "../api.hh"
#include "Global.hh"
#include "Problem.hh"
#include "PsiData.hh"
void real_getSource(PsiData &) __asm__("__real__ZN7Problem9getSourceER7PsiData") __attribute__((weak));
void wrap_getSource(PsiData &) __asm__("__wrap__ZN7Problem9getSourceER7PsiData");
static int g_on, g_calls;
extern "C" void mcs_source_hook(int on) { g_on = on; }
extern "C" int mcs_source_calls() { return g_calls; }
void wrap_getSource(PsiData &s)
{
    if (real_getSource) real_getSource(s);
    g_calls++; if (!g_on) return;
    for (UINT c = 0; c < g_nCells; c++) for (UINT a = 0; a < g_nAngles; a++) for (UINT v = 0; v < g_nVrtxPerCell; v++) {
        UINT n = g_tychoMesh->getCellNode(c, v); double x = g_tychoMesh->getNodeCoord(n, 0), y = g_tychoMesh->getNodeCoord(n, 1), z = g_tychoMesh->getNodeCoord(n, 2);
        for (UINT g = 0; g < g_nGroups; g++) s(g, v, a, c) = mcGroupSource(g_on, s(g, v, a, c), g, a, x, y, z);
    }
}
