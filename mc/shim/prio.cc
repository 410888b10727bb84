#include "../api.hh"
#include "Global.hh"
#include "Priorities.hh"
#include "Mat.hh"
extern "C" void mcs_prio(std::vector<uint64_t> &out)   // [cell * nAngles + angle]
{
    Mat2<UINT> p(g_nCells, g_nAngles); Priorities::calcPriorities(p); out.clear();
    for (UINT c = 0; c < g_nCells; c++) for (UINT a = 0; a < g_nAngles; a++) out.push_back(p(c, a));
}
