// The priorities that a traversal of a run really uses: the call of GraphTraverser::traverse is wrapped at link time.
#include "../api.hh"
#include "Global.hh"
#include "GraphTraverser.hh"
void real_traverse(GraphTraverser *, UINT, TraverseData &) __asm__("__real__ZN14GraphTraverser8traverseEmR12TraverseData") __attribute__((weak));
void wrap_traverse(GraphTraverser *, UINT, TraverseData &) __asm__("__wrap__ZN14GraphTraverser8traverseEmR12TraverseData");
static int g_on; static std::vector<std::vector<uint64_t>> g_dumps;
extern "C" void mcs_trav_hook(int on) { g_on = on; g_dumps.clear(); }
extern "C" void mcs_trav_dumps(std::vector<std::vector<uint64_t>> &o) { o = g_dumps; }   // per traversal: limit, then priority of [cell * nAngles + angle]
void wrap_traverse(GraphTraverser *g, UINT n, TraverseData &d)
{
    if (g_on) { std::vector<uint64_t> v; v.push_back(n); for (UINT c = 0; c < g_nCells; c++) for (UINT a = 0; a < g_nAngles; a++) v.push_back(d.getPriority(c, a)); g_dumps.push_back(v); }
    if (real_traverse) real_traverse(g, n, d);
}
