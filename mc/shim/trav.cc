#include "../api.hh"
#include "Global.hh"
#include "GraphTraverser.hh"
namespace {
int bt(BoundaryType b)
{
    switch (b) { case BoundaryType_OutIntBdry: return BT_OUT_PART; case BoundaryType_OutExtBdry: return BT_OUT_EXT; case BoundaryType_OutInt: return BT_OUT_INT;
        case BoundaryType_InIntBdry: return BT_IN_PART; case BoundaryType_InExtBdry: return BT_IN_EXT; case BoundaryType_InInt: return BT_IN_INT; }
    return -1;
}
class Data : public TraverseData {
public:
    const McTrav &t;
    Data(const McTrav &x) : t(x) {}
    virtual const char *getData(UINT c, UINT f, UINT a) { return t.getData(t.ctx, c, f, a); }
    virtual void setSideData(UINT s, UINT a, const char *d) { t.setSide(t.ctx, s, a, d); }
    virtual UINT getPriority(UINT c, UINT a) { return t.prio(t.ctx, c, a); }
    virtual void update(UINT c, UINT a, UINT adj[g_nFacePerCell], BoundaryType b[g_nFacePerCell])
    { int k[4]; for (int i = 0; i < 4; i++) k[i] = bt(b[i]); t.update(t.ctx, c, a, adj, k); }
};
}
extern "C" void *mcs_trav_new(int forward, int comm, uint64_t bytes) { return new GraphTraverser(forward ? Direction_Forward : Direction_Backward, comm != 0, bytes); }
extern "C" void mcs_trav_run(void *g, uint64_t maxStep, const McTrav *t) { Data d(*t); ((GraphTraverser *)g)->traverse(maxStep, d); }
