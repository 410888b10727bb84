#include "../api.hh"
#include "Global.hh"
#include "SweepSchedule.hh"
extern "C" void *mcs_sched_new(const uint64_t *angles, uint64_t n, uint64_t maxStep, uint64_t intra, uint64_t inter)
{ std::vector<UINT> a(angles, angles + n); return new SweepSchedule(a, maxStep, intra, inter); }
// out: nSteps, then per step: nWork, (cell, angle)*, nSend, ranks*, nRecv, ranks*
extern "C" void mcs_sched_dump(void *s, std::vector<uint64_t> &out)
{
    SweepSchedule &q = *(SweepSchedule *)s; out.clear(); out.push_back(q.nSteps());
    for (UINT i = 0; i < q.nSteps(); i++) {
        const auto &w = q.getWork(i); out.push_back(w.size()); for (const auto &x : w) { out.push_back(x.getCell()); out.push_back(x.getAngle()); }
        const auto &a = q.getSendProcs(i); out.push_back(a.size()); for (UINT x : a) out.push_back(x);
        const auto &b = q.getRecvProcs(i); out.push_back(b.size()); for (UINT x : b) out.push_back(x);
    }
}
