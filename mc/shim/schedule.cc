// The arguments with which a run builds its sweep schedules: the constructor of SweepSchedule is wrapped at link time.
#include "../api.hh"
#include "Global.hh"
#include "SweepSchedule.hh"
void real_sched(SweepSchedule *, const std::vector<UINT> &, UINT, UINT, UINT) __asm__("__real__ZN13SweepScheduleC1ERKSt6vectorImSaImEEmmm") __attribute__((weak));
void wrap_sched(SweepSchedule *, const std::vector<UINT> &, UINT, UINT, UINT) __asm__("__wrap__ZN13SweepScheduleC1ERKSt6vectorImSaImEEmmm");
static int g_on; static std::vector<std::vector<uint64_t>> g_args;
extern "C" void mcs_sched_hook(int on) { g_on = on; g_args.clear(); }
extern "C" void mcs_sched_args(std::vector<std::vector<uint64_t>> &o) { o = g_args; }     // per schedule: limit, intra, inter, angles
void wrap_sched(SweepSchedule *s, const std::vector<UINT> &a, UINT n, UINT p, UINT q)
{
    if (g_on) { std::vector<uint64_t> v = {n, p, q}; v.insert(v.end(), a.begin(), a.end()); g_args.push_back(v); }
    if (real_sched) real_sched(s, a, n, p, q);
}
