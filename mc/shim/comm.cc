#include "../api.hh"
#include "Global.hh"
#include "CommSides.hh"
#include "PsiData.hh"
extern "C" void *mcs_cs_new() { return new CommSides(); }
extern "C" void mcs_cs_run(void *c, double *psi, double *bound)
{
    PsiData p(psi); PsiBoundData b; for (size_t i = 0; i < b.size(); i++) b[i] = bound[i];
    ((CommSides *)c)->commSides(p, b);
    for (size_t i = 0; i < b.size(); i++) bound[i] = b[i];
}
extern "C" uint64_t mcs_bound_size() { PsiBoundData b; return b.size(); }
