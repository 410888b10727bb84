#include "../api.hh"
#include "Global.hh"
#include "Util.hh"
#include "Problem.hh"
#include "PsiData.hh"
extern "C" double mcs_diff_groups(double *psi) { PsiData p(psi); return Util::diffBetweenGroups(p); }
extern "C" void mcs_psi2phi(double *phi, double *psi) { PsiData p(psi); PhiData f(phi); Util::psiToPhi(f, p); }
extern "C" void mcs_phi2psi(double *phi, double *psi) { PsiData p(psi); PhiData f(phi); Util::phiToPsi(f, p); }
extern "C" void mcs_total(double *src, double *phi, double *tot) { PsiData s(src), t(tot); PhiData f(phi); Util::calcTotalSource(s, f, t); }
extern "C" void mcs_opS(double *a, double *b) { PhiData x(a); if (a == b) Util::operatorS(x, x); else { PhiData y(b); Util::operatorS(x, y); } }
extern "C" double mcs_l2err(double *psi) { PsiData p(psi); return Problem::hatL2Error(p); }
extern "C" void mcs_source(double *src) { PsiData p(src); Problem::getSource(p); }
extern "C" void mcs_write_psi(double *psi, const char *name) { PsiData p(psi); p.writeToFile(name); }
