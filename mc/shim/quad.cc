#include "../api.hh"
#include "Global.hh"
#include "Quadrature.hh"
extern "C" uint64_t mcs_quad(uint64_t order, std::vector<double> &out)     // mu, eta, xi, wt, omega[3] per direction
{
    Quadrature q(order); out.clear();
    for (UINT a = 0; a < g_nAngles; a++) { out.push_back(q.getMu(a)); out.push_back(q.getEta(a)); out.push_back(q.getXi(a)); out.push_back(q.getWt(a));
        std::vector<double> o = q.getOmega(a); for (int i = 0; i < 3; i++) out.push_back(o[i]); }
    return g_nAngles;
}
