#include "runs.hh"
#include <map>
using namespace rt;
RMesh &meshOf(const std::string &n) { static std::map<std::string, RMesh> m; auto it = m.find(n); if (it == m.end()) it = m.emplace(n, makeMesh(n)).first; return it->second; }
bool isPBJ(const std::string &s) { return s.rfind("PBJ", 0) == 0; }
bool isSchur(const std::string &s) { return s.rfind("Schur", 0) == 0; }
bool isFull(const std::string &s) { return !isPBJ(s) && !isSchur(s); }
std::string RunCase::name() const
{
    static const char *mn[] = {"eager", "sync", "choose", "chooseS"};
    return fmt("%s/%s/%s.%s/o%u/t%d/m%d/p%d%d/%s/%s%d/n%d/g%d/e%s/%s%s%s/d%d", sweep.c_str(), mpi == "TychoTwoSided" ? "T" : mpi == "CapsaicinTwoSided" ? "C" : mpi.c_str(), mesh.c_str(), partName(part).c_str(), order, thr, maxc, intra, inter, mn[mode], si ? "si" : "kr", iterMax, sn, ng, errMax.c_str(), elim.c_str(),
               isFull(sweep) ? "" : fmt("/dd%d", ddIter).c_str(), s1 != 0.02 ? fmt("/s%g,%g,%g,%g", t1, s1, t2, s2).c_str() : "", dev);
}
Deck RunCase::deck() const
{
    auto d2 = [](double x) { return fmt("%.17g", x); };
    Deck d = {{"snOrder", std::to_string(sn)}, {"SweepType", sweep}, {"MPIType", mpi}, {"maxCellsPerStep", std::to_string(maxc)}, {"intraAngleP", std::to_string(intra)}, {"interAngleP", std::to_string(inter)}, {"iterMax", std::to_string(iterMax)}, {"errMax", errMax},
        {"nGroups", std::to_string(ng)}, {"SourceIteration", si ? "true" : "false"}, {"DD_IterMax", std::to_string(ddIter)}, {"DD_ErrMax", ddErr}, {"GaussElim", elim}, {"sigmaT1", d2(t1)}, {"sigmaS1", d2(s1)}, {"sigmaT2", d2(t2)}, {"sigmaS2", d2(s2)}};
    for (auto &x : more) d.push_back(x);
    return d;
}
Config RunCase::cfg() const
{
    Config c; c.nRanks = np; c.nThreads = thr; c.sendMode = mode; c.race = race; c.strictLevel = strictLevel; c.strictBuf = strictBuf; return c;
}
const std::vector<double> &reference(const RunCase &k)
{
    static std::map<std::string, std::vector<double>> refs;
    std::string key = fmt("%s/%d/%d/%d/%g/%g/%g/%g", k.mesh.c_str(), k.sn, k.ref == RunCase::CONVERGED ? 0 : k.iterMax, (int)k.ref, k.t1, k.s1, k.t2, k.s2);
    auto it = refs.find(key); if (it != refs.end()) return it->second;
    RProblem P(meshOf(k.mesh), k.sn, k.t1, k.s1, k.t2, k.s2);
    if (!P.acyclic() || P.minDot() < 1e-7) { fprintf(stderr, "mesh %s is not usable with order %d (cyclic or a face parallel to a direction)\n", k.mesh.c_str(), k.sn); exit(2); }
    auto &R = refs[key] = k.ref == RunCase::CONVERGED ? P.converged() : P.iterate(k.iterMax);
    std::vector<char> lit(P.m->nc()); int n = 0; for (int c = 0; c < P.m->nc(); c++) for (int i = 0; i < P.na() * 4 && !lit[c]; i++) if (R[(size_t)c * P.na() * 4 + i] != 0) { lit[c] = 1; n++; }
    if (k.iterMax > 0 && n < P.m->nc()) { fprintf(stderr, "mesh %s: only %d of %d cells have a flux\n", k.mesh.c_str(), n, P.m->nc()); if (!n) exit(2); }
    return R;
}
Scenario runScenario(const RunCase &k, std::function<void(const RunCase &)> extra)
{
    Scenario s; s.name = k.name(); s.maxDev = k.dev; s.maxExec = k.cap;
    std::string deck = deckFile(k.deck()); auto pm = std::make_shared<std::vector<char>>(pmeshBytes(meshOf(k.mesh), k.part, k.np, k.order));
    bool ref = k.ref != RunCase::NONE; if (ref) s.prepare = [k] { reference(k); };
    Config c = k.cfg();
    s.body = [=] { runMain(c, *pm, deck); if (extra) extra(k); else if (ref) checkPsi(readPsi("out.psi"), reference(k), k.ng, k.tol, k.ref == RunCase::CONVERGED ? "converged solve" : "sweep"); countCase(); };
    return s;
}
