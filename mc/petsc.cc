// Minimal PETSc: GMRES(30), no preconditioner, on a shell matrix, reductions through the controlled MPI.
// Convergence test as in PETSc's default: residual <= max(rtol * ||b||, 1e-50), max iterations counted in total.
#include "fake/petscksp.h"
#include "rt.hh"
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <vector>
// PETSc keeps the norm of a vector until the vector is changed; an array that was taken is known to be changed when it is given back
struct mc_vec { int n, N; double *a; bool own; double norm; bool hasNorm; bool taken; };
struct mc_mat { int n, N; void *ctx; PetscErrorCode (*mult)(Mat, Vec, Vec); };
struct mc_ksp { Mat A; double rtol, atol, dtol; int maxit; bool nonzero; int its; double rnorm; int reason; };

std::vector<rt::KspRec> &rt::kspLog() { static std::vector<KspRec> l; return l; }
static double gdot(const double *a, const double *b, int n)
{
    double s = 0, r = 0; for (int i = 0; i < n; i++) s += a[i] * b[i];
    MPI_Allreduce(&s, &r, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
    return r;
}
extern "C" {
PetscErrorCode PetscInitialize(int *, char ***, const char *, const char *) { return 0; }
PetscErrorCode PetscFinalize(void) { return 0; }
PetscErrorCode PetscPopSignalHandler(void) { return 0; }
PetscErrorCode VecCreate(MPI_Comm, Vec *v) { *v = (mc_vec *)rt::memObj(sizeof(mc_vec)); return 0; }
PetscErrorCode VecSetSizes(Vec v, PetscInt n, PetscInt N)
{
    int s = 0; MPI_Allreduce(&n, &s, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
    if (N >= 0 && s != N) rt::fail(rt::ST_MPIERR, "PETSc: sum of local sizes %d differs from global size %d", s, N);
    v->n = n; v->N = s; return 0;
}
PetscErrorCode VecSetType(Vec v, VecType) { v->a = (double *)rt::memObj(v->n * sizeof(double)); v->own = true; return 0; }
PetscErrorCode VecDuplicate(Vec v, Vec *w) { *w = (mc_vec *)rt::memObj(sizeof(mc_vec)); (*w)->n = v->n; (*w)->N = v->N; (*w)->a = (double *)rt::memObj(v->n * sizeof(double)); (*w)->own = true; return 0; }
PetscErrorCode VecSet(Vec v, double x) { for (int i = 0; i < v->n; i++) v->a[i] = x; v->hasNorm = false; return 0; }
PetscErrorCode VecGetArray(Vec v, double **a) { *a = v->a; v->taken = true; return 0; }
PetscErrorCode VecRestoreArray(Vec v, double **a) { v->taken = v->hasNorm = false; if (a) *a = nullptr; return 0; }
PetscErrorCode VecGetArrayRead(Vec v, const double **a) { *a = v->a; return 0; }
PetscErrorCode VecRestoreArrayRead(Vec, const double **) { return 0; }
PetscErrorCode VecDestroy(Vec *v) { if (*v) { rt::memObjFree((*v)->a); rt::memObjFree(*v); *v = nullptr; } return 0; }
PetscErrorCode MatCreateShell(MPI_Comm, PetscInt m, PetscInt n, PetscInt M, PetscInt N, void *ctx, Mat *A)
{
    if (m != n || M != N) rt::fail(rt::ST_MPIERR, "PETSc: matrix is not square");
    *A = (mc_mat *)rt::memObj(sizeof(mc_mat)); (*A)->n = m; (*A)->N = M; (*A)->ctx = ctx; return 0;
}
PetscErrorCode MatShellSetOperation(Mat A, MatOperation op, void (*f)(void)) { if (op == MATOP_MULT) A->mult = (PetscErrorCode(*)(Mat, Vec, Vec))f; return 0; }
PetscErrorCode MatShellSetContext(Mat A, void *c) { A->ctx = c; return 0; }
PetscErrorCode MatShellGetContext(Mat A, void *c) { *(void **)c = A->ctx; return 0; }
PetscErrorCode MatDestroy(Mat *A) { rt::memObjFree(*A); *A = nullptr; return 0; }
PetscErrorCode KSPCreate(MPI_Comm, KSP *k) { *k = (mc_ksp *)rt::memObj(sizeof(mc_ksp)); (*k)->rtol = 1e-5; (*k)->atol = 1e-50; (*k)->dtol = 1e5; (*k)->maxit = 10000; return 0; }
PetscErrorCode KSPSetOperators(KSP k, Mat A, Mat) { k->A = A; return 0; }
PetscErrorCode KSPSetTolerances(KSP k, double r, double a, double d, PetscInt m)
{
    if (r != PETSC_DEFAULT) k->rtol = r;
    if (a != PETSC_DEFAULT) k->atol = a;
    if (d != PETSC_DEFAULT) k->dtol = d;
    if (m != PETSC_DEFAULT) k->maxit = m;
    return 0;
}
PetscErrorCode KSPSetType(KSP, KSPType) { return 0; }
PetscErrorCode KSPSetInitialGuessNonzero(KSP k, PetscBool b) { k->nonzero = b; return 0; }
PetscErrorCode KSPGetIterationNumber(KSP k, PetscInt *n) { *n = k->its; return 0; }
PetscErrorCode KSPGetResidualNorm(KSP k, PetscReal *r) { *r = k->rnorm; return 0; }
PetscErrorCode KSPGetConvergedReason(KSP k, KSPConvergedReason *r) { *r = k->reason; return 0; }
PetscErrorCode KSPDestroy(KSP *k) { rt::memObjFree(*k); *k = nullptr; return 0; }

static PetscErrorCode kspSolve(KSP k, Vec b, Vec x);
PetscErrorCode KSPSolve(KSP k, Vec b, Vec x)
{
    PetscErrorCode e = kspSolve(k, b, x);
    rt::kspLog().push_back(rt::KspRec{rt::curRank(), b->n, k->its, k->maxit, k->rtol, k->reason}); return e;
}
static PetscErrorCode kspSolve(KSP k, Vec b, Vec x)
{
    const int n = b->n, m = 30;
    if (!k->A->mult) rt::fail(rt::ST_MPIERR, "PETSc: no matrix operation");
    struct Basis { double *p = nullptr; void make(int n) { p = (double *)rt::memObj(n * sizeof(double)); } ~Basis() { rt::memObjFree(p); } double *data() { return p; } double &operator[](int i) { return p[i]; } };
    std::vector<Basis> V(m + 1); for (Basis &v : V) v.make(n);
    std::vector<double> H((m + 1) * m), cs(m), sn(m), g(m + 1);
    if (!k->nonzero) memset(x->a, 0, n * sizeof(double));
    if (!k->nonzero || !b->hasNorm) { b->norm = std::sqrt(gdot(b->a, b->a, n)); b->hasNorm = true; }
    double bn = b->norm; x->hasNorm = false;
    k->its = 0; k->reason = 0;
    double ttol = -1;
    mc_vec in{n, b->N, nullptr, false, 0, false, false}, out = in;
    bool guess = k->nonzero;
    for (;;) {
        // residual
        if (guess) { out.a = V[0].data(); k->A->mult(k->A, x, &out); for (int i = 0; i < n; i++) V[0][i] = b->a[i] - V[0][i]; }
        else for (int i = 0; i < n; i++) V[0][i] = b->a[i];
        guess = true;
        double r = std::sqrt(gdot(V[0].data(), V[0].data(), n));
        if (ttol < 0) { double r0 = bn > 0 ? bn : r; ttol = std::max(k->rtol * r0, k->atol); }
        k->rnorm = r;
        if (!(r == r)) { k->reason = -9; return 0; }
        if (r <= ttol) { k->reason = 2; return 0; }
        if (k->its >= k->maxit) { k->reason = -3; return 0; }
        for (int i = 0; i < n; i++) V[0][i] /= r;
        std::fill(g.begin(), g.end(), 0.0); g[0] = r;
        int j = 0; bool stop = false;
        while (j < m && !stop) {
            in.a = V[j].data(); out.a = V[j + 1].data();
            k->A->mult(k->A, &in, &out);
            k->its++;
            for (int pass = 0; pass < 2; pass++)
                for (int i = 0; i <= j; i++) {
                    double h = gdot(V[j + 1].data(), V[i].data(), n);
                    if (pass == 0) H[i * m + j] = h; else H[i * m + j] += h;
                    for (int q = 0; q < n; q++) V[j + 1][q] -= h * V[i][q];
                }
            double hn = std::sqrt(gdot(V[j + 1].data(), V[j + 1].data(), n));
            double scale = 0; for (int i = 0; i <= j; i++) scale = std::max(scale, std::fabs(H[i * m + j]));
            bool happy = hn <= 1e-14 * scale || hn == 0;
            if (!happy) for (int q = 0; q < n; q++) V[j + 1][q] /= hn;
            for (int i = 0; i < j; i++) { double t = cs[i] * H[i * m + j] + sn[i] * H[(i + 1) * m + j]; H[(i + 1) * m + j] = -sn[i] * H[i * m + j] + cs[i] * H[(i + 1) * m + j]; H[i * m + j] = t; if (i + 1 == j) { } }
            double a = H[j * m + j], d = std::sqrt(a * a + hn * hn);
            if (d == 0) { stop = true; k->reason = -5; break; }
            cs[j] = a / d; sn[j] = hn / d; H[j * m + j] = d;
            g[j + 1] = -sn[j] * g[j]; g[j] = cs[j] * g[j];
            k->rnorm = std::fabs(g[j + 1]);
            j++;
            if (!(k->rnorm == k->rnorm)) { k->reason = -9; return 0; }
            if (k->rnorm <= ttol || happy) { k->reason = 2; stop = true; }
            else if (k->its >= k->maxit) { k->reason = -3; stop = true; }
        }
        std::vector<double> y(m);
        for (int i = j - 1; i >= 0; i--) { double s = g[i]; for (int q = i + 1; q < j; q++) s -= H[i * m + q] * y[q]; y[i] = s / H[i * m + i]; }
        for (int i = 0; i < j; i++) for (int q = 0; q < n; q++) x->a[q] += y[i] * V[i][q];
        if (stop) return 0;
    }
}
}
