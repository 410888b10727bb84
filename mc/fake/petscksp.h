/* Minimal PETSc interface (GMRES on a shell matrix) of the model checker; see ../petsc.cc. */
#ifndef MC_FAKE_PETSC_H
#define MC_FAKE_PETSC_H
#include <mpi.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int PetscErrorCode;
typedef int PetscInt;
typedef double PetscScalar;
typedef double PetscReal;
typedef struct mc_vec *Vec;
typedef struct mc_mat *Mat;
typedef struct mc_ksp *KSP;
typedef enum { PETSC_FALSE, PETSC_TRUE } PetscBool;
typedef const char *VecType;
typedef const char *KSPType;
typedef int MatOperation;
typedef int KSPConvergedReason;
#define PETSC_DEFAULT (-2)
#define PETSC_DECIDE (-1)
#define PETSC_DETERMINE (-1)
#define VECMPI "mpi"
#define VECSEQ "seq"
#define VECSTANDARD "standard"
#define KSPGMRES "gmres"
#define MATOP_MULT 3
#define PETSC_COMM_WORLD MPI_COMM_WORLD
PetscErrorCode PetscInitialize(int*, char***, const char*, const char*);
PetscErrorCode PetscFinalize(void);
PetscErrorCode PetscPopSignalHandler(void);
PetscErrorCode VecCreate(MPI_Comm, Vec*);
PetscErrorCode VecSetSizes(Vec, PetscInt, PetscInt);
PetscErrorCode VecSetType(Vec, VecType);
PetscErrorCode VecSet(Vec, PetscScalar);
PetscErrorCode VecDuplicate(Vec, Vec*);
PetscErrorCode VecGetArray(Vec, PetscScalar**);
PetscErrorCode VecRestoreArray(Vec, PetscScalar**);
PetscErrorCode VecGetArrayRead(Vec, const PetscScalar**);
PetscErrorCode VecRestoreArrayRead(Vec, const PetscScalar**);
PetscErrorCode VecDestroy(Vec*);
PetscErrorCode MatCreateShell(MPI_Comm, PetscInt, PetscInt, PetscInt, PetscInt, void*, Mat*);
PetscErrorCode MatShellSetOperation(Mat, MatOperation, void (*)(void));
PetscErrorCode MatShellSetContext(Mat, void*);
PetscErrorCode MatShellGetContext(Mat, void*);
PetscErrorCode MatDestroy(Mat*);
PetscErrorCode KSPCreate(MPI_Comm, KSP*);
PetscErrorCode KSPSetOperators(KSP, Mat, Mat);
PetscErrorCode KSPSetTolerances(KSP, PetscReal, PetscReal, PetscReal, PetscInt);
PetscErrorCode KSPSetType(KSP, KSPType);
PetscErrorCode KSPSetInitialGuessNonzero(KSP, PetscBool);
PetscErrorCode KSPSolve(KSP, Vec, Vec);
PetscErrorCode KSPGetIterationNumber(KSP, PetscInt*);
PetscErrorCode KSPGetResidualNorm(KSP, PetscReal*);
PetscErrorCode KSPGetConvergedReason(KSP, KSPConvergedReason*);
PetscErrorCode KSPDestroy(KSP*);
#ifdef __cplusplus
}
#endif
#endif
