// linear solves of the distributed program to rounding accuracy
#include <petscksp.h>
extern "C" PetscErrorCode __real_KSPSolve(KSP, Vec, Vec);
extern "C" PetscErrorCode __wrap_KSPSolve(KSP k, Vec b, Vec x) {
    KSPSetTolerances(k, 1e-14, 1e-60, PETSC_DEFAULT, 2000);
    return __real_KSPSolve(k, b, x);
}
