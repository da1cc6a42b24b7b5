// Distributed recording driver: the real OMPISimulation over a recording subclass of the problem.
#include <mpi.h>
#include <omp.h>
#ifdef HAS_PETSC
#include <petscksp.h>
#include <petsclog.h>
#endif
#include "general_definitions.hpp"
#include "simulation/ompi/simulation_ompi_base.hpp"
#include "simulation/ompi/simulation_ompi.hpp"
#include "drv.hpp"
#include "cosfault.hpp"

static int my_rank = 0;
#include "mpi_log.hpp"

#ifdef HAS_PETSC
// The program leaves its iterative linear solver at the library's default accuracy (1e-5); solving accurately here makes
// results comparable to rounding (linked with --wrap=KSPSolve).
extern "C" PetscErrorCode __real_KSPSolve(KSP, Vec, Vec);
extern "C" PetscErrorCode __wrap_KSPSolve(KSP k, Vec b, Vec x) {
    KSPSetTolerances(k, 1e-14, 1e-60, PETSC_DEFAULT, 2000);
    return __real_KSPSolve(k, b, x);
}
#endif

struct TP : PROBLEM {
    using B = PROBLEM;
    template <typename V>
    static uint g_nsub(const V& v) { return v.size(); }
    static std::vector<uint>& counts() { static std::vector<uint> c(4096, 0); return c; }
    template <typename V, typename G, typename S>
    static void preprocessor_ompi(V& su, G& g, const S& s, uint b, uint e) {
        B::preprocessor_ompi(su, g, s, b, e);
        for (uint i = b; i < e; ++i) {
            rec::apply_ic(su[i]->discretization.mesh);
            if (!rec::dry_run)
                rec::dump(su[i]->discretization.mesh, s, 0, my_rank, i, true);
            rec::poison(su[i]->discretization.mesh, 0);
        }
    }
    template <typename V, typename G, typename S>
    static void step_ompi(V& su, G& g, S& s, uint b, uint e) {
        mpilog::own(b, e, g_nsub(su));
        for (uint i = b; i < e; ++i)
            ++counts()[i];
        if (rec::dry_run)
            return;
        for (uint i = b; i < e; ++i)
            if (rec::reset_each)
                rec::apply_ic(su[i]->discretization.mesh, (uint)counts()[i]);
        for (uint i = b; i < e; ++i)
            rec::clear_flux(su[i]->discretization.mesh);
#ifdef REC_METEO
        metrec::subs.clear();
        metrec::follow(s);
        for (uint i = b; i < e; ++i)
            metrec::add(su[i]->discretization.mesh);
#endif
        cosfault::begin(b < e ? (int)counts()[b] : 0);
        B::step_ompi(su, g, s, b, e);
        cosfault::end();
        for (uint i = b; i < e; ++i) {
            rec::dump(su[i]->discretization.mesh, s, counts()[i], my_rank, i, false);
            rec::poison(su[i]->discretization.mesh, counts()[i]);
        }
    }
};

int main(int argc, char** argv) {
    rec::init_from_env();
    int provided;
    MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &provided);
#ifdef HAS_PETSC
    PetscInitialize(&argc, &argv, (char*)nullptr, nullptr);
#endif
    MPI_Comm_rank(MPI_COMM_WORLD, &my_rank);
    cosfault::init(my_rank);
    if (argc > 2)
        rec::out = fopen((std::string(argv[2]) + "." + std::to_string(my_rank)).c_str(), "w");
#ifdef REC_METEO
    metrec::open((std::string(argv[2]) + "." + std::to_string(my_rank) + ".met").c_str());
#endif
    int rc = 0;
    if (getenv("REC_MPI"))
        mpilog::init(std::string(argv[2]) + "." + std::to_string(my_rank) + ".mpi", atoi(getenv("REC_MPI")) * 1000 + my_rank);
    try {
        OMPISimulation<TP> sim(argv[1]);
        sim.Run();
        MPI_Barrier(MPI_COMM_WORLD);
        if (rec::dry_run) {
            fprintf(rec::out, "{\"steps\":[");
            for (uint i = 0; i < 64; ++i)
                fprintf(rec::out, "%s%u", i ? "," : "", TP::counts()[i]);
            fprintf(rec::out, "]}\n");
        }
        sim.Finalize();
    } catch (const std::exception& e) {
        fprintf(stderr, "EXCEPTION %s\n", e.what());
        fflush(stderr);
        MPI_Abort(MPI_COMM_WORLD, 3);
    }
    fclose(rec::out);
    mpilog::close();
#ifdef HAS_PETSC
    PetscFinalize();
#endif
    MPI_Finalize();
    return rc;
}
