// Builds the submeshes of a distributed run with the program's own preprocessor and prints the numbering of the face unknowns.
#include <mpi.h>
#include <omp.h>
#include <petscksp.h>
#include <petsclog.h>
#include <mutex>
#include "general_definitions.hpp"
#include "simulation/ompi/simulation_ompi_base.hpp"
#include "simulation/ompi/simulation_ompi.hpp"
#include "meshobj.hpp"
static int my_rank = 0;
static FILE* out;
static std::mutex mtx;

// (the other distributed drivers wrap the linear solver; nothing to change here)
extern "C" PetscErrorCode __real_KSPSolve(KSP, Vec, Vec);
extern "C" PetscErrorCode __wrap_KSPSolve(KSP k, Vec b, Vec x) { return __real_KSPSolve(k, b, x); }

struct TP : PROBLEM {
    using B = PROBLEM;
    template <typename V, typename G, typename S>
    static void preprocessor_ompi(V& su, G& g, const S& st, uint b, uint e) {
        B::preprocessor_ompi(su, g, st, b, e);
        PetscInt n = -1;
#ifdef GN_NUMBERS
        VecGetSize(g.w1_hat_rhs, &n);
#else
        VecGetSize(g.rhs_global, &n);
#endif
        for (uint x = b; x < e; ++x) {
            auto& d = su[x]->discretization;
            std::map<const void*, uint> id;
            s = "{\"rank\":" + std::to_string(my_rank) + ",\"sub\":" + std::to_string(x) + ",\"size\":" + std::to_string((long)n) + ",";
            elements(d.mesh, id);
            edges<B>(d.mesh_skeleton, id);
            s += ",\"edis\":[";
            bool f = true;
            d.mesh_skeleton.CallForEachEdgeDistributed([&](auto& ed) {
                auto& i = ed.boundary;
                s += f ? "{" : ",{";
                f = false;
                s += "\"t\":0,\"i\":" + std::to_string(id.at((const void*)&i.data)) + ",\"k\":" + std::to_string(i.bound_id);
                edge_tail(ed);
            });
            s += "]}\n";
            std::lock_guard<std::mutex> l(mtx);
            fwrite(s.data(), 1, s.size(), out);
            fflush(out);
        }
    }
    template <typename V, typename G, typename S>
    static void step_ompi(V&, G&, S&, uint, uint) {}
};

int main(int argc, char** argv) {
    int provided;
    MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &provided);
    PetscInitialize(&argc, &argv, (char*)nullptr, nullptr);
    MPI_Comm_rank(MPI_COMM_WORLD, &my_rank);
    out = fopen((std::string(argv[2]) + "." + std::to_string(my_rank)).c_str(), "w");
    try {
        OMPISimulation<TP> sim(argv[1]);
        sim.Run();
        MPI_Barrier(MPI_COMM_WORLD);
        sim.Finalize();
    } catch (const std::exception& e) {
        fprintf(stderr, "EXCEPTION %s\n", e.what());
        fflush(stderr);
        MPI_Abort(MPI_COMM_WORLD, 3);
    }
    fclose(out);
    PetscFinalize();
    MPI_Finalize();
    return 0;
}
