// Stand-in for METIS: hands back the assignment listed in the file named by METIS_STUB (one line per call).
#ifndef VERIF_METIS_H
#define VERIF_METIS_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
#include <numeric>
typedef int64_t idx_t;
typedef double real_t;
#define METIS_NOPTIONS 40
#define METIS_OK 1
static inline int METIS_SetDefaultOptions(idx_t* o) {
    for (int i = 0; i < METIS_NOPTIONS; ++i)
        o[i] = -1;
    return METIS_OK;
}
static inline int METIS_PartGraphKway(idx_t* nvtxs, idx_t*, idx_t* xadj, idx_t* adj, idx_t*, idx_t*, idx_t*, idx_t* nparts,
                                      real_t*, real_t*, idx_t*, idx_t* objval, idx_t* part) {
    static int call = 0;
    std::ifstream f(getenv("METIS_STUB"));
    std::string line;
    for (int i = 0; i <= call; ++i)
        std::getline(f, line);
    ++call;
    std::stringstream s(line);
    for (idx_t i = 0; i < *nvtxs; ++i) {
        idx_t v = 0;
        s >> v;
        part[i] = v % *nparts;
        for (idx_t k = xadj[i]; k < xadj[i + 1]; ++k)
            if (adj[k] < 0 || adj[k] >= *nvtxs) {
                fprintf(stderr, "graph with an edge out of range\n");
                exit(9);
            }
    }
    *objval = 0;
    return METIS_OK;
}
#endif
