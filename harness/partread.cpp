// Reads partitioner output back with the program's own readers and prints it as JSON.
#include "general_definitions.hpp"
#include "preprocessor/input_parameters.hpp"
#include "preprocessor/mesh_metadata.hpp"
#include "problem/SWE/problem_input/swe_inputs.hpp"
#include <cstdio>
#include <cstring>
static void u(uint x) {
    if (x == DEFAULT_ID)
        printf("-1");
    else
        printf("%u", x);
}
template <typename V>
static void vec(const char* n, const V& v) {
    printf("\"%s\":[", n);
    for (size_t i = 0; i < v.size(); ++i) {
        if (i)
            printf(",");
        u(v[i]);
    }
    printf("]");
}
static void mesh(const MeshMetaData& m) {
    printf("{\"name\":\"%s\",\"elts\":[", m.mesh_name.c_str());
    bool f = true;
    for (auto& e : m.elements) {
        printf("%s{\"id\":%u,", f ? "" : ",", e.first);
        vec("n", e.second.node_ID);
        printf(",");
        vec("nb", e.second.neighbor_ID);
        printf(",");
        vec("bt", e.second.boundary_type);
        printf("}");
        f = false;
    }
    printf("],\"nodes\":[");
    f = true;
    for (auto& n : m.nodes) {
        printf("%s{\"id\":%u,\"x\":\"%.15g %.15g %.15g\"}", f ? "" : ",", n.first, n.second.coordinates[0],
               n.second.coordinates[1], n.second.coordinates[2]);
        f = false;
    }
    printf("]}\n");
}
// args: job file; lines: "meta FILE" | "adc FILE" | "dbmd FILE loc sub" | "in FILE"
int main(int argc, char** argv) {
    std::ifstream jobs(argv[1]);
    std::string kind, file;
    while (jobs >> kind >> file) {
        try {
            if (kind == "meta") {
                mesh(MeshMetaData(file));
            } else if (kind == "adc") {
                mesh(MeshMetaData(AdcircFormat(file)));
            } else if (kind == "dbmd") {
                uint l, s;
                jobs >> l >> s;
                DistributedBoundaryMetaData d(file, l, s);
                printf("[");
                bool f = true;
                for (auto& r : d.rank_boundary_data) {
                    printf("%s{\"lin\":%u,\"sin\":%u,\"lex\":%u,\"sex\":%u,", f ? "" : ",", r.locality_in, r.submesh_in,
                           r.locality_ex, r.submesh_ex);
                    vec("ein", r.elements_in);
                    printf(",");
                    vec("eex", r.elements_ex);
                    printf(",");
                    vec("fin", r.bound_ids_in);
                    printf(",");
                    vec("fex", r.bound_ids_ex);
                    printf(",");
                    vec("p", r.p);
                    printf("}");
                    f = false;
                }
                printf("]\n");
            } else if (kind == "in") {
                InputParameters<> in(file);
                printf("{\"mesh\":\"%s\",\"fmt\":\"%s\",\"p\":%u}\n", in.mesh_input.mesh_file_name.c_str(),
                       in.mesh_input.mesh_format.c_str(), in.polynomial_order);
            }
        } catch (const std::exception& e) {
            printf("{\"err\":\"%s\"}\n", strlen(e.what()) ? "refused" : "");
        }
        fflush(stdout);
    }
    return 0;
}
