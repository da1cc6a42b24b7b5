// Sends meshes and boundary lists through the program's own readers and writers, several times, and prints what was read as JSON.
#include "general_definitions.hpp"
#include "preprocessor/mesh_metadata.hpp"
#include <cstdio>
static std::string num(double x) {
    char b[64];
    snprintf(b, sizeof b, "%.17g", x);
    return b;
}
template <typename V>
static void vec(const V& v) {
    printf("[");
    bool f = true;
    for (auto x : v) {
        printf("%s\"%u\"", f ? "" : ",", (uint)x);
        f = false;
    }
    printf("]");
}
template <typename V>
static void vecs(const V& v) {
    printf("[");
    bool f = true;
    for (auto& x : v) {
        printf(f ? "" : ",");
        vec(x);
        f = false;
    }
    printf("]");
}
static void dump(const AdcircFormat& m) {
    printf("{\"name\":\"%s\",\"nodes\":[", m.name.c_str());
    bool f = true;
    for (auto& n : m.nodes) {
        printf("%s[\"%u\",\"%s\",\"%s\",\"%s\"]", f ? "" : ",", n.first, num(n.second[0]).c_str(), num(n.second[1]).c_str(), num(n.second[2]).c_str());
        f = false;
    }
    printf("],\"elts\":[");
    f = true;
    for (auto& e : m.elements) {
        printf("%s[\"%u\",\"%u\",\"%u\",\"%u\",\"%u\"]", f ? "" : ",", e.first, e.second[0], e.second[1], e.second[2], e.second[3]);
        f = false;
    }
    printf("],\"nope\":%u,\"neta\":\"%u\",\"open\":", m.NOPE, m.NETA);
    vecs(m.NBDV);
    printf(",\"nbou\":%u,\"nvel\":\"%u\",\"land\":[", m.NBOU, m.NVEL);
    for (uint s = 0; s < m.NBVV.size(); ++s) {
        bool lev = m.IBTYPE.at(s) % 10 == 4;
        printf("%s{\"t\":\"%u\",\"rows\":[", s ? "," : "", m.IBTYPE[s]);
        for (uint i = 0; i < m.NBVV[s].size(); ++i) {
            printf("%s[\"%u\"", i ? "," : "", m.NBVV[s][i]);
            if (lev)
                printf(",\"%u\",\"%s\",\"%s\",\"%s\"", m.IBCONN.at(s).at(i), num(m.BARINTH.at(s).at(i)).c_str(),
                       num(m.BARINCFSB.at(s).at(i)).c_str(), num(m.BARINCFSP.at(s).at(i)).c_str());
            printf("]");
        }
        printf("]}");
    }
    printf("],\"ngen\":%u,\"nngn\":\"%u\",\"gen\":", m.NGEN, m.NNGN);
    vecs(m.NBGN);
    printf("}");
}
static void dump(const MeshMetaData& m) {
    printf("{\"name\":\"%s\",\"elts\":[", m.mesh_name.c_str());
    bool f = true;
    for (auto& e : m.elements) {
        printf("%s{\"id\":\"%u\",\"n\":", f ? "" : ",", e.first);
        vec(e.second.node_ID);
        printf(",\"nb\":");
        vec(e.second.neighbor_ID);
        printf(",\"bt\":");
        vec(e.second.boundary_type);
        printf("}");
        f = false;
    }
    printf("],\"nodes\":[");
    f = true;
    for (auto& n : m.nodes) {
        auto& x = n.second.coordinates;
        printf("%s[\"%u\",\"%s\",\"%s\",\"%s\"]", f ? "" : ",", n.first, num(x[0]).c_str(), num(x[1]).c_str(), num(x[2]).c_str());
        f = false;
    }
    printf("]}");
}
template <typename M>
static void pass(const std::string& file, M m, uint gens) {
    printf("[");
    dump(m);
    for (uint g = 1; g <= gens; ++g) {
        std::string out = file + ".w" + std::to_string(g);
        m.write_to(out.c_str());
        M again(out);
        printf(",");
        dump(again);
        m = again;
    }
    printf("]");
}
// jobs: "a FILE gens" | "c FILE gens" (fort.14, to native form) | "m FILE gens" | "d FILE loc sub OUT"
int main(int argc, char** argv) {
    std::ifstream jobs(argv[1]);
    std::string kind, file;
    while (jobs >> kind >> file) {
        uint k, s;
        jobs >> k;
        printf("{\"read\":");
        try {
            if (kind == "a") {
                AdcircFormat a(file);
                pass(file, a, k);
            } else if (kind == "c") {
                pass(file, MeshMetaData(AdcircFormat(file)), k);
            } else if (kind == "m") {
                pass(file, MeshMetaData(file), k);
            } else {
                std::string out;
                jobs >> s >> out;
                DistributedBoundaryMetaData d(file, k, s);
                printf("[");
                bool f = true;
                for (auto& r : d.rank_boundary_data) {
                    printf("%s{\"mine\":[\"%u\",\"%u\"],\"other\":[\"%u\",\"%u\"],\"rows\":[", f ? "" : ",", r.locality_in, r.submesh_in, r.locality_ex, r.submesh_ex);
                    for (uint i = 0; i < r.elements_in.size(); ++i)
                        printf("%s[\"%u\",\"%u\",\"%u\",\"%u\",\"%u\"]", i ? "," : "", r.elements_in.at(i), r.elements_ex.at(i),
                               r.bound_ids_in.at(i), r.bound_ids_ex.at(i), r.p.at(i));
                    printf("]}");
                    f = false;
                }
                printf("]");
                // the rows in the program's own writing
                std::ifstream in(file);
                std::ofstream o(out);
                std::string line;
                while (std::getline(in, line)) {
                    std::stringstream h(line);
                    uint a[4], n;
                    h >> a[0] >> a[1] >> a[2] >> a[3] >> n;
                    o << line << '\n';
                    for (uint i = 0; i < n; ++i) {
                        DBPairMetaData p;
                        in >> p;
                        in.ignore(1000, '\n');
                        o << p << '\n';
                    }
                }
            }
            printf(",\"ok\":true}\n");
        } catch (const std::exception& e) {
            printf("null,\"ok\":false,\"err\":\"%s\"}\n", e.what()[0] ? "refused" : "");
        }
        fflush(stdout);
    }
    return 0;
}
