// Builds the mesh objects of a run with the program's own reader, preprocessor and problem class and prints what was built.
// argv[1]: file of run configurations, one JSON line per configuration on stdout.
#include "general_definitions.hpp"
#include "simulation/serial/simulation_base.hpp"
#include "simulation/serial/simulation.hpp"
#include "meshobj.hpp"

struct TP : PROBLEM {
    using B = PROBLEM;
    template <typename D, typename G, typename S, typename I>
    static void preprocessor_serial(D& d, G& g, S& st, const I& in) {
        B::preprocessor_serial(d, g, st, in);
        std::map<const void*, uint> id;
        s = "{";
        elements(d.mesh, id);
        s += ",\"int\":[";
        bool f = true;
        d.mesh.CallForEachInterface([&](auto& i) {
            s += f ? "{" : ",{";
            f = false;
            s += "\"t\":" + std::to_string(index_of<typename B::ProblemInterfaceTypes>(i));
            s += ",\"i\":" + std::to_string(id.at((const void*)&i.data_in)) + ",\"k\":" + std::to_string(i.bound_id_in);
            s += ",\"j\":" + std::to_string(id.at((const void*)&i.data_ex)) + ",\"l\":" + std::to_string(i.bound_id_ex);
            s += ",\"ni\":";
            mat(i.surface_normal_in);
            s += ",\"ne\":";
            mat(i.surface_normal_ex);
            s += ",\"xi\":";
            mat(i.ComputeFgpIN(Where()));
            s += ",\"xe\":";
            mat(i.ComputeFgpEX(Where()));
            s += ",\"a\":";
            ids(i.GetNodeIDIN());
            s += ",\"b\":";
            ids(i.GetNodeIDEX());
            s += "}";
        });
        s += "],\"bnd\":[";
        f = true;
        d.mesh.CallForEachBoundary([&](auto& i) {
            s += f ? "{" : ",{";
            f = false;
            s += "\"t\":" + std::to_string(index_of<typename B::ProblemBoundaryTypes>(i));
            s += ",\"i\":" + std::to_string(id.at((const void*)&i.data)) + ",\"k\":" + std::to_string(i.bound_id);
            s += ",\"ni\":";
            mat(i.surface_normal);
            s += ",\"xi\":";
            mat(i.ComputeFgp(Where()));
            s += ",\"a\":";
            ids(i.GetNodeID());
            s += "}";
        });
        s += "]";
#ifdef HAS_EDGES
        edges<B>(d.mesh_skeleton, id);
#endif
#ifdef HAS_NUMBERS
#ifdef GN_NUMBERS
        s += ",\"size\":" + std::to_string(g.w1_hat_rhs.size());
#else
        s += ",\"size\":" + std::to_string(g.rhs_global.size());
#endif
#endif
        s += "}";
    }
    template <typename D, typename G, typename S, typename W, typename P>
    static void step_serial(D&, G&, S&, W&, P&) {}
};

int main(int, char** argv) {
    std::ifstream jobs(argv[1]);
    std::string y;
    while (std::getline(jobs, y)) {
        s = "";
        try {
            Serial::Simulation<TP> sim(y);
            sim.Run();
        } catch (const std::exception& e) {
            s = "{\"err\":\"refused\"}";
        }
        printf("%s\n", s.c_str());
        fflush(stdout);
    }
    return 0;
}
