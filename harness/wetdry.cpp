// Drives the real wetting-drying kernel on elements prepared by the real preprocessor.
// argv: input.yml vectors out. vector line: stage eid wet ze0 ze1 ze2 qx0 qx1 qx2 qy0 qy1 qy2 noise
#include "general_definitions.hpp"
#include "simulation/serial/simulation_base.hpp"
#include "simulation/serial/simulation.hpp"
#include <cstdio>
#include <fstream>
#include <map>
#include <vector>

static const char* vecfile;
static FILE* out;

struct TP : PROBLEM {
    using B = PROBLEM;
    template <typename D, typename G, typename S, typename W, typename P>
    static void step_serial(D& d, G& g, S& s, W& w, P& p) {
        static bool done = false;
        if (done)
            return;
        done = true;
        struct V {
            uint wet;
            double x[9], noise;
        };
        std::map<uint, std::map<uint, std::vector<std::pair<uint, V>>>> vec;
        std::ifstream in(vecfile);
        uint st, id, n = 0;
        V v;
        while (in >> st >> id >> v.wet) {
            for (double& x : v.x)
                in >> x;
            in >> v.noise;
            vec[st][id].push_back({n++, v});
        }
        for (auto& byst : vec) {
            while (s.GetStage() < byst.first)
                ++s;
            d.mesh.CallForEachElement([&](auto& elt) {
                for (auto& nv : byst.second[elt.GetID()]) {
                    const V& v  = nv.second;
                    auto& state = elt.data.state[s.GetStage()];
                    auto& wd    = elt.data.wet_dry_state;
                    HybMatrix<double, SWE::n_variables> ql(SWE::n_variables, 3);
                    for (uint k = 0; k < 3; ++k)
                        for (uint i = 0; i < 3; ++i)
                            ql(k, i) = v.x[3 * k + i];
                    state.q = elt.ProjectLinearToBasis(ql);
                    for (uint dof = 3; dof < columns(state.q); ++dof)
                        for (uint k = 0; k < 3; ++k)
                            state.q(k, dof) += v.noise * (((dof * 7 + k * 3 + nv.first) % 5) - 2.0);
                    // work space left over from another element or stage
                    wd.went_completely_dry = nv.first % 2;
                    set_constant(wd.q_at_vrtx, 17.0);
                    set_constant(wd.q_lin, -17.0);
                    for (auto& h : wd.h_at_vrtx)
                        h = 3.0;
                    for (auto& h : wd.h_at_vrtx_temp)
                        h = -3.0;
                    wd.wet   = v.wet;
                    auto q0  = state.q;
                    auto vol = [&](const auto& q, uint k) {
                        DynMatrix<double> u   = elt.ComputeUgp(q);
                        DynRowVector<double> r = row(u, k);
                        double a              = elt.Integration(r);
                        for (uint g = 0; g < r.size(); ++g)
                            r[g] = 1.0;
                        double b = elt.Integration(r);
                        return a / b;
                    };
                    std::vector<decltype(state.q)> others;
                    for (uint k = 0; k < elt.data.state.size(); ++k)
                        others.push_back(elt.data.state[k].q);
                    SWE::wetting_drying_kernel(s, elt);
                    bool same = true, alien = false;
                    for (uint i = 0; i < columns(q0); ++i)
                        for (uint k = 0; k < SWE::n_variables; ++k)
                            same = same && q0(k, i) == state.q(k, i);
                    for (uint j = 0; j < elt.data.state.size(); ++j)
                        if (j != s.GetStage())
                            for (uint i = 0; i < columns(q0); ++i)
                                for (uint k = 0; k < SWE::n_variables; ++k)
                                    alien = alien || !(others[j](k, i) == elt.data.state[j].q(k, i) ||
                                                       (others[j](k, i) != others[j](k, i)));
                    double hi = 0;
                    for (uint i = 3; i < columns(q0); ++i)
                        for (uint k = 0; k < SWE::n_variables; ++k)
                            hi = std::max(hi, std::abs(state.q(k, i)));
                    auto l = elt.ProjectBasisToLinear(state.q);
                    fprintf(out, "{\"k\":%u,\"wet\":%d,\"same\":%d,\"alien\":%d,\"hi\":%.17g,\"v\":[", nv.first, (int)wd.wet,
                            (int)same, (int)alien, hi);
                    for (uint k = 0; k < 3; ++k)
                        for (uint i = 0; i < 3; ++i)
                            fprintf(out, "%s%.17g", k + i ? "," : "", l(k, i));
                    fprintf(out, "],\"m\":[");
                    for (uint k = 0; k < 3; ++k)
                        fprintf(out, "%s%.17g,%.17g", k ? "," : "", vol(q0, k), vol(state.q, k));
                    fprintf(out, "]}\n");
                }
            });
        }
    }
};

int main(int, char** argv) {
    vecfile = argv[2];
    out     = fopen(argv[3], "w");
    Serial::Simulation<TP> sim(argv[1]);
    sim.Run();
    sim.Finalize();
    fclose(out);
    return 0;
}
