// Recording wrapper around the program's own problem classes: runs the real Simulation::Run loop and records the
// state of every element after the preprocessor and after every step, at full precision.
#ifndef VERIF_DRV_HPP
#define VERIF_DRV_HPP
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <map>
#include <mutex>

#ifndef PROBLEM
#define PROBLEM SWE::RKDG::Problem
#endif

namespace rec {
static FILE* out = stdout;
static std::mutex mtx;
static int poison_step = -1, poison_elt = -1, poison_var = 0, poison_dof = 0;  // fault injection (C20)
static bool dry_run = false;                                                   // only count steps (C09)
static std::map<std::string, std::vector<double>> ic;  // per-element initial vertex values "id" -> ze,qx,qy per vertex
static std::map<std::string, std::vector<uint>> ic_nodes;  // ... and the vertices they are listed for

template <typename S>
double time_of(const S& s) { return s.GetTimeAtCurrentStage(); }

inline void load_ic(const char* f) {
    std::ifstream in(f);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream ss(line);
        std::string id;
        ss >> id;
        const size_t colon = id.find(':');  // id:node,node,node
        if (colon != std::string::npos) {
            std::istringstream ns(id.substr(colon + 1));
            id = id.substr(0, colon);
            uint n;
            char comma;
            while (ns >> n) {
                ic_nodes[id].push_back(n);
                ns >> comma;
            }
        }
        double v;
        while (ss >> v)
            ic[id].push_back(v);
    }
}

// Set a piecewise linear initial state by vertex values (9 numbers per element, vertex-major)
template <typename Mesh>
void apply_ic(Mesh& mesh, uint step = 0) {
    if (ic.empty())
        return;
    mesh.CallForEachElement([step](auto& elt) {
        auto it = ic.find(std::to_string(elt.GetID()) + "@" + std::to_string(step));  // state for the given step only
        if (it == ic.end())
            it = ic.find(std::to_string(elt.GetID()));
        if (it == ic.end())
            return;
        if (SWE::PostProcessing::wetting_drying && !elt.data.wet_dry_state.wet && it->second.size() < 10)
            return;
        auto& state = elt.data.state[0];
        HybMatrix<double, SWE::n_variables> ql(SWE::n_variables, 3);
        const auto nodes = ic_nodes.find(it->first);
        for (uint v = 0; v < 3; ++v) {
            uint w = v;
            if (nodes != ic_nodes.end())
                for (uint k = 0; k < 3; ++k)
                    if (nodes->second[k] == elt.GetNodeID()[v])
                        w = k;
            for (uint k = 0; k < 3; ++k)
                ql(k, v) = it->second[3 * w + k];
        }
        state.q = elt.ProjectLinearToBasis(ql);
        if (it->second.size() > 9)
            elt.data.wet_dry_state.wet = it->second[9] != 0.0;
        for (uint k = 0; 10 + k < it->second.size() && columns(state.q) > 3; ++k)  // curvature
            state.q(k, 3) = it->second[10 + k];
    });
}

// the implicit discretization starts its face unknowns from the initial state
#ifdef IHDG_SUPPORT
template <typename Disc, typename Stepper>
void init_trace(Disc& d, const Stepper& s) {
    if (ic.empty())
        return;
    d.mesh_skeleton.CallForEachEdgeInterface([](auto& e) { e.interface.specialization.ComputeInitTrace(e); });
    d.mesh_skeleton.CallForEachEdgeBoundary([&s](auto& e) { e.boundary.boundary_condition.ComputeInitTrace(s, e); });
}
#else
template <typename Disc, typename Stepper>
void init_trace(Disc&, const Stepper&) {}
#endif

static bool reset_each = false;  // start every step from the injected initial state
static bool rec_stages = false;  // also record the nodal levels of the intermediate states
static bool rec_flux = false;  // also record the face fluxes of the (single) stage of each step

// Fluxes are left over where the kernels skip a face (both sides dry): clear them before the step.
template <typename Mesh>
void clear_flux(Mesh& mesh) {
    if (!rec_flux)
        return;
    mesh.CallForEachElement([](auto& elt) {
        for (auto& b : elt.data.boundary)
            set_constant(b.F_hat_at_gp, 0.0);
    });
}

// [id_in, face_in, id_ex, face_ex, (flux_in, flux_ex) per conserved variable]; boundaries have id_ex = -1, cut faces -2
template <typename Mesh>
std::string fluxes(Mesh& mesh) {
    std::map<const void*, uint> ids;
    mesh.CallForEachElement([&](auto& elt) { ids[(const void*)&elt.data] = elt.GetID(); });
    std::string s = ",\"fx\":[";
    bool first    = true;
    char b[80];
    auto num = [&](double v) {
        if (v != v)
            s += ",\"nan\"";
        else {
            snprintf(b, sizeof b, ",%.17g", v);
            s += b;
        }
    };
    mesh.CallForEachInterface([&](auto& i) {
        s += first ? "[" : ",[";
        first = false;
        snprintf(b, sizeof b, "%u,%u,%u,%u", ids[(const void*)&i.data_in], i.bound_id_in, ids[(const void*)&i.data_ex], i.bound_id_ex);
        s += b;
        for (uint k = 0; k < SWE::n_variables; ++k) {
            DynRowVector<double> a = row(i.data_in.boundary[i.bound_id_in].F_hat_at_gp, k);
            DynRowVector<double> c = row(i.data_ex.boundary[i.bound_id_ex].F_hat_at_gp, k);
            num(i.IntegrationIN(a));
            num(i.IntegrationEX(c));
        }
        s += "]";
    });
    mesh.CallForEachBoundary([&](auto& i) {
        s += first ? "[" : ",[";
        first = false;
        snprintf(b, sizeof b, "%u,%u,-1,-1", ids[(const void*)&i.data], i.bound_id);
        s += b;
        for (uint k = 0; k < SWE::n_variables; ++k) {
            DynRowVector<double> a = row(i.data.boundary[i.bound_id].F_hat_at_gp, k);
            num(i.Integration(a));
            num(0.0);
        }
        s += "]";
    });
    mesh.CallForEachDistributedBoundary([&](auto& i) {
        s += first ? "[" : ",[";
        first = false;
        snprintf(b, sizeof b, "%u,%u,-2,-2", ids[(const void*)&i.data], i.bound_id);
        s += b;
        for (uint k = 0; k < SWE::n_variables; ++k) {
            DynRowVector<double> a = row(i.data.boundary[i.bound_id].F_hat_at_gp, k);
            num(i.Integration(a));
            num(0.0);
        }
        s += "]";
    });
    return s + "]";
}

static bool rec_points = false;  // also record levels and mass fluxes at the points of inner faces

// [id_in, face_in, id_ex, face_ex, wet_in, wet_ex, [bed], [level in], [level ex], [mass flux in], [mass flux ex]] in the point
// order of the in side; half a cut face has id_ex = -2 and no ex lists
template <typename Mesh>
std::string points(Mesh& mesh) {
    std::map<const void*, uint> ids;
    mesh.CallForEachElement([&](auto& elt) { ids[(const void*)&elt.data] = elt.GetID(); });
    std::string s = ",\"gx\":[";
    bool first    = true;
    char b[96];
    auto list = [&](uint n, auto f) {
        s += ",[";
        for (uint g = 0; g < n; ++g) {
            double v = f(g);
            snprintf(b, sizeof b, v != v ? "%s\"nan\"" : "%s%.17g", g ? "," : "", v);
            s += b;
        }
        s += "]";
    };
    auto head = [&](uint i, uint k, int j, int l, int wi, int we) {
        snprintf(b, sizeof b, "%s[%u,%u,%d,%d,%d,%d", first ? "" : ",", i, k, j, l, wi, we);
        first = false;
        s += b;
    };
    mesh.CallForEachInterface([&](auto& i) {
        auto& bi = i.data_in.boundary[i.bound_id_in];
        auto& be = i.data_ex.boundary[i.bound_id_ex];
        uint n   = i.data_in.get_ngp_boundary(i.bound_id_in);
        head(ids[(const void*)&i.data_in], i.bound_id_in, ids[(const void*)&i.data_ex], i.bound_id_ex,
             i.data_in.wet_dry_state.wet, i.data_ex.wet_dry_state.wet);
        list(n, [&](uint g) { return bi.aux_at_gp(SWE::Auxiliaries::bath, g); });
        list(n, [&](uint g) { return bi.q_at_gp(SWE::Variables::ze, g); });
        list(n, [&](uint g) { return be.q_at_gp(SWE::Variables::ze, n - 1 - g); });
        list(n, [&](uint g) { return bi.F_hat_at_gp(SWE::Variables::ze, g); });
        list(n, [&](uint g) { return be.F_hat_at_gp(SWE::Variables::ze, n - 1 - g); });
        s += "]";
    });
    mesh.CallForEachDistributedBoundary([&](auto& i) {
        auto& bi = i.data.boundary[i.bound_id];
        uint n   = i.data.get_ngp_boundary(i.bound_id);
        head(ids[(const void*)&i.data], i.bound_id, -2, -2, i.data.wet_dry_state.wet, -1);
        list(n, [&](uint g) { return bi.aux_at_gp(SWE::Auxiliaries::bath, g); });
        list(n, [&](uint g) { return bi.q_at_gp(SWE::Variables::ze, g); });
        s += ",[]";
        list(n, [&](uint g) { return bi.F_hat_at_gp(SWE::Variables::ze, g); });
        s += ",[]]";
    });
    return s + "]";
}

template <typename Mesh, typename Stepper>
void dump(Mesh& mesh, const Stepper& stepper, uint step, int rank, int sub, bool full) {
    std::string s;
    char b[64];
    auto num = [&](double v) {
        if (v != v)
            s += "\"nan\"";
        else if (v > 1e300 || v < -1e300)
            s += "1e300";
        else {
            snprintf(b, sizeof b, "%.17g", v);
            s += b;
        }
    };
    snprintf(b, sizeof b, "{\"step\":%u,\"cstep\":%u,\"rank\":%d,\"sub\":%d,\"t\":", step, (uint)stepper.GetStep(), rank, sub);
    s += b;
    num(time_of(stepper));
    s += ",\"el\":[";
    bool first = true;
    mesh.CallForEachElement([&](auto& elt) {
        if (!first)
            s += ",";
        first      = false;
        auto& st   = elt.data.state[0];
        s += "{\"id\":" + std::to_string(elt.GetID());
        s += ",\"wet\":" + std::to_string((int)elt.data.wet_dry_state.wet);
        s += ",\"q\":[";
        for (uint k = 0; k < SWE::n_variables; ++k) {
            s += k ? ",[" : "[";
            for (uint d = 0; d < columns(st.q); ++d) {
                if (d) s += ",";
                num(st.q(k, d));
            }
            s += "]";
        }
        s += "],\"v\":[";
        auto ql = elt.ProjectBasisToLinear(st.q);
        for (uint k = 0; k < SWE::n_variables; ++k) {
            s += k ? ",[" : "[";
            for (uint d = 0; d < 3; ++d) {
                if (d) s += ",";
                num(ql(k, d));
            }
            s += "]";
        }
        s += "],\"I\":[";
        DynMatrix<double> ug = elt.ComputeUgp(st.q);
        for (uint k = 0; k < SWE::n_variables; ++k) {
            if (k) s += ",";
            DynRowVector<double> r = row(ug, k);
            num(elt.Integration(r));
        }
        s += "]";
        if (rec_stages) {
            s += ",\"sz\":[";
            for (uint k = 1; k < elt.data.state.size(); ++k) {
                auto sl = elt.ProjectBasisToLinear(elt.data.state[k].q);
                for (uint d = 0; d < 3; ++d) {
                    if (k + d > 1) s += ",";
                    num(sl(SWE::Variables::ze, d));
                }
            }
            s += "]";
        }
        if (full) {
            DynRowVector<double> one = row(ug, 0);
            for (uint g = 0; g < one.size(); ++g)
                one[g] = 1.0;
            s += ",\"area\":";
            num(elt.Integration(one));
            s += ",\"nodes\":[";
            for (uint n = 0; n < elt.GetNodeID().size(); ++n)
                s += (n ? "," : "") + std::to_string(elt.GetNodeID()[n]);
            s += "],\"xyz\":[";
            auto& nc = elt.GetShape().nodal_coordinates;
            for (uint n = 0; n < nc.size(); ++n) {
                s += n ? ",[" : "[";
                num(nc[n][0]);
                s += ",";
                num(nc[n][1]);
                s += ",";
                num(nc[n][2]);
                s += "]";
            }
            s += "]";
        }
        s += "}";
    });
    s += "]";
    if (rec_flux && !full)
        s += fluxes(mesh);
    if (rec_points && !full)
        s += points(mesh);
    s += "}\n";
    std::lock_guard<std::mutex> g(mtx);
    fwrite(s.data(), 1, s.size(), out);
    fflush(out);
}

template <typename Mesh>
void poison(Mesh& mesh, int step) {
    if (step != poison_step)
        return;
    mesh.CallForEachElement([](auto& elt) {
        if ((int)elt.GetID() == poison_elt)
            elt.data.state[0].q(poison_var, poison_dof) = std::nan("");
    });
}
inline void init_from_env() {
    if (getenv("REC_IC"))
        load_ic(getenv("REC_IC"));
    rec_flux = getenv("REC_FLUX") != nullptr;
    reset_each = getenv("REC_RESET") != nullptr;
    rec_points = getenv("REC_POINTS") != nullptr;
    rec_stages = getenv("REC_STAGES") != nullptr;
    if (getenv("REC_DRY"))
        dry_run = true;
    if (getenv("REC_POISON"))
        sscanf(getenv("REC_POISON"), "%d,%d,%d,%d", &poison_step, &poison_elt, &poison_var, &poison_dof);
}
}
#endif
