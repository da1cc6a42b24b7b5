// Steps of the dispersive program: the real step ("real"), or its two operators applied one by one ("S" half a
// shallow-water step, "D" the dispersive correction), recording every element and both clocks after each.
//   gnstep in.yml out ; GN_ACTS = "real" or a word such as "SDS" ; GN_POLY = polynomial initial state ; GN_GP = record points
#include "general_definitions.hpp"
#include "simulation/serial/simulation_base.hpp"
#include "simulation/serial/simulation.hpp"
#include "drv.hpp"
#include "cosfault.hpp"

static std::string acts = "real";
static bool points = false;
struct Mono { int v, i, j; double c; };
static std::vector<Mono> poly;
static double PX, PY, PL, PC, PS;

static void load_poly(const char* f) {
    std::ifstream in(f);
    in >> PX >> PY >> PL >> PC >> PS;
    Mono m;
    while (in >> m.v >> m.i >> m.j >> m.c)
        poly.push_back(m);
}

template <typename Mesh>
void put_poly(Mesh& mesh) {
    if (poly.empty())
        return;
    mesh.CallForEachElement([](auto& elt) {
        elt.data.state[0].q = elt.L2ProjectionF([](const Point<2>& p) {
            double s = ((p[0] - PX) * PC + (p[1] - PY) * PS) / PL, t = (-(p[0] - PX) * PS + (p[1] - PY) * PC) / PL, v[3] = {0, 0, 0};
            for (auto& m : poly)
                v[m.v] += m.c * std::pow(s, m.i) * std::pow(t, m.j);
            StatVector<double, SWE::n_variables> r{v[0], PC * v[1] - PS * v[2], PS * v[1] + PC * v[2]};
            return r;
        });
    });
}

template <typename Mesh, typename Stepper>
void put(Mesh& mesh, Stepper& st, uint step, char act) {
    std::string s;
    char b[200];
    auto num = [&](double v) {
        snprintf(b, sizeof b, v != v ? "\"nan\"" : "%.17g", v);
        s += b;
    };
    snprintf(b, sizeof b, "{\"step\":%u,\"act\":\"%c\",\"fs\":%u,\"ft\":%.17g,\"ss\":%u,\"st\":%.17g,\"cs\":%u,\"ct\":%.17g,\"el\":[", step, act,
             (uint)st.GetFirstStepper().GetStep(), st.GetFirstStepper().GetTimeAtCurrentStage(), (uint)st.GetSecondStepper().GetStep(),
             st.GetSecondStepper().GetTimeAtCurrentStage(), (uint)st.GetStep(), st.GetTimeAtCurrentStage());
    s += b;
    bool first = true;
    mesh.CallForEachElement([&](auto& elt) {
        auto& q = elt.data.state[0].q;
        s += (first ? "{\"id\":" : ",{\"id\":") + std::to_string(elt.GetID()) + ",\"wet\":" + std::to_string((int)elt.data.wet_dry_state.wet) +
             ",\"on\":" + std::to_string((int)elt.data.source.dispersive_correction) + ",\"q\":[";
        first = false;
        for (uint k = 0; k < SWE::n_variables; ++k) {
            s += k ? ",[" : "[";
            for (uint d = 0; d < columns(q); ++d) {
                if (d) s += ",";
                num(q(k, d));
            }
            s += "]";
        }
        s += "]";
        if (points) {
            DynMatrix<double> u = elt.ComputeUgp(q);
            DynMatrix<double> x = elt.ComputeFgp([](const Point<2>& p) { return StatVector<double, 2>{p[0], p[1]}; });
            s += ",\"gp\":[";
            for (uint g = 0; g < columns(u); ++g) {
                s += g ? ",[" : "[";
                num(x(0, g)); s += ","; num(x(1, g)); s += ",";
                num(u(0, g)); s += ","; num(u(1, g)); s += ","; num(u(2, g));
                s += "]";
            }
            s += "]";
        }
        s += "}";
    });
    s += "]}\n";
    fwrite(s.data(), 1, s.size(), rec::out);
    fflush(rec::out);
}

struct TP : PROBLEM {
    using B = PROBLEM;
    static uint& count() { static uint c = 0; return c; }
    template <typename D, typename G, typename S, typename I>
    static void preprocessor_serial(D& d, G& g, S& s, const I& in) {
        B::preprocessor_serial(d, g, s, in);
        rec::apply_ic(d.mesh);
        put_poly(d.mesh);
        put(d.mesh, const_cast<std::remove_const_t<S>&>(s), 0, 'I');
    }
    template <typename D, typename G, typename S, typename W, typename P>
    static void step_serial(D& d, G& g, S& s, W& w, P& p) {
        ++count();
        if (rec::reset_each)
            rec::apply_ic(d.mesh, count());
        if (acts == "real") {
            B::step_serial(d, g, s, w, p);
            put(d.mesh, s, count(), 'R');
            return;
        }
        for (char a : acts) {
            if (a == 'S')
                for (uint k = 0; k < s.GetFirstStepper().GetNumStages(); ++k)
                    SWE_SIM::Problem::stage_serial(d, g, s.GetFirstStepper());
            else
                for (uint k = 0; k < s.GetSecondStepper().GetNumStages(); ++k)
                    B::dispersive_correction_serial(d, g, s.GetSecondStepper());
            put(d.mesh, s, count(), a);
        }
    }
};

int main(int argc, char** argv) {
    rec::init_from_env();
    cosfault::init(0);
    if (getenv("GN_ACTS")) acts = getenv("GN_ACTS");
    if (getenv("GN_POLY")) load_poly(getenv("GN_POLY"));
    points = getenv("GN_GP") != nullptr;
    if (argc > 2)
        rec::out = fopen(argv[2], "w");
    try {
        Serial::Simulation<TP> sim(argv[1]);
        sim.Run();
        sim.Finalize();
    } catch (const std::exception& e) {
        fprintf(stderr, "EXCEPTION %s\n", e.what());
        return 3;
    }
    fclose(rec::out);
    return 0;
}
