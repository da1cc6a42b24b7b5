// Drives the program's steppers: clock traces and order-condition values.
//   stepper clock <steps> <dt> <ramp_days> ; prints one JSON line per (kind, stages, order)
//   stepper order < trees.ndjson
#include "general_definitions.hpp"
#include "utilities/almost_equal.hpp"
#include "simulation/stepper/explicit_ssp_rk_stepper.hpp"
#include "simulation/stepper/implicit_stepper.hpp"
#include "simulation/stepper/second_strang_stepper.hpp"
#include <yaml-cpp/yaml.h>
#include <cstring>

struct St { DynMatrix<double> q, solution; };
struct Dat { std::vector<St> state; };
struct Elt { Dat data; };

Elt make(uint ns, uint nv) {
    Elt e;
    e.data.state.resize(ns + 1);
    for (auto& s : e.data.state) {
        s.q = DynMatrix<double>(1, nv); s.solution = DynMatrix<double>(1, nv);
        set_constant(s.q, 0.0); set_constant(s.solution, 0.0);
    }
    return e;
}
long q6(double x) { if (x != x) return 1999999999; x = std::floor(x * 1e6 + 0.5); return x > 2e9 ? 2000000000 : x < -2e9 ? -2000000000 : (long)x; }

struct Ev { std::string s; };
static double DT, RAMP;
double ramp_back(double ramp) { return RAMP == 0 ? ramp : std::atanh(ramp) * RAMP * 86400 / 2 / DT; }

template <typename S>
void ev(std::string& o, int m, const S& st, double y, uint gs) {
    char b[300];
    snprintf(b, sizeof b, "%s{\"m\":%d,\"st\":%u,\"sp\":%u,\"ts\":%u,\"t\":%ld,\"y\":%ld,\"r\":%ld,\"gs\":%u}", o.empty() ? "" : ",", m,
             st.GetStage(), st.GetStep(), st.GetTimestamp(), q6(st.GetTimeAtCurrentStage() / DT), q6(y / DT), q6(ramp_back(st.GetRamp())), gs);
    o += b;
}

struct ExDrv {  // y' = 1 through the real UpdateState
    Elt e;
    ExDrv(uint ns) : e(make(ns, 1)) {}
    double at(const ESSPRKStepper& s) { return e.data.state[s.GetStage()].q(0, 0); }
    void adv(ESSPRKStepper& s) {
        e.data.state[s.GetStage()].solution(0, 0) = 1.0;
        s.UpdateState(e);
        ++s;
    }
};

int main(int argc, char** argv) {
    if (!strcmp(argv[1], "clock")) {
        uint steps = atoi(argv[2]);
        DT = atof(argv[3]); RAMP = atof(argv[4]);
        for (const char* kind : {"explicit", "implicit", "strang"})
            for (uint s = 1; s <= 9; ++s)
                for (uint o = 1; o <= 5; ++o) {
                    StepperInput in;
                    in.nstages = s; in.order = o; in.dt = DT; in.ramp_duration = RAMP;
                    std::string out;
                    int ok = 1, theta = 0; uint nst = 0;
                    try {
                        if (!strcmp(kind, "explicit")) {
                            ESSPRKStepper st(in);
                            nst = st.GetNumStages();
                            ExDrv dr(nst);
                            ev(out, 0, st, dr.at(st), 0);
                            for (uint i = 0; i < steps * nst; ++i) { dr.adv(st); ev(out, 1, st, dr.at(st), 0); }
                        } else if (!strcmp(kind, "implicit")) {
                            ImplicitStepper st(in);
                            nst = st.GetNumStages(); theta = (int)std::floor(st.GetTheta() * 100 + 0.5);
                            ev(out, 0, st, 0, 0);
                            double prev = st.GetTimeAtNextStage();
                            for (uint i = 0; i < steps * nst; ++i) {
                                ++st;
                                // the time announced as "next" is the time reached
                                ev(out, 1, st, prev, 0);
                                if (std::abs(prev - st.GetTimeAtCurrentStage()) > 1e-9 * (1 + prev)) ok = 2;
                                double rn = st.GetRampNext();
                                double ex = RAMP == 0 ? 1. : std::tanh(2 * (st.GetTimeAtNextStage() / 86400) / RAMP);
                                if (std::abs(rn - ex) > 1e-12) ok = 2;
                                prev = st.GetTimeAtNextStage();
                            }
                        } else {
                            SecondStrangStepper<ESSPRKStepper, ESSPRKStepper> st(in);
                            auto& f = st.GetFirstStepper(); auto& g = st.GetSecondStepper();
                            nst = g.GetNumStages();
                            if (f.GetNumStages() != nst) ok = 2;
                            ExDrv df(nst), dg(nst);
                            ev(out, 0, f, df.at(f), st.GetStep());
                            for (uint i = 0; i < steps; ++i) {
                                for (uint k = 0; k < nst; ++k) { df.adv(f); ev(out, 1, f, df.at(f), st.GetStep()); }
                                for (uint k = 0; k < nst; ++k) { dg.adv(g); ev(out, 2, g, dg.at(g), st.GetStep()); }
                                for (uint k = 0; k < nst; ++k) { df.adv(f); ev(out, 1, f, df.at(f), st.GetStep()); }
                                if (std::abs(st.GetTimeAtCurrentStage() - g.GetTimeAtCurrentStage()) > 0) ok = 2;
                            }
                        }
                    } catch (const std::logic_error&) {
                        ok = 0; out = "";
                    }
                    if (ok == 0) out = "";
                    printf("{\"k\":\"%s\",\"s\":%u,\"o\":%u,\"ok\":%d,\"nst\":%u,\"theta\":%d,\"ramp\":%d,\"ev\":[%s]}\n", kind, s, o, ok, nst,
                           theta, RAMP != 0, out.c_str());
                }
        return 0;
    }
    // order conditions
    std::vector<YAML::Node> trees;
    std::string line;
    while (std::getline(std::cin, line))
        if (!line.empty()) trees.push_back(YAML::Load(line)["t"]);
    // flatten into equations: every subtree one unknown
    std::vector<std::vector<uint>> kids;
    std::function<uint(const YAML::Node&)> add = [&](const YAML::Node& n) {
        std::vector<uint> k;
        for (auto c : n) k.push_back(add(c));
        kids.push_back(k);
        return (uint)kids.size() - 1;
    };
    std::vector<uint> root;
    for (auto& t : trees) root.push_back(add(t));
    uint nv = kids.size();
    for (uint s = 1; s <= 9; ++s)
        for (uint o = 1; o <= 5; ++o)
            for (int h = 1; h <= 2; ++h)
              for (int sub = 1; sub <= 1; ++sub) {
                StepperInput in;
                in.nstages = s; in.order = o; in.dt = h == 1 ? 1.0 : 1.0; in.ramp_duration = 0;
                try {
                    ESSPRKStepper st(in);
                    Elt e = make(s, nv + 4);
                    // h = 1: one step of length 1 from t = 0.  h = 2: the equations are restarted at t = 1 with the
                    // clock running on, so that the second step exercises the state rotation as well.
                    for (int k = 0; k < h; ++k) {
                        if (k) set_constant(e.data.state[0].q, 0.0);
                        for (uint stg = 0; stg < s; ++stg) {
                            auto& q = e.data.state[st.GetStage()].q;
                            auto& so = e.data.state[st.GetStage()].solution;
                            for (uint v = 0; v < nv; ++v) {
                                double p = 1;
                                for (uint c : kids[v]) p *= q(0, c);
                                so(0, v) = p;
                            }
                            for (int m = 0; m < 4; ++m) so(0, nv + m) = std::pow(st.GetTimeAtCurrentStage() - k, m);
                            st.UpdateState(e);
                            ++st;
                        }
                    }
                    auto& q = e.data.state[0].q;
                    printf("{\"s\":%u,\"o\":%u,\"h\":1,\"rep\":%d,\"tree\":[", s, o, h);
                    for (uint t = 0; t < trees.size(); ++t) {
                        YAML::Emitter em; em << YAML::Flow << trees[t];
                        std::string txt = em.c_str();
                        double v = q(0, root[t]);
                        printf("%s{\"t\":%s,\"v\":%ld}", t ? "," : "", txt.c_str(), v != v || std::abs(v) > 2 ? 2000000000L : std::lround(v * 1e9));
                    }
                    printf("],\"f\":[");
                    for (int m = 0; m < 4; ++m) { double v = q(0, nv + m); printf("%s%ld", m ? "," : "", v != v || std::abs(v) > 2 ? 2000000000L : std::lround(v * 1e9)); }
                    printf("]}\n");
                } catch (const std::logic_error&) {}
              }
    return 0;
}
