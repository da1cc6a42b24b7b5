// Reads configuration files with the program's own reader and prints what it made of them: every setting, complaints, the settings the
// run then works with, and what is read from the file it writes out again. One line "PROBLEM FILE" per job on standard input.
#include "general_definitions.hpp"
#include "preprocessor/input_parameters.hpp"
#include "problem/definitions.hpp"
#include "problem/serial_functions.hpp"
#include <cstdio>
#include <iostream>
#include <sys/wait.h>
#include <unistd.h>
static std::string num(double x) {
    char b[64];
    snprintf(b, sizeof b, "%.17g", x);
    return b;
}
static std::string esc(const std::string& s) {
    std::string r;
    for (char c : s)
        if (c == '"' || c == '\\')
            r += std::string("\\") + c;
        else if ((unsigned char)c < 32)
            r += "?";
        else
            r += c;
    return r;
}
static bool first;
static void put(const char* k, const std::string& v) {
    printf("%s\"%s\":\"%s\"", first ? "" : ",", k, esc(v).c_str());
    first = false;
}
static void put(const char* k, double v) { put(k, num(v)); }
static void put(const char* k, uint v) { put(k, std::to_string(v)); }
static void put(const char* k, bool v) { put(k, std::string(v ? "1" : "0")); }
static void put(const char* k, const char* v) { put(k, std::string(v)); }
static std::string day(tm t) {
    long s = timegm(&t);
    long d = s >= 0 ? s / 86400 : -((-s + 86399) / 86400);
    return std::to_string(d) + " " + std::to_string(s - d * 86400);
}
template <typename I>
static void common(InputParameters<I>& i) {
    put("p", i.polynomial_order);
    put("format", i.mesh_input.mesh_format);
    put("file", i.mesh_input.mesh_file_name);
    put("~bcis", i.mesh_input.bc_is_file_name);
    put("~dbmd", i.mesh_input.db_file_name);
    auto s = i.mesh_input.mesh_coordinate_sys;
    put("system", s == CoordinateSystem::cartesian ? "cartesian" : s == CoordinateSystem::polar ? "polar" : s == CoordinateSystem::spherical ? "spherical" : "?");
    auto& t = i.stepper_input;
    put("start", day(t.T_start));
    put("end", day(t.T_end));
    put("run", t.run_time);
    put("dt", t.dt);
    put("order", t.order);
    put("nstages", t.nstages);
    put("ramp", t.ramp_duration);
    auto& w = i.writer_input;
    put("out", w.writing_output);
    put("out.path", w.output_path);
    put("log", w.writing_log_file);
    put("log.verbose", w.verbose_log_file);
    put("log.name", w.log_file_name);
    put("vtk", w.writing_vtk_output);
    put("vtk.freq", w.writing_vtk_output ? num(w.vtk_output_frequency) : "");
    put("vtk.step", w.writing_vtk_output ? std::to_string(w.vtk_output_freq_step) : "");
    put("vtu", w.writing_vtu_output);
    put("vtu.freq", w.writing_vtu_output ? num(w.vtu_output_frequency) : "");
    put("vtu.step", w.writing_vtu_output ? std::to_string(w.vtu_output_freq_step) : "");
    put("modal", w.writing_modal_output);
    put("modal.freq", w.writing_modal_output ? num(w.modal_output_frequency) : "");
    put("modal.step", w.writing_modal_output ? std::to_string(w.modal_output_freq_step) : "");
    auto& l = i.load_balancer_input;
    put("lb", l.use_load_balancer);
    put("lb.name", l.name);
    put("lb.freq", l.use_load_balancer ? num(l.rebalance_frequency) : "");
}
static void special(YamlNodeWrapper&) {}
static void special(SWE::Inputs& s) {
    using namespace SWE;
    put("name", s.name);
    put("g", s.g);
    put("rho_air", s.rho_air);
    put("rho_water", s.rho_water);
    put("sp.on", s.spherical_projection.type == SphericalProjectionType::Enable);
    put("sp.lon", s.spherical_projection.longitude_o);
    put("sp.lat", s.spherical_projection.latitude_o);
    put("sp.R", s.spherical_projection.R);
    auto i = s.initial_conditions.type;
    put("ic", i == InitialConditionsType::Default ? "Default" : i == InitialConditionsType::Constant ? "Constant" : i == InitialConditionsType::Function ? "Function" : "?");
    put("ic.ze", s.initial_conditions.ze_initial);
    put("ic.qx", s.initial_conditions.qx_initial);
    put("ic.qy", s.initial_conditions.qy_initial);
    put("fs", s.function_source.type == FunctionSourceType::Enable);
    auto b = s.bottom_friction.type;
    put("bf", b == BottomFrictionType::None ? "None" : b == BottomFrictionType::Chezy ? "Chezy" : b == BottomFrictionType::Manning ? "Manning" : "?");
    put("bf.C", s.bottom_friction.coefficient);
    put("bf.file", s.bottom_friction.manning_data_file);
    bool m = s.meteo_forcing.type == MeteoForcingType::Enable;
    put("met", m);
    put("met.type", s.meteo_forcing.meteo_data_type);
    put("met.raw", s.meteo_forcing.raw_meteo_data_file);
    put("met.file", s.meteo_forcing.meteo_data_file);
    put("met.freq", m ? num(s.meteo_forcing.frequency) : "");
    put("tp", s.tide_potential.type == TidePotentialType::None ? "None" : s.tide_potential.type == TidePotentialType::Test ? "Test" : "?");
    put("cor", s.coriolis.type == CoriolisType::Enable);
    put("wd", s.wet_dry.type == WettingDryingType::Enable);
    put("wd.h_o", s.wet_dry.h_o);
    put("sl", s.slope_limit.type == SlopeLimitingType::None ? "None" : s.slope_limit.type == SlopeLimitingType::CockburnShu ? "Cockburn-Shu" : "?");
    put("sl.M", s.slope_limit.M);
    put("sl.nu", s.slope_limit.nu);
}
template <typename I>
static void dump(const char* what, InputParameters<I>& i) {
    printf("\"%s\":{", what);
    first = true;
    common(i);
    special(i.problem_input);
    printf("}");
}
template <typename P, typename I>
static void applied(InputParameters<I>& i) {
    P::initialize_problem_parameters(i.problem_input);
    printf(",\"applied\":{");
    first = true;
    put("g", SWE::Global::g);
    put("rho_air", SWE::Global::rho_air);
    put("rho_water", SWE::Global::rho_water);
    put("fs", SWE::SourceTerms::function_source);
    put("bf", SWE::SourceTerms::bottom_friction);
    put("Cf", SWE::SourceTerms::Cf);
    put("met", SWE::SourceTerms::meteo_forcing);
    put("tp", SWE::SourceTerms::tide_potential);
    put("cor", SWE::SourceTerms::coriolis);
    put("wd", SWE::PostProcessing::wetting_drying);
    put("h_o", SWE::PostProcessing::h_o);
    put("sl", SWE::PostProcessing::slope_limiting);
    put("M", SWE::PostProcessing::M);
    put("nu", SWE::PostProcessing::nu);
    printf("}");
}
static void applied_none() {}
template <typename I, typename F>
static void job(const std::string& file, F apply) {
    InputParameters<I> a(file);
    printf("{\"ok\":true,");
    dump("read", a);
    apply(a);
    a.write_to(file + ".out");
    InputParameters<I> b(file + ".out");
    printf(",");
    dump("again", b);
    b.write_to(file + ".out2");
    printf("}\n");
}
int main() {
    std::string prob, file;
    while (std::cin >> prob >> file) {
        fflush(stdout);
        int pid = fork();
        if (!pid) {
            freopen((file + ".err").c_str(), "w", stderr);
            std::string buf;
            freopen((file + ".res").c_str(), "w", stdout);
            alarm(20);
            try {
                if (prob == "rkdg_swe")
                    job<SWE::Inputs>(file, [](auto& a) { applied<SWE::RKDG::Problem>(a); });
                else if (prob == "ehdg_swe")
                    job<SWE::Inputs>(file, [](auto& a) { applied<SWE::EHDG::Problem>(a); });
                else if (prob == "ihdg_swe")
                    job<SWE::Inputs>(file, [](auto& a) { applied<SWE::IHDG::Problem>(a); });
                else if (prob == "gn")
                    job<GN::Inputs>(file, [](auto& a) { applied<GN::EHDG::Problem>(a); });
                else
                    job<YamlNodeWrapper>(file, [](auto&) { applied_none(); });
                fflush(stdout);
                _exit(0);
            } catch (const std::exception& e) {
                fflush(stdout);
                fprintf(stderr, "REFUSED %s\n", e.what());
                fflush(stderr);
                _exit(3);
            }
        }
        int st;
        waitpid(pid, &st, 0);
        printf("%s %d %d\n", file.c_str(), WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0);
    }
}
