// Records the nodal meteorological forcing held by the elements whenever a source term is evaluated.
#ifndef METREC_HPP
#define METREC_HPP
#include <cstdio>
#include <functional>
#include <string>
#include <vector>
namespace metrec {
static FILE* out = nullptr;
static std::vector<std::function<void(std::string&)>> subs;
static std::function<double()> clock;  // time at which the current stage starts
static double last_t = -1.0;
static std::string last;
template <typename S>
auto follow(const S& s) -> decltype(s.GetFirstStepper(), void()) {
    clock = [&s]() { return s.GetFirstStepper().GetTimeAtCurrentStage(); };
}
template <typename S>
auto follow(const S& s) -> decltype(s.GetStage(), void()) {
    clock = [&s]() { return s.GetTimeAtCurrentStage(); };
}
inline void tick(double) {
    if (!out || !clock)
        return;
    double t = clock();
    std::string s;
    for (auto& f : subs)
        f(s);
    if (t == last_t && s == last)
        return;
    last_t = t;
    last   = s;
    fprintf(out, "{\"t\":%.17g,\"el\":[%s]}\n", t, s.c_str());
    fflush(out);
}
template <typename M>
void add(M& mesh) {
    subs.push_back([&mesh](std::string& s) {
        mesh.CallForEachElement([&s](auto& elt) {
            char b[160];
            s += (s.empty() ? "" : ",") + std::string("{\"id\":") + std::to_string(elt.GetID()) + ",\"v\":[";
            for (uint n = 0; n < elt.GetNodeID().size(); ++n) {
                snprintf(b, sizeof b, "%s[%u,%.17g,%.17g,%.17g]", n ? "," : "", elt.GetNodeID()[n], elt.data.source.tau_s[n][0],
                         elt.data.source.tau_s[n][1], elt.data.source.p_atm[n]);
                s += b;
            }
            s += "]}";
        });
    });
}
inline void open(const char* f) { out = fopen(f, "w"); }
}
#endif
