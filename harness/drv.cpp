// Serial recording driver: the real Serial::Simulation over a recording subclass of the problem.
#include "general_definitions.hpp"
#include "simulation/serial/simulation_base.hpp"
#include "simulation/serial/simulation.hpp"
#include "drv.hpp"
#include "cosfault.hpp"

struct TP : PROBLEM {
    using B = PROBLEM;
    static uint& count() { static uint c = 0; return c; }
    template <typename D, typename G, typename S, typename I>
    static void preprocessor_serial(D& d, G& g, S& s, const I& in) {
        B::preprocessor_serial(d, g, s, in);
        rec::apply_ic(d.mesh);
        rec::init_trace(d, s);
        if (!rec::dry_run)
            rec::dump(d.mesh, s, 0, 0, 0, true);
        rec::poison(d.mesh, 0);
    }
    template <typename D, typename G, typename S, typename W, typename P>
    static void step_serial(D& d, G& g, S& s, W& w, P& p) {
        ++count();
        if (rec::dry_run)
            return;
        if (rec::reset_each)
            rec::apply_ic(d.mesh, count());
        rec::clear_flux(d.mesh);
#ifdef REC_METEO
        metrec::subs.clear();
        metrec::follow(s);
        metrec::add(d.mesh);
#endif
        cosfault::begin(count());
        B::step_serial(d, g, s, w, p);
        cosfault::end();
        rec::dump(d.mesh, s, count(), 0, 0, false);
        rec::poison(d.mesh, count());
    }
};

int main(int argc, char** argv) {
    rec::init_from_env();
    cosfault::init(0);
    if (argc > 2)
        rec::out = fopen(argv[2], "w");
#ifdef REC_METEO
    metrec::open((std::string(argv[2]) + ".met").c_str());
#endif
    try {
        Serial::Simulation<TP> sim(argv[1]);
        sim.Run();
        if (rec::dry_run)
            fprintf(rec::out, "{\"steps\":%u}\n", TP::count());
        sim.Finalize();
    } catch (const std::exception& e) {
        fprintf(stderr, "EXCEPTION %s\n", e.what());
        return 3;
    }
    fclose(rec::out);
    return 0;
}
