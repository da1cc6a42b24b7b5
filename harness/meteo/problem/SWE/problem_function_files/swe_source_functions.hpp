// Source function used for recording only: contributes nothing, but is called with the time of every stage.
#ifndef GN_SOURCE_FUNCTIONS_HPP
#define GN_SOURCE_FUNCTIONS_HPP
#include "metrec.hpp"
namespace SWE {
inline StatVector<double, SWE::n_variables> source_q(const double t, const Point<2>&) {
    metrec::tick(t);
    return StatVector<double, SWE::n_variables>{0.0, 0.0, 0.0};
}
}
#endif
