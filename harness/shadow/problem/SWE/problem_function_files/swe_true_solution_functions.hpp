// Stand-in for the user-editable function file: the function is chosen at run time by the harness.
#ifndef GN_TRUE_SOLUTION_FUNCTIONS_HPP
#define GN_TRUE_SOLUTION_FUNCTIONS_HPP

#include <functional>
#include "utilities/ignore.hpp"

namespace hook {
inline std::function<StatVector<double, 3>(double, const Point<2>&)>& true_q() {
    static std::function<StatVector<double, 3>(double, const Point<2>&)> f;
    return f;
}
}
namespace SWE {
inline StatVector<double, SWE::n_variables> true_q(const double t, const Point<2>& pt) {
    auto& f = hook::true_q();
    if (f)
        return f(t, pt);
    return StatVector<double, SWE::n_variables>{0.0, 0.0, 0.0};
}
}

#endif
