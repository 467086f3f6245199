// Stand-in for the user-editable function file: the function is chosen at run time by the harness.
#ifndef GN_INITIAL_CONDITION_FUNCTIONS_HPP
#define GN_INITIAL_CONDITION_FUNCTIONS_HPP

#include <functional>
#include "utilities/ignore.hpp"

namespace hook {
inline std::function<StatVector<double, 3>(double, const Point<2>&)>& ic_q() {
    static std::function<StatVector<double, 3>(double, const Point<2>&)> f;
    return f;
}
}
namespace SWE {
inline StatVector<double, SWE::n_variables> ic_q(const double t, const Point<2>& pt) {
    auto& f = hook::ic_q();
    if (f)
        return f(t, pt);
    return StatVector<double, SWE::n_variables>{0.0, 0.0, 0.0};
}
}

#endif
