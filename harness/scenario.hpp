#pragma once
// Generated whole runs: meshes, states, options. PROB, PROBNAME, PROBTAG, KIND (0 RKDG, 1 EHDG, 2 IHDG, 3 GN) are set by the including file.
#include "sim.hpp"
#include "utilities/file_exists.hpp"

#define LAWX_(prop, name, tag, rule, nq, nt) LAW(prop, name##_##tag, rule, nq, nt)
#define LAWX(prop, name, tag, rule, nq, nt) LAWX_(prop, name, tag, rule, nq, nt)

namespace {
using namespace sim;
using Prob = PROB;
using SimP = Sim<Prob>;

struct Scn {
    mg::Mesh m;
    Cfg c;
    double D, L, cs, h, low;  // low: a still-water depth that is exceeded everywhere (if no dry land was asked for)
    int steps;
};
struct ScnOpt {
    std::vector<int> kinds{mg::LAND};
    int levee = 0;
    double zlo = 0.3;  // relative to D
    int nmax = 4, steps = 5;
    int bath = 3;
    bool numbering = true;
    int p_max = 3;
    double cfl_hi = 0.25;
    double aspect = 3;
    bool holes = true;
    double Dlo = 0.2, Dhi = 50;
    double Llo = 0.5;  // smallest length of the domain, relative to D
};
inline Scn scenario(pbt::T& t, const ScnOpt& o) {
    Scn s;
    s.D = t.lg(o.Dlo, o.Dhi);
    s.L = s.D * t.lg(o.Llo, 500);
    mg::Opts mo;
    mo.nx_max = mo.ny_max = o.nmax;
    mo.Lmin = mo.Lmax = s.L;
    mo.zlo = o.zlo * s.D;
    mo.zhi = s.D;
    mo.bath = o.bath;
    mo.kinds = o.kinds;
    mo.levee = o.levee;
    mo.numbering = o.numbering;
    mo.holes = o.holes;
    mo.aspect = o.aspect;
    if (t.chance(25)) {
        mo.affine = mo.perturb = false;
        t.label("axis-aligned");
    }
    s.m = mg::gen(t, mo);
    s.c.problem = PROBNAME;
    s.c.p = t.i(1, o.p_max);
    s.c.g = t.chance(30) ? t.r(1.0, 20.0) : 9.81;
    s.cs = std::sqrt(s.c.g * s.D);
    s.h = s.m.hmin();
    double zmin = 1e300;
    for (auto& q : s.m.x)
        zmin = std::min(zmin, q[2]);
    s.low = o.zlo > 0 ? 0.8 * zmin : 0.1 * s.D;
    if (!(s.low > 0))
        t.discard();
    if (KIND == 2) {
        s.c.order = t.i(1, 2);
        s.c.nstages = 1;
        s.c.dt = t.r(0.03, 0.3) * s.h / s.cs;
    } else {
        static const int rk[][2] = {{1, 1}, {2, 2}, {3, 3}, {4, 3}, {5, 3}, {5, 4}};
        int k = t.i(0, 5);
        s.c.nstages = rk[k][0];
        s.c.order = rk[k][1];
        s.c.dt = t.r(0.05, o.cfl_hi) * s.h / ((2 * s.c.p + 1) * s.cs * 1.5);
    }
    s.c.run_time = std::max(10L, (long)std::ceil(100 * s.c.dt));
    s.steps = t.i(1, o.steps);
    t.label("p" + std::to_string(s.c.p));
    PNOTE("mesh " << s.m.tri.size() << " elements, " << s.m.x.size() << " nodes, " << s.m.seg.size() << " sections; depth scale " << s.D
                  << ", length " << s.L << ", h " << s.h << ", p " << s.c.p << ", dt " << s.c.dt << ", g " << s.c.g << ", order "
                  << s.c.order << ", stages " << s.c.nstages << ", steps " << s.steps);
    return s;
}
// a random smooth state of relative amplitude a with Froude number of at most fr
struct Wave {
    double A[3], k[3][2], ph[3];
    std::array<double, 3> operator()(double x, double y) const {
        std::array<double, 3> u;
        for (int v = 0; v < 3; ++v)
            u[v] = A[v] * std::sin(k[v][0] * x + k[v][1] * y + ph[v]);
        return u;
    }
};
inline Wave wave(pbt::T& t, const Scn& s, double a, double fr) {
    Wave w;
    for (int v = 0; v < 3; ++v) {
        w.A[v] = v == 0 ? t.s(std::min(a * s.D, 0.3 * s.low)) : t.s(fr * s.low * std::sqrt(s.c.g * s.low));
        for (int d = 0; d < 2; ++d)
            w.k[v][d] = t.s(4) / s.L;
        w.ph[v] = t.r(0, 6.28);
    }
    PNOTE("wave amplitudes " << w.A[0] << " " << w.A[1] << " " << w.A[2]);
    return w;
}
template <typename W>
inline void use_ic(const W& w) {
    hook::ic_q() = [w](double, const Point<2>& p) {
        auto u = w(p[0], p[1]);
        return StatVector<double, 3>{u[0], u[1], u[2]};
    };
}
inline std::string rd(double v) {
    std::ostringstream o;
    o << std::setprecision(17) << v;
    return o.str();
}
inline std::string friction(pbt::T& t, const Scn& s) {
    std::string b;
    if (t.chance(40)) {
        if (t.b()) {
            b = "  bottom_friction:\n    type: Chezy\n    coefficient: " + rd(t.r(0, 0.05)) + "\n";
            t.label("chezy");
        } else {
            std::ofstream f("mann.13");
            f << std::setprecision(17);
            auto nodes = t.perm(s.m.nid.size());
            int n = t.i(0, nodes.size());
            for (int k = 0; k < n; ++k)
                f << s.m.nid[nodes[k]] << " " << t.r(0.0, 0.1) << "\n";
            b = "  bottom_friction:\n    type: Manning\n    coefficient: " + rd(t.r(0, 0.01)) + "\n    input_file: mann.13\n";
            t.label("manning");
        }
    }
    return b;
}
}
