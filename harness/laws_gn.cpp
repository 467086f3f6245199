#include "pbt.hpp"
#define PROB GN::EHDG::Problem
#define PROBNAME "ehdg_gn"
#define PROBTAG gn
#define KIND 3
#include "laws_run.hpp"

#if SEL(25)
// a lake at rest and closed basins are promised of the dispersive solver too
static pbt::Reg reg_P25_basin("P25", "closed_basin_gn", "moving water on a mesh of at least two elements", 2000, 40000, law_P12_closed_basin_gn);
static pbt::Reg reg_P25_lake("P25", "lake_at_rest_gn", "non-constant bathymetry or at least two elements, elevation not zero", 2000, 40000, law_P13_lake_at_rest_gn);
#endif

// A standing wave of small amplitude in a closed rectangular basin of constant depth, against the dispersion relation of the
// Green-Naghdi equations linearised about rest,  omega^2 = g h k^2 (1 + (alpha-1) kappa) / (1 + alpha kappa),  kappa = (k h)^2/3.
namespace {
inline mg::Mesh basin(pbt::T& t, double Lx, double Ly, int nx, int ny, double h, double th, double x0, double y0) {
    mg::Mesh m;
    double c = std::cos(th), s = std::sin(th);
    for (int j = 0; j <= ny; ++j)
        for (int i = 0; i <= nx; ++i) {
            double x = Lx * i / nx, y = Ly * j / ny;
            m.x.push_back({x0 + c * x - s * y, y0 + s * x + c * y, h});
        }
    auto N = [&](int i, int j) { return j * (nx + 1) + i; };
    for (int j = 0; j < ny; ++j)
        for (int i = 0; i < nx; ++i) {
            if (t.b()) {
                m.tri.push_back({N(i, j), N(i + 1, j), N(i + 1, j + 1)});
                m.tri.push_back({N(i, j), N(i + 1, j + 1), N(i, j + 1)});
            } else {
                m.tri.push_back({N(i, j), N(i + 1, j), N(i, j + 1)});
                m.tri.push_back({N(i + 1, j), N(i + 1, j + 1), N(i, j + 1)});
            }
        }
    mg::Seg g;
    g.kind   = mg::LAND;
    g.ibtype = 0;
    for (int i = 0; i < nx; ++i)
        g.n.push_back(N(i, 0));
    for (int j = 0; j < ny; ++j)
        g.n.push_back(N(nx, j));
    for (int i = nx; i > 0; --i)
        g.n.push_back(N(i, ny));
    for (int j = ny; j >= 0; --j)
        g.n.push_back(N(0, j));
    m.seg.push_back(g);
    for (uint k = 0; k < m.x.size(); ++k)
        m.nid.push_back(k + 1);
    for (uint k = 0; k < m.tri.size(); ++k)
        m.eid.push_back(k + 1);
    m.scale = Lx;
    return m;
}
}
#if SEL(25)
LAW(P25, dispersion_relation, "always (three nested meshes)", 60, 2500) {
    reset_globals();
    const double al = 1.159;
    double h = t.lg(0.3, 3), g = t.chance(30) ? t.r(3.0, 20.0) : 9.81;
    int mx = t.i(0, 1), my = mx == 0 ? 1 : t.i(0, 1);
    double kap0 = t.r(0.2, 1.5);
    double L = M_PI * h / std::sqrt(3 * kap0), Lx = L, Ly = L * t.r(0.7, 1.4);
    double kx = mx * M_PI / Lx, ky = my * M_PI / Ly, k2 = kx * kx + ky * ky;
    double kap = k2 * h * h / 3, om2 = g * h * k2 * (1 + (al - 1) * kap) / (1 + al * kap), om = std::sqrt(om2);
    double th = t.r(0, 6.28), x0 = t.s(10) * h, y0 = t.s(10) * h;
    double c = std::cos(th), s = std::sin(th);
    double a = 1e-6 * h, ph = t.r(0, 6.28), T = t.r(0.2, 0.6) / om;
    auto u = [=](double time, double X, double Y) {
        double x = c * (X - x0) + s * (Y - y0), y = -s * (X - x0) + c * (Y - y0);
        double C = om2 / k2 / om * a * std::sin(om * time + ph);
        double q1 = C * kx * std::sin(kx * x) * std::cos(ky * y), q2 = C * ky * std::cos(kx * x) * std::sin(ky * y);
        return std::array<double, 3>{a * std::cos(kx * x) * std::cos(ky * y) * std::cos(om * time + ph), c * q1 - s * q2, s * q1 + c * q2};
    };
    Cfg cf;
    cf.problem = PROBNAME;
    cf.g       = g;
    cf.p       = t.i(1, 2);
    cf.order   = 3;
    cf.nstages = t.i(3, 5);
    t.label("p" + std::to_string(cf.p));
    auto m = basin(t, Lx, Ly, 2, 2, h, th, x0, y0);
    hook::ic_q() = [&](double time, const Point<2>& p) {
        auto r = u(time, p[0], p[1]);
        return StatVector<double, 3>{r[0], r[1], r[2]};
    };
    double cs = std::sqrt(g * h), e[3];
    PNOTE("h " << h << " g " << g << " Lx " << Lx << " Ly " << Ly << " mode " << mx << "," << my << " kappa " << kap << " p " << cf.p << " phase " << ph << " to " << om * T);
    for (int l = 0; l < 3; ++l) {
        int steps = (int)std::ceil(T / (0.3 * m.hmin() / ((2 * cf.p + 1) * cs)));
        if (steps > 200)
            t.discard();
        cf.dt       = T / steps;
        cf.run_time = std::max(1L, (long)std::ceil(2 * T));
        auto S = make<Prob>(m, cf);
        S->prep();
        for (int k = 0; k < steps; ++k)
            S->step();
        std::vector<std::array<double, 2>> pts;
        std::vector<double> w;
        oracle::triangle_rule(8, pts, w);
        auto phi = phi_at(cf.p, pts);
        double er = 0;
        S->d.mesh.CallForEachElement([&](auto& elt) {
            DynMatrix<double> q = elt.data.state[0].q * phi;
            auto& nc = elt.GetShape().nodal_coordinates;
            double A = std::abs((nc[1][0] - nc[0][0]) * (nc[2][1] - nc[0][1]) - (nc[2][0] - nc[0][0]) * (nc[1][1] - nc[0][1]));
            for (uint k = 0; k < w.size(); ++k) {
                double l1 = (1 + pts[k][0]) / 2, l2 = (1 + pts[k][1]) / 2, l0 = 1 - l1 - l2;
                auto r = u(T, l0 * nc[0][0] + l1 * nc[1][0] + l2 * nc[2][0], l0 * nc[0][1] + l1 * nc[1][1] + l2 * nc[2][1]);
                double d0 = q(0, k) - r[0], d1 = (q(1, k) - r[1]) / cs, d2 = (q(2, k) - r[2]) / cs;
                er += (d0 * d0 + d1 * d1 + d2 * d2) * w[k] / 4 * A;
            }
        });
        e[l] = std::sqrt(er / (Lx * Ly)) / a;
        if (l < 2)
            m = mg::refine(m);
    }
    double r1 = std::log2(e[0] / e[1]), r2 = std::log2(e[1] / e[2]);
    PNOTE("errors " << e[0] << " " << e[1] << " " << e[2] << ", rates " << r1 << " " << r2);
    if (getenv("VERIF_RATES"))
        std::ofstream(getenv("VERIF_RATES"), std::ios::app) << "RATE p" << cf.p << " " << r1 << " " << r2 << " err " << e[0] << " " << e[2] << " kap " << kap << "\n";
    PCHECK(r2 > 1.3 && e[2] < (cf.p == 1 ? 0.02 : 0.0015), "relative error " << e[1] << " on the mesh, " << e[2] << " on its refinement, for polynomials of degree " << cf.p);
    t.nontrivial();
}
#endif
