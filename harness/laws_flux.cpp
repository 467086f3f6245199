// Pointwise laws of the shallow-water flux, its Jacobians and eigenstructure, and the stabilisation of the hybridised schemes.
#include "ref.hpp"
#include <Eigen/Dense>

namespace {
using namespace sim;
using ref::P2;
using ref::V3;
using M3  = Eigen::Matrix3d;
using SM  = StatMatrix<double, 3, 3>;
using HQ  = HybMatrix<double, SWE::n_variables>;
using HA  = HybMatrix<double, SWE::n_auxiliaries>;
using HN  = HybMatrix<double, SWE::n_dimensions>;
using HJ  = HybMatrix<double, 9>;

// states of one call in units of depth hs and speed cs; every point has its own depth, bed and direction
struct Pts {
    uint n;
    double g, hs, cs;
    std::vector<double> h, b;
    std::vector<V3> q;
    std::vector<P2> nn;
    HQ Q;
    HA aux;
    HN nrm;
    void pack() {
        Q   = HQ(3, n);
        aux = HA(SWE::n_auxiliaries, n);
        nrm = HN(2, n);
        set_constant(aux, 1.0);
        for (uint k = 0; k < n; ++k) {
            for (int v = 0; v < 3; ++v)
                Q(v, k) = q[k][v];
            aux(SWE::Auxiliaries::bath, k) = b[k];
            aux(SWE::Auxiliaries::h, k)    = q[k][0] + b[k];
            nrm(0, k) = nn[k][0], nrm(1, k) = nn[k][1];
        }
    }
    double S(int v) const { return v ? hs * cs : hs; }
};
inline Pts points(pbt::T& t) {
    reset_globals();
    Pts p;
    p.n = t.i(1, 6);
    p.g = t.chance(30) ? t.r(0.5, 25) : 9.81;
    SWE::Global::g = p.g;
    p.hs = t.lg(1e-2, 1e3);
    p.cs = std::sqrt(p.g * p.hs);
    double fr = t.chance(20) ? 0.0 : t.chance(30) ? 4.0 : 0.9;
    for (uint k = 0; k < p.n; ++k) {
        double h = p.hs * t.r(0.3, 1.7), b = t.s(3) * p.hs;
        double c = std::sqrt(p.g * h);
        p.h.push_back(h);
        p.b.push_back(b);
        p.q.push_back(V3{{h - b, t.s(fr) * h * c, t.s(fr) * h * c}});
        double a = t.chance(25) ? t.i(0, 7) * M_PI / 4 : t.r(0, 2 * M_PI);
        p.nn.push_back(P2{{std::cos(a), std::sin(a)}});
    }
    p.pack();
    PNOTE(p.n << " points, g " << p.g << ", depth " << p.hs);
    return p;
}
inline M3 jac(double g, double h, double u, double v, const P2& n) {
    double un = u * n[0] + v * n[1];
    M3 A;
    A << 0, n[0], n[1], g * h * n[0] - u * un, un + u * n[0], u * n[1], g * h * n[1] - v * un, v * n[0], un + v * n[1];
    return A;
}
inline M3 eig(const SM& m) {
    M3 r;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            r(i, j) = m(i, j);
    return r;
}
// entry (i,j) of a Jacobian in units of S(i)*cs/S(j)
inline void near(const Pts& p, const M3& a, const M3& b, double unit, double tol, const char* what, uint k) {
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            double sc = p.S(i) / p.S(j) * unit;
            PNEAR(a(i, j) / sc, b(i, j) / sc, tol, what << " entry " << i << "," << j << " at point " << k);
        }
}
// f(|A|)-type matrix function by Lagrange interpolation over the distinct eigenvalues
template <typename F>
M3 fun(double g, double h, double u, double v, const P2& n, F f) {
    M3 A = jac(g, h, u, v, n), I = M3::Identity(), r = M3::Zero();
    double c = std::sqrt(g * h), un = u * n[0] + v * n[1], l[3] = {un - c, un, un + c};
    for (int k = 0; k < 3; ++k) {
        M3 P = I;
        for (int j = 0; j < 3; ++j)
            if (j != k)
                P = P * (A - l[j] * I) / (l[k] - l[j]);
        r += f(l[k]) * P;
    }
    return r;
}
}

#if SEL(9)
LAW(P09, flux_values, "every case", 20000, 800000) {
    auto p = points(t);
    HQ Fx(3, p.n), Fy(3, p.n), Fn(3, p.n);
    SWE::get_F(p.Q, p.aux, Fx, Fy);
    SWE::get_Fn(p.Q, p.aux, p.nrm, Fn);
    double amp = 1;
    for (uint k = 0; k < p.n; ++k)
        amp = std::max(amp, 20 + (p.q[k][1] * p.q[k][1] + p.q[k][2] * p.q[k][2]) / (p.h[k] * p.hs * p.cs * p.cs));
    for (uint k = 0; k < p.n; ++k) {
        V3 x = ref::flux_n(p.g, p.q[k], p.b[k], {{1, 0}}), y = ref::flux_n(p.g, p.q[k], p.b[k], {{0, 1}}), n = ref::flux_n(p.g, p.q[k], p.b[k], p.nn[k]);
        for (int v = 0; v < 3; ++v) {
            double sc = p.S(v) * p.cs * amp;
            PNEAR(Fx(v, k) / sc, x[v] / sc, 1e-13, "flux along x, variable " << v);
            PNEAR(Fy(v, k) / sc, y[v] / sc, 1e-13, "flux along y, variable " << v);
            PNEAR(Fn(v, k) / sc, n[v] / sc, 1e-13, "normal flux, variable " << v);
        }
        // the pressure is hydrostatic up to the part the bed balances: g h^2/2 - g b^2/2
        double h = p.h[k], b = p.b[k], u = p.q[k][1] / h;
        double sc = p.S(1) * p.cs * amp;
        PNEAR(Fx(1, k) / sc, (h * u * u + 0.5 * p.g * (h * h - b * b)) / sc, 1e-12, "pressure");
        // one state, overload with an explicit gravity
        for (double gg : {p.g, 0.0, 0.37 * p.g}) {
            HQ o(3, p.n);
            SWE::get_Fn(gg, column(p.Q, k), column(p.aux, k), column(p.nrm, k), column(o, k));
            V3 r = ref::flux_n(gg, p.q[k], p.b[k], p.nn[k]);
            for (int v = 0; v < 3; ++v)
                PNEAR(o(v, k) / (p.S(v) * p.cs * amp), r[v] / (p.S(v) * p.cs * amp), 1e-13, "normal flux with gravity " << gg << ", variable " << v);
            SM tau;
            SWE::get_tau_LF(gg, column(p.Q, k), column(p.aux, k), column(p.nrm, k), tau);
            double l = std::abs(p.q[k][1] * p.nn[k][0] + p.q[k][2] * p.nn[k][1]) / p.h[k] + std::sqrt(gg * p.h[k]);
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j)
                    PNEAR(tau(i, j) / (p.cs * amp), (i == j ? l : 0.0) / (p.cs * amp), 1e-13, "stabilisation with gravity " << gg);
        }
    }
    AlignedVector<SM> tau(p.n);
    SWE::get_tau_LF(p.Q, p.aux, p.nrm, tau);
    for (uint k = 0; k < p.n; ++k) {
        double l = std::abs(p.q[k][1] * p.nn[k][0] + p.q[k][2] * p.nn[k][1]) / p.h[k] + std::sqrt(p.g * p.h[k]);
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                PNEAR(tau[k](i, j) / (p.cs * amp), (i == j ? l : 0.0) / (p.cs * amp), 1e-13, "stabilisation");
    }
    t.nontrivial();
}
#endif

#if SEL(9)
LAW(P09, flux_jacobians, "a moving state at some point", 20000, 800000) {
    auto p = points(t);
    HJ Dx(9, p.n), Dy(9, p.n), Dn(9, p.n);
    SWE::get_dF_dq(p.Q, p.aux, Dx, Dy);
    SWE::get_dFn_dq(p.Q, p.aux, p.nrm, Dn);
    AlignedVector<SM> A(p.n), absA(p.n), Ap(p.n), Am(p.n);
    SWE::get_A(p.Q, p.aux, p.nrm, A);
    SWE::get_absA(p.Q, p.aux, p.nrm, absA);
    SWE::get_Aplus(p.Q, p.aux, p.nrm, Ap);
    SWE::get_Aminus(p.Q, p.aux, p.nrm, Am);
    auto at = [](const HJ& d, uint k) {
        M3 m;
        for (int i = 0; i < 9; ++i)
            m(i / 3, i % 3) = d(i, k);
        return m;
    };
    for (uint k = 0; k < p.n; ++k) {
        double h = p.h[k], u = p.q[k][1] / h, v = p.q[k][2] / h;
        auto& n = p.nn[k];
        double un = u * n[0] + v * n[1], c = std::sqrt(p.g * h);
        if (u != 0 || v != 0)
            t.nontrivial();
        double amp = 1 + (u * u + v * v) / (p.cs * p.cs), un1 = p.cs * amp;
        // both the closed form and the derivative of the flux itself
        near(p, at(Dx, k), jac(p.g, h, u, v, {{1, 0}}), un1, 1e-12, "Jacobian along x", k);
        near(p, at(Dy, k), jac(p.g, h, u, v, {{0, 1}}), un1, 1e-12, "Jacobian along y", k);
        near(p, at(Dn, k), jac(p.g, h, u, v, n), un1, 1e-12, "normal Jacobian", k);
        near(p, eig(A[k]), jac(p.g, h, u, v, n), un1 * amp, 1e-11, "normal Jacobian from its eigenstructure", k);
        near(p, eig(absA[k]), fun(p.g, h, u, v, n, [](double l) { return std::abs(l); }), un1 * amp, 1e-11, "absolute value of the Jacobian", k);
        near(p, eig(Ap[k]), fun(p.g, h, u, v, n, [](double l) { return std::max(l, 0.0); }), un1 * amp, 1e-11, "positive part of the Jacobian", k);
        near(p, eig(Am[k]), fun(p.g, h, u, v, n, [](double l) { return std::min(l, 0.0); }), un1 * amp, 1e-11, "negative part of the Jacobian", k);
        // eigenvectors
        M3 R = eig(SWE::R(h, u, v, n[0], n[1])), I = eig(SWE::invR(h, u, v, n[0], n[1])), L = eig(SWE::L(h, u, v, n[0], n[1])),
           aL = eig(SWE::absL(h, u, v, n[0], n[1]));
        M3 RI = I * R, J = jac(p.g, h, u, v, n);
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j) {
                PNEAR(RI(i, j), i == j ? 1.0 : 0.0, 1e-9 * amp * std::max(1.0, 1 / p.cs + p.cs), "inverse of the eigenvectors");
                PNEAR(aL(i, j), std::abs(L(i, j)), 1e-13 * un1, "absolute eigenvalues");
                if (i != j)
                    PCHECK(L(i, j) == 0, "eigenvalue matrix is not diagonal");
            }
        double l[3] = {L(0, 0), L(1, 1), L(2, 2)}, w[3] = {un - c, un, un + c};
        std::sort(l, l + 3);
        for (int i = 0; i < 3; ++i)
            PNEAR(l[i] / un1, w[i] / un1, 1e-13, "eigenvalue " << i);
        M3 E = J * R - R * L;
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j) {
                double cs = 1e-300;
                for (int r = 0; r < 3; ++r)
                    cs = std::max(cs, std::abs(R(r, j)) / p.S(r));
                PNEAR(E(i, j) / (p.S(i) * cs * un1 * amp), 0.0, 1e-11, "eigenvector " << j);
            }
    }
}
#endif

namespace {
// derivative with respect to variable d of a matrix-valued function of the state, by central differences extrapolated once
template <typename F>
std::vector<M3> diff(const Pts& p, int d, const F& f) {
    auto cd = [&](double e) {
        Pts a = p, b = p;
        for (uint k = 0; k < p.n; ++k) {
            double st = e * (d ? p.h[k] * std::sqrt(p.g * p.h[k]) : p.h[k]);
            a.q[k][d] += st;
            b.q[k][d] -= st;
        }
        a.pack();
        b.pack();
        AlignedVector<SM> A(p.n), B(p.n);
        f(a.Q, a.aux, a.nrm, A);
        f(b.Q, b.aux, b.nrm, B);
        std::vector<M3> r;
        for (uint k = 0; k < p.n; ++k)
            r.push_back((eig(A[k]) - eig(B[k])) / (2 * e * (d ? p.h[k] * std::sqrt(p.g * p.h[k]) : p.h[k])));
        return r;
    };
    auto a = cd(1e-3), b = cd(5e-4);
    for (uint k = 0; k < p.n; ++k)
        a[k] = (4 * b[k] - a[k]) / 3;
    return a;
}
using MF = void (*)(const HQ&, const HA&, const HN&, AlignedVector<SM>&);
}
#if SEL(9)
LAW(P09, derivatives_of_the_eigenstructure, "every case", 10000, 400000) {
    auto p = points(t);
    for (uint k = 0; k < p.n; ++k) {  // absolute values are differentiable away from sonic and stagnant states
        double c = std::sqrt(p.g * p.h[k]), un = (p.q[k][1] * p.nn[k][0] + p.q[k][2] * p.nn[k][1]) / p.h[k];
        for (double l : {un - c, un, un + c})
            if (std::abs(l) < 0.02 * (c + std::hypot(p.q[k][1], p.q[k][2]) / p.h[k]))
                t.discard();
    }
    struct Row {
        const char* name;
        MF f, d[3];
    };
    static const Row rows[] = {
        {"the Jacobian", SWE::get_A, {SWE::get_dA_dze, SWE::get_dA_dqx, SWE::get_dA_dqy}},
        {"the absolute value", SWE::get_absA, {SWE::get_dabsA_dze, SWE::get_dabsA_dqx, SWE::get_dabsA_dqy}},
        {"the positive part", SWE::get_Aplus, {SWE::get_dAplus_dze, SWE::get_dAplus_dqx, SWE::get_dAplus_dqy}},
        {"the negative part", SWE::get_Aminus, {SWE::get_dAminus_dze, SWE::get_dAminus_dqx, SWE::get_dAminus_dqy}},
        {"the stabilisation", SWE::get_tau_LF, {SWE::get_dtau_dze_LF, SWE::get_dtau_dqx_LF, SWE::get_dtau_dqy_LF}}};
    for (auto& r : rows)
        for (int d = 0; d < 3; ++d) {
            AlignedVector<SM> G(p.n);
            r.d[d](p.Q, p.aux, p.nrm, G);
            auto w = diff(p, d, r.f);
            for (uint k = 0; k < p.n; ++k) {
                double u2  = (p.q[k][1] * p.q[k][1] + p.q[k][2] * p.q[k][2]) / (p.h[k] * p.h[k]);
                double amp = 1 + u2 / (p.cs * p.cs);
                near(p, eig(G[k]), w[k], p.cs / p.S(d) * amp * amp, 2e-8, r.name, k);
            }
        }
    // eigenvalue and eigenvector matrices themselves
    using PF = SM (*)(double, double, double, double, double);
    struct Row2 {
        const char* name;
        PF f, d[3];
    };
    static const Row2 r2[] = {{"the eigenvalues", SWE::L, {SWE::dL_dze, SWE::dL_dqx, SWE::dL_dqy}},
                              {"the absolute eigenvalues", SWE::absL, {SWE::dabsL_dze, SWE::dabsL_dqx, SWE::dabsL_dqy}},
                              {"the eigenvectors", SWE::R, {SWE::dR_dze, SWE::dR_dqx, SWE::dR_dqy}},
                              {"the inverse eigenvectors", SWE::invR, {SWE::dinvR_dze, SWE::dinvR_dqx, SWE::dinvR_dqy}}};
    for (uint k = 0; k < p.n; ++k)
        for (auto& r : r2)
            for (int d = 0; d < 3; ++d) {
                auto ev = [&](double e) {
                    V3 q = p.q[k];
                    q[d] += e;
                    double h = q[0] + p.b[k];
                    return eig(r.f(h, q[1] / h, q[2] / h, p.nn[k][0], p.nn[k][1]));
                };
                double h = p.h[k], st = d ? h * std::sqrt(p.g * h) : h;
                auto cd = [&](double e) { return M3((ev(e * st) - ev(-e * st)) / (2 * e * st)); };
                M3 w = (4 * cd(5e-4) - cd(1e-3)) / 3, G = eig(r.d[d](h, p.q[k][1] / h, p.q[k][2] / h, p.nn[k][0], p.nn[k][1]));
                M3 V = ev(0);
                for (int i = 0; i < 3; ++i)
                    for (int j = 0; j < 3; ++j) {
                        // entries of the eigenvector matrices carry their own units: compare on the scale of the entries' variation
                        double sc = (std::abs(V(i, j)) + std::abs(ev(0.3 * st)(i, j)) + std::abs(ev(-0.3 * st)(i, j)) + V.row(i).cwiseAbs().maxCoeff()) / st;
                        if (sc == 0)
                            sc = 1;
                        PNEAR(G(i, j) / sc, w(i, j) / sc, 1e-7, "derivative " << d << " of " << r.name << ", entry " << i << "," << j);
                    }
            }
    t.nontrivial();
}
#endif

#if SEL(9)
LAW(P09, flux_is_rotation_equivariant, "a moving state at some point", 10000, 400000) {
    auto p = points(t);
    double a = t.r(0, 2 * M_PI), c = std::cos(a), s = std::sin(a);
    bool mirror = t.b();
    auto rot = [&](double& x, double& y) {
        double X = c * x - s * y, Y = s * x + c * y;
        x = X, y = mirror ? -Y : Y;
    };
    Pts r = p;
    double amp = 20;
    for (uint k = 0; k < p.n; ++k) {
        rot(r.q[k][1], r.q[k][2]);
        rot(r.nn[k][0], r.nn[k][1]);
        amp = std::max(amp, 20 + (p.q[k][1] * p.q[k][1] + p.q[k][2] * p.q[k][2]) / (p.h[k] * p.hs * p.cs * p.cs));
        if (p.q[k][1] != 0)
            t.nontrivial();
    }
    r.pack();
    HQ F(3, p.n), G(3, p.n);
    SWE::get_Fn(p.Q, p.aux, p.nrm, F);
    SWE::get_Fn(r.Q, r.aux, r.nrm, G);
    AlignedVector<SM> A(p.n), B(p.n), At(p.n), Bt(p.n);
    SWE::get_absA(p.Q, p.aux, p.nrm, A);
    SWE::get_absA(r.Q, r.aux, r.nrm, B);
    SWE::get_tau_LF(p.Q, p.aux, p.nrm, At);
    SWE::get_tau_LF(r.Q, r.aux, r.nrm, Bt);
    M3 T = M3::Identity();
    T(1, 1) = c, T(1, 2) = -s, T(2, 1) = mirror ? -s : s, T(2, 2) = mirror ? -c : c;
    for (uint k = 0; k < p.n; ++k) {
        double x = F(1, k), y = F(2, k);
        rot(x, y);
        PNEAR(G(0, k) / (p.S(0) * p.cs * amp), F(0, k) / (p.S(0) * p.cs * amp), 1e-12, "mass flux");
        PNEAR(G(1, k) / (p.S(1) * p.cs * amp), x / (p.S(1) * p.cs * amp), 1e-12, "momentum flux x");
        PNEAR(G(2, k) / (p.S(1) * p.cs * amp), y / (p.S(1) * p.cs * amp), 1e-12, "momentum flux y");
        near(p, eig(B[k]), T * eig(A[k]) * T.transpose(), p.cs * amp, 1e-11, "absolute Jacobian", k);
        near(p, eig(Bt[k]), eig(At[k]), p.cs * amp, 1e-12, "stabilisation", k);
    }
}
#endif
