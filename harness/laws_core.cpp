// P01 quadrature, P02 bases, P03 triangle geometry, P08 time steppers, P27 linear algebra helpers
#include "general_definitions.hpp"
#include "integration/integrations_1D.hpp"
#include "integration/integrations_2D.hpp"
#include "basis/bases_1D.hpp"
#include "basis/bases_2D.hpp"
#include "shape/shapes_2D.hpp"
#include "preprocessor/input_parameters.hpp"
#include "simulation/stepper/explicit_ssp_rk_stepper.hpp"
#include "simulation/stepper/implicit_stepper.hpp"
#include "simulation/stepper/second_strang_stepper.hpp"
#include "utilities/almost_equal.hpp"
#include "pbt.hpp"
#include "oracle.hpp"

using oracle::gauss;

// ---------------------------------------------------------------------------------------------- P01
// Products of Legendre-like polynomials are used as test functions because they are well scaled and
// span all polynomials of the degree; random coefficients combine them.
static long double powl_i(long double x, unsigned n) {
    long double r = 1;
    while (n--)
        r *= x;
    return r;
}

#if SEL(1)
LAW(P01, gauss_legendre_exact, "degree >= 2 and at least two non-zero coefficients", 60000, 2000000) {
    unsigned p = t.i(0, 65);
    Integration::GaussLegendre_1D rule;
    auto gp = rule.GetRule(p);
    PCHECK(gp.first.size() == (long)gp.second.size(), "sizes differ, degree " << p);
    PCHECK(rule.GetNumGP(p) == gp.second.size(), "announced number of points wrong for degree " << p);
    unsigned n = gp.second.size();
    PNOTE("degree " << p << ", " << n << " points");
    double wsum = 0;
    for (unsigned k = 0; k < n; ++k) {
        PCHECK(std::abs(gp.second[k][0]) <= 1.0, "point outside [-1,1], degree " << p << " point " << k);
        PNEAR(gp.second[k][0], -gp.second[n - 1 - k][0], 1e-14, "points not symmetric, degree " << p << " point " << k);
        PNEAR(gp.first[k], gp.first[n - 1 - k], 1e-14, "weights not symmetric, degree " << p << " point " << k);
        wsum += gp.first[k];
        for (unsigned j = 0; j < k; ++j)
            PCHECK(gp.second[k][0] != gp.second[j][0], "repeated point, degree " << p);
    }
    PNEAR(wsum, 2.0, 1e-13, "sum of weights, degree " << p);
    // sum_k c_k P_k(x) with Legendre P_k: integral is 2 c_0; monomials: 2/(k+1) for even k
    std::vector<double> c(p + 1), m(p + 1);
    int nz = 0;
    for (unsigned k = 0; k <= p; ++k) {
        c[k] = t.chance(40) ? t.s(1.0) : 0.0;
        m[k] = t.chance(20) ? t.s(1.0) : 0.0;
        nz += c[k] != 0 || m[k] != 0;
    }
    c[p] += 1.0;
    long double ex = 2.0L * c[0], num = 0, mag = 1;
    for (unsigned k = 0; k <= p; ++k) {
        if (k % 2 == 0)
            ex += 2.0L * m[k] / (k + 1);
        mag += std::abs(c[k]) + std::abs(m[k]);
    }
    for (unsigned g = 0; g < n; ++g) {
        long double x = gp.second[g][0], p0 = 1, p1 = x, v = c[0];
        for (unsigned k = 1; k <= p; ++k) {
            v += c[k] * p1;
            long double p2 = ((2 * k + 1) * x * p1 - k * p0) / (k + 1);
            p0             = p1;
            p1             = p2;
        }
        for (unsigned k = 0; k <= p; ++k)
            v += m[k] * powl_i(x, k);
        num += gp.first[g] * v;
    }
    PNEAR((double)num, (double)ex, 2e-13 * (double)mag, "integral of a degree-" << p << " polynomial over [-1,1]");
    if (p >= 2 && nz >= 2)
        t.nontrivial();
}
#endif

#if SEL(1)
LAW(P01, dunavant_exact, "degree >= 2 and at least two non-zero coefficients", 60000, 2000000) {
    unsigned p = t.i(0, 20);
    Integration::Dunavant_2D rule;
    auto gp = rule.GetRule(p);
    PCHECK(gp.first.size() == (long)gp.second.size(), "sizes differ, degree " << p);
    PCHECK(rule.GetNumGP(p) == gp.second.size(), "announced number of points wrong for degree " << p);
    double wsum = 0;
    for (unsigned k = 0; k < gp.second.size(); ++k)
        wsum += gp.first[k];
    PNEAR(wsum, 2.0, 1e-12, "sum of weights, degree " << p);
    // random combination of x^a y^b with x,y in [-1,1] and of ((1+x)/2)^a ((1+y)/2)^b
    struct Term {
        unsigned a, b;
        double c;
        bool bary;
    };
    std::vector<Term> T;
    unsigned nt = t.i(1, 8);
    for (unsigned k = 0; k < nt; ++k) {
        unsigned d = k == 0 ? p : t.i(0, p);
        unsigned a = t.i(0, d);
        T.push_back({a, d - a, t.s(1.0) + (k == 0 ? 1.0 : 0.0), t.b()});
    }
    PNOTE("degree " << p << ", " << gp.second.size() << " points, " << nt << " terms");
    auto f = [&](long double x, long double y) {
        long double v = 0;
        for (auto& q : T)
            v += q.c * (q.bary ? powl_i((1 + x) / 2, q.a) * powl_i((1 + y) / 2, q.b) : powl_i(x, q.a) * powl_i(y, q.b));
        return v;
    };
    long double num = 0, ex = oracle::integrate_triangle(f, p), mag = 1;
    for (auto& q : T)
        mag += std::abs(q.c);
    for (unsigned g = 0; g < gp.second.size(); ++g)
        num += gp.first[g] * f(gp.second[g][0], gp.second[g][1]);
    PNEAR((double)num, (double)ex, 2e-12 * (double)mag, "integral of a degree-" << p << " polynomial over the triangle");
    // invariance under the symmetries of the triangle: integral of f(rotated)
    auto fr = [&](long double x, long double y) { return f(-1 - x - y, x); };
    num     = 0;
    for (unsigned g = 0; g < gp.second.size(); ++g)
        num += gp.first[g] * fr(gp.second[g][0], gp.second[g][1]);
    PNEAR((double)num, (double)ex, 2e-12 * (double)mag, "integral of the rotated degree-" << p << " polynomial");
    if (p >= 2 && nt >= 2)
        t.nontrivial();
}
#endif

// ---------------------------------------------------------------------------------------------- P02
static Point<2> tri_point(pbt::T& t) {
    // closed reference triangle, with vertices and edges over-represented
    int kind = t.i(0, 5);
    if (kind == 0)
        return Point<2>{-1., 1.};
    if (kind == 1) {
        static const double v[3][2] = {{-1, -1}, {1, -1}, {-1, 1}};
        int k                       = t.i(0, 2);
        return Point<2>{v[k][0], v[k][1]};
    }
    double a = t.r(0, 1), b = t.r(0, 1);
    if (kind == 2) {
        int e = t.i(0, 2);
        if (e == 0)
            return Point<2>{-1 + 2 * a, -1.};
        if (e == 1)
            return Point<2>{-1., -1 + 2 * a};
        return Point<2>{-1 + 2 * a, 1 - 2 * a};
    }
    if (a + b > 1) {
        a = 1 - a;
        b = 1 - b;
    }
    return Point<2>{-1 + 2 * a, -1 + 2 * b};
}

#if SEL(2)
LAW(P02, dubiner_gradient, "p >= 2", 18000, 1000000) {
    // Along any segment inside the triangle every basis function is a polynomial of degree <= p in
    // the arc parameter, so its derivative follows exactly from p+1 samples.
    unsigned p = t.i(1, 8);
    Basis::Dubiner_2D basis;
    Point<2> a = tri_point(t), b = tri_point(t);
    double dx = b[0] - a[0], dy = b[1] - a[1], len = std::hypot(dx, dy);
    if (len < 0.2)
        t.discard();
    PNOTE("p=" << p << " segment (" << a[0] << "," << a[1] << ")-(" << b[0] << "," << b[1] << ")");
    unsigned N = p;  // Chebyshev-Lobatto nodes, includes both end points
    AlignedVector<Point<2>> pts(N + 1);
    std::vector<double> s(N + 1);
    for (unsigned k = 0; k <= N; ++k) {
        s[k]   = 0.5 * (1 - std::cos(M_PI * k / N));
        pts[k] = Point<2>{a[0] + s[k] * dx, a[1] + s[k] * dy};
        if (k == N)
            pts[k] = b;
    }
    auto phi  = basis.GetPhi(p, pts);
    auto dphi = basis.GetDPhi(p, pts);
    unsigned ndof = (p + 1) * (p + 2) / 2;
    PCHECK(phi.rows() == ndof && phi.cols() == N + 1, "shape of phi");
    PCHECK(dphi[0].rows() == ndof && dphi[1].cols() == N + 1, "shape of dphi");
    for (unsigned d = 0; d < ndof; ++d) {
        std::vector<double> v(N + 1);
        double mx = 1;
        for (unsigned k = 0; k <= N; ++k) {
            v[k] = phi(d, k);
            PCHECK(std::isfinite(v[k]), "basis function " << d << " of order " << p << " not finite at (" << pts[k][0] << "," << pts[k][1] << ")");
            mx = std::max(mx, std::abs(v[k]));
        }
        auto der = oracle::poly_derivative(s, v);
        for (unsigned k = 0; k <= N; ++k) {
            double got = dphi[0](d, k) * dx + dphi[1](d, k) * dy;
            PNEAR(got, der[k], 1e-9 * mx * (1 + p * p), "directional derivative of function " << d << " of order " << p << " at (" << pts[k][0] << "," << pts[k][1] << ")");
        }
        // polynomial of degree at most p along the segment: an extra sample is predicted
        double se = t.r(0, 1);
        AlignedVector<Point<2>> e(1);
        e[0]      = Point<2>{a[0] + se * dx, a[1] + se * dy};
        double pv = oracle::poly_eval(s, v, se);
        PNEAR(basis.GetPhi(p, e)(d, 0), pv, 1e-9 * mx * (1 + p * p), "function " << d << " is not a polynomial of degree " << p);
    }
    if (p >= 2)
        t.nontrivial();
    t.label("p=" + std::to_string(p));
}
#endif

#if SEL(2)
LAW(P02, dubiner_orthogonal, "p >= 1 and a non-constant random polynomial", 12000, 500000) {
    unsigned p = t.i(1, 10);
    Basis::Dubiner_2D basis;
    unsigned ndof = (p + 1) * (p + 2) / 2;
    std::vector<double> w;
    AlignedVector<Point<2>> pts;
    oracle::triangle_rule(2 * p, pts, w);
    auto phi  = basis.GetPhi(p, pts);
    auto minv = basis.GetMinv(p);
    PCHECK(minv.rows() == ndof && minv.cols() == ndof, "shape of the inverse mass matrix");
    DynMatrix<double> M(ndof, ndof);
    for (unsigned i = 0; i < ndof; ++i)
        for (unsigned j = 0; j < ndof; ++j) {
            double v = 0;
            for (unsigned k = 0; k < w.size(); ++k)
                v += w[k] * phi(i, k) * phi(j, k);
            M(i, j) = v;
            if (i != j)
                PNEAR(v, 0.0, 1e-10, "functions " << i << "," << j << " of order " << p << " not orthogonal");
        }
    DynMatrix<double> I = M * minv;
    for (unsigned i = 0; i < ndof; ++i)
        for (unsigned j = 0; j < ndof; ++j)
            PNEAR(I(i, j), i == j ? 1.0 : 0.0, 1e-9, "published inverse is not the inverse mass matrix (" << i << "," << j << ") order " << p);
    // hierarchical: the functions of a lower order are the leading functions of the higher order
    unsigned q = t.i(1, p);
    auto phq   = basis.GetPhi(q, pts);
    for (unsigned i = 0; i < (q + 1) * (q + 2) / 2; ++i)
        for (unsigned k = 0; k < w.size(); ++k)
            PNEAR(phq(i, k), phi(i, k), 1e-11 * (1 + std::abs(phi(i, k))), "order " << q << " is not the leading part of order " << p);
    for (unsigned k = 0; k < w.size(); ++k)
        PNEAR(phi(0, k), 1.0, 1e-13, "first basis function is not one");
    // completeness: projecting a random polynomial of degree <= p reproduces it anywhere in the triangle
    std::vector<double> c;
    for (unsigned a = 0; a <= p; ++a)
        for (unsigned b = 0; a + b <= p; ++b)
            c.push_back(t.chance(50) ? t.s(1.0) : 0.0);
    auto f = [&](double x, double y) {
        double v = 1.0;
        unsigned n = 0;
        for (unsigned a = 0; a <= p; ++a)
            for (unsigned b = 0; a + b <= p; ++b)
                v += c[n++] * std::pow(x, a) * std::pow(y, b);
        return v;
    };
    DynVector<double> rhs(ndof);
    for (unsigned i = 0; i < ndof; ++i) {
        rhs[i] = 0;
        for (unsigned k = 0; k < w.size(); ++k)
            rhs[i] += w[k] * phi(i, k) * f(pts[k][0], pts[k][1]);
    }
    DynVector<double> coef = minv * rhs;
    AlignedVector<Point<2>> e(3);
    for (auto& x : e)
        x = tri_point(t);
    auto pe = basis.GetPhi(p, e);
    for (unsigned k = 0; k < e.size(); ++k) {
        double v = 0;
        for (unsigned i = 0; i < ndof; ++i)
            v += coef[i] * pe(i, k);
        PNEAR(v, f(e[k][0], e[k][1]), 1e-8 * (1 + ndof), "projection of a degree-" << p << " polynomial at (" << e[k][0] << "," << e[k][1] << ")");
    }
    PNOTE("p=" << p << " random polynomial with " << c.size() << " coefficients");
    t.nontrivial();
}
#endif

#if SEL(2)
LAW(P02, dubiner_linear_modal, "non-constant vertex data", 15000, 500000) {
    unsigned p    = t.i(1, 8);
    unsigned ndof = (p + 1) * (p + 2) / 2;
    Basis::Dubiner_2D basis;
    auto TL = basis.GetLinearBasisT(p);  // vertex values -> modal, right multiplication
    auto TB = basis.GetBasisLinearT(p);  // modal -> vertex values
    unsigned nv = t.i(1, 3);
    DynMatrix<double> lin(nv, 3);
    for (unsigned v = 0; v < nv; ++v)
        for (unsigned k = 0; k < 3; ++k)
            lin(v, k) = t.s(100.0);
    DynMatrix<double> mod  = lin * TL;
    PCHECK(mod.cols() == ndof, "number of modes");
    DynMatrix<double> back = mod * TB;
    AlignedVector<Point<2>> pts(5);
    pts[0] = Point<2>{-1., -1.};
    pts[1] = Point<2>{1., -1.};
    pts[2] = Point<2>{-1., 1.};
    pts[3] = tri_point(t);
    pts[4] = tri_point(t);
    auto phi               = basis.GetPhi(p, pts);
    DynMatrix<double> vals = mod * phi;
    for (unsigned v = 0; v < nv; ++v) {
        for (unsigned k = 0; k < 3; ++k) {
            PNEAR(back(v, k), lin(v, k), 1e-11, "linear -> modal -> linear");
            PNEAR(vals(v, k), lin(v, k), 1e-11, "modal values at the vertices");
        }
        for (unsigned k = 3; k < 5; ++k) {
            double x = pts[k][0], y = pts[k][1];
            double ex = lin(v, 0) * (-(x + y) / 2) + lin(v, 1) * (1 + x) / 2 + lin(v, 2) * (1 + y) / 2;
            PNEAR(vals(v, k), ex, 1e-11 * 100, "modal values inside");
        }
    }
    // the vertex values of the L2-projection on linears of arbitrary modal data
    DynMatrix<double> m2(1, ndof);
    for (unsigned k = 0; k < ndof; ++k)
        m2(0, k) = t.s(10.0);
    DynMatrix<double> l2 = m2 * TB, m3 = l2 * TL;
    for (unsigned k = 0; k < ndof; ++k)
        PNEAR(m3(0, k), k < 3 ? m2(0, k) : 0.0, 1e-11, "modal -> linear -> modal keeps the linear part, mode " << k);
    PNOTE("p=" << p << " vertex data " << lin);
    if (lin(0, 0) != lin(0, 1) || lin(0, 1) != lin(0, 2))
        t.nontrivial();
}
#endif

#if SEL(2)
LAW(P02, legendre_edge_basis, "p >= 2", 12000, 500000) {
    unsigned p = t.i(0, 12);
    Basis::Legendre_1D basis;
    auto G = gauss(p + 1);
    AlignedVector<Point<1>> pts(G.first.size());
    for (unsigned k = 0; k < pts.size(); ++k)
        pts[k] = Point<1>{(double)G.second[k]};
    auto phi  = basis.GetPhi(p, pts);
    auto minv = basis.GetMinv(p);
    for (unsigned i = 0; i <= p; ++i)
        for (unsigned j = 0; j <= p; ++j) {
            double v = 0;
            for (unsigned k = 0; k < pts.size(); ++k)
                v += (double)G.first[k] * phi(i, k) * phi(j, k);
            if (i != j) {
                PNEAR(v, 0.0, 1e-11, "edge functions " << i << "," << j);
                PNEAR(minv(i, j), 0.0, 1e-13, "inverse mass matrix off diagonal");
            } else
                PNEAR(v * minv(i, i), 1.0, 1e-11, "inverse mass matrix entry " << i);
        }
    // Legendre polynomials in increasing degree: value 1 at the right end, (-1)^k at the left end
    AlignedVector<Point<1>> e(3);
    double x = t.r(-1, 1);
    e[0]     = Point<1>{-1.};
    e[1]     = Point<1>{1.};
    e[2]     = Point<1>{x};
    auto pe  = basis.GetPhi(p, e);
    auto de  = basis.GetDPhi(p, e)[0];
    long double p0 = 1, p1 = x, d0 = 0, d1 = 1;
    for (unsigned k = 0; k <= p; ++k) {
        PNEAR(pe(k, 1), 1.0, 1e-11, "value at +1");
        PNEAR(pe(k, 0), k % 2 ? -1.0 : 1.0, 1e-11, "value at -1");
        PNEAR(de(k, 1), k * (k + 1) / 2.0, 1e-9, "derivative at +1");
        PNEAR(pe(k, 2), (double)p0, 1e-11, "value of Legendre polynomial " << k << " at " << x);
        PNEAR(de(k, 2), (double)d0, 1e-9, "derivative of Legendre polynomial " << k << " at " << x);
        long double p2 = ((2 * k + 3) * x * p1 - (k + 1) * p0) / (k + 2);
        long double d2 = d0 + (2 * k + 3) * p1;
        p0 = p1;
        p1 = p2;
        d0 = d1;
        d1 = d2;
    }
    PNOTE("p=" << p << " x=" << x);
    if (p >= 2)
        t.nontrivial();
}
#endif

// ---------------------------------------------------------------------------------------------- P03
#if SEL(3)
LAW(P03, triangle_geometry, "triangle not axis-aligned", 60000, 2000000) {
    double size = t.lg(1e-3, 1e5), ox = t.s(1e3) * size, oy = t.s(1e3) * size;
    double X[3][2];
    double ang = t.r(0, 2 * M_PI);
    double a0 = 0, a1 = t.r(0.3, 2.6), a2 = a1 + t.r(0.3, std::min(2.6, 2 * M_PI - a1 - 0.3));
    double as[3] = {a0, a1, a2};
    for (int k = 0; k < 3; ++k) {
        double rr = t.r(0.4, 1.0);
        X[k][0]   = ox + size * rr * std::cos(ang + as[k]);
        X[k][1]   = oy + size * rr * std::sin(ang + as[k]);
    }
    double det = (X[1][0] - X[0][0]) * (X[2][1] - X[0][1]) - (X[2][0] - X[0][0]) * (X[1][1] - X[0][1]);
    if (det < 0.02 * size * size)
        t.discard();
    PNOTE("vertices (" << X[0][0] << "," << X[0][1] << ") (" << X[1][0] << "," << X[1][1] << ") (" << X[2][0] << "," << X[2][1] << ")");
    double Z[3] = {t.s(10), t.s(10), t.s(10)};
    AlignedVector<Point<3>> nodes(3);
    for (int k = 0; k < 3; ++k)
        nodes[k] = Point<3>{X[k][0], X[k][1], Z[k]};
    if (t.chance(30)) {  // given clockwise: the first and the last vertex change places
        t.label("clockwise");
        std::swap(nodes[0], nodes[2]);
    }
    Shape::StraightTriangle tri(std::move(nodes));
    for (int k = 0; k < 3; ++k)
        PCHECK(tri.nodal_coordinates[k][0] == X[k][0] && tri.nodal_coordinates[k][1] == X[k][1] && tri.nodal_coordinates[k][2] == Z[k],
               "vertex " << k << " of the triangle is not the one given");
    double eps = 1e-9 * size + 1e-14 * (std::abs(ox) + std::abs(oy)), ieps = 1e-9 + 1e-13 * (std::abs(ox) + std::abs(oy)) / size;
    AlignedVector<Point<2>> pts(6);
    pts[0] = Point<2>{-1., -1.};
    pts[1] = Point<2>{1., -1.};
    pts[2] = Point<2>{-1., 1.};
    for (int k = 3; k < 6; ++k)
        pts[k] = tri_point(t);
    auto lam = [](const Point<2>& z, int k) { return k == 0 ? -(z[0] + z[1]) / 2 : k == 1 ? (1 + z[0]) / 2 : (1 + z[1]) / 2; };
    auto glob = tri.LocalToGlobalCoordinates(pts);
    auto loc  = tri.GlobalToLocalCoordinates(glob);
    auto psi  = tri.GetPsi(pts);
    auto dpsi = tri.GetDPsi(pts);
    PCHECK(glob.size() == pts.size() && psi.rows() == 3 && psi.cols() == (long)pts.size(), "shapes");
    for (unsigned k = 0; k < pts.size(); ++k) {
        double ex[2] = {0, 0};
        for (int v = 0; v < 3; ++v) {
            PNEAR(psi(v, k), lam(pts[k], v), 1e-13, "vertex interpolation function " << v);
            for (int c = 0; c < 2; ++c)
                ex[c] += lam(pts[k], v) * X[v][c];
        }
        PNEAR(glob[k][0], ex[0], eps, "x of mapped point");
        PNEAR(glob[k][1], ex[1], eps, "y of mapped point");
        PNEAR(loc[k][0], pts[k][0], ieps, "inverse map, first coordinate");
        PNEAR(loc[k][1], pts[k][1], ieps, "inverse map, second coordinate");
    }
    double J[2][2];
    for (int c = 0; c < 2; ++c) {
        J[c][0] = (X[1][c] - X[0][c]) / 2;
        J[c][1] = (X[2][c] - X[0][c]) / 2;
    }
    PNEAR(tri.GetJdet(pts)[0], det / 4, 1e-9 * size * size + eps * size, "Jacobian determinant");
    auto Ji = tri.GetJinv(pts)[0];
    for (int i = 0; i < 2; ++i)
        for (int j = 0; j < 2; ++j)
            PNEAR(Ji(i, 0) * J[0][j] + Ji(i, 1) * J[1][j], i == j ? 1.0 : 0.0, ieps, "inverse Jacobian");
    // gradients of the vertex functions: differentiate x and y -> identity, and sum to zero
    for (unsigned k = 0; k < pts.size(); ++k)
        for (int d = 0; d < 2; ++d) {
            double s0 = 0, sx = 0, sy = 0;
            for (int v = 0; v < 3; ++v) {
                s0 += dpsi[d](v, k);
                sx += dpsi[d](v, k) * (X[v][0] - ox);
                sy += dpsi[d](v, k) * (X[v][1] - oy);
            }
            PNEAR(s0 * size, 0.0, ieps, "gradient of a constant");
            PNEAR(sx, d == 0 ? 1.0 : 0.0, ieps * 10, "gradient of x");
            PNEAR(sy, d == 1 ? 1.0 : 0.0, ieps * 10, "gradient of y");
        }
    PNEAR(tri.GetArea(), det / 2, 1e-9 * size * size + 1e-13 * (ox * ox + oy * oy), "area");
    double L[3], per = 0;
    for (int e = 0; e < 3; ++e) {
        int a = (e + 1) % 3, b = (e + 2) % 3;
        L[e] = std::hypot(X[b][0] - X[a][0], X[b][1] - X[a][1]);
        per += L[e];
    }
    PNEAR(tri.GetPerimeter(), per, eps * 10, "perimeter");
    auto len = tri.GetLengths();
    PCHECK(len.size() == 3, "number of edge lengths");
    for (int e = 0; e < 3; ++e)
        PNEAR(len[e], L[e], eps, "length of edge " << e);
    if (std::abs(ox) + std::abs(oy) < 1e3 * size)
        PNEAR(tri.GetRadius(), L[0] * L[1] * L[2] / (2 * det), 1e-6 * size, "circumradius");
    auto bc = tri.GetBarycentricCoordinates();
    auto mp = tri.GetMidpointCoordinates();
    PCHECK(mp.size() == 3, "number of midpoints");
    for (int c = 0; c < 2; ++c) {
        PNEAR(bc[c], (X[0][c] + X[1][c] + X[2][c]) / 3, eps, "barycentre");
        for (int e = 0; e < 3; ++e)
            PNEAR(mp[e][c], (X[(e + 1) % 3][c] + X[(e + 2) % 3][c]) / 2, eps, "midpoint of edge " << e);
    }
    for (unsigned e = 0; e < 3; ++e) {
        int a = (e + 1) % 3, b = (e + 2) % 3;
        PNEAR(tri.GetSurfaceJ(e, pts)[0], L[e] / 2, eps, "edge measure " << e);
        auto n = tri.GetSurfaceNormal(e, pts)[0];
        PNEAR(n[0] * n[0] + n[1] * n[1], 1.0, 1e-12, "length of normal " << e);
        PNEAR(n[0] * (X[b][0] - X[a][0]) + n[1] * (X[b][1] - X[a][1]), 0.0, eps, "normal orthogonal to edge " << e);
        double out = n[0] * (X[a][0] - X[e][0]) + n[1] * (X[a][1] - X[e][1]);
        PNEAR(out, det / L[e], 1e-8 * size + eps * 10, "normal outward (height over edge) " << e);
        std::vector<uint> ids{7, 11, 13};
        auto bn = tri.GetBoundaryNodeID(e, ids);
        PCHECK(bn.size() == 2 && bn[0] == ids[a] && bn[1] == ids[b], "nodes of edge " << e);
        AlignedVector<Point<1>> s(1);
        s[0]    = Point<1>{t.r(-1, 1)};
        auto bp = tri.GetBoundaryPsi(e, s);
        PNEAR(bp(0, 0), (1 - s[0][0]) / 2, 1e-13, "edge interpolation, first node");
        PNEAR(bp(1, 0), (1 + s[0][0]) / 2, 1e-13, "edge interpolation, second node");
    }
    // point containment, away from the edges
    double z1 = t.r(-1.5, 1.5), z2 = t.r(-1.5, 1.5);
    double l0 = -(z1 + z2) / 2, l1 = (1 + z1) / 2, l2 = (1 + z2) / 2, mn = std::min(l0, std::min(l1, l2));
    if (std::abs(mn) > 1e-4 + ieps) {
        Point<2> P{l0 * X[0][0] + l1 * X[1][0] + l2 * X[2][0], l0 * X[0][1] + l1 * X[1][1] + l2 * X[2][1]};
        PCHECK(tri.ContainsPoint(P) == (mn > 0), "point with barycentric coordinates " << l0 << "," << l1 << "," << l2);
        t.label(mn > 0 ? "point inside" : "point outside");
    }
    if (X[0][0] != X[1][0] && X[0][1] != X[1][1] && X[1][0] != X[2][0] && X[2][1] != X[1][1])
        t.nontrivial();
}
#endif

#if SEL(3)
LAW(P03, visualisation_cells, "always", 4500, 100000) {
    // the cells written for visualisation tile the triangle
    double X[3][2] = {{t.s(10), t.s(10)}, {0, 0}, {0, 0}};
    double ang     = t.r(0, 2 * M_PI), l1 = t.r(0.5, 5), l2 = t.r(0.5, 5), da = t.r(0.3, 2.8);
    X[1][0] = X[0][0] + l1 * std::cos(ang);
    X[1][1] = X[0][1] + l1 * std::sin(ang);
    X[2][0] = X[0][0] + l2 * std::cos(ang + da);
    X[2][1] = X[0][1] + l2 * std::sin(ang + da);
    AlignedVector<Point<3>> nodes(3);
    for (int k = 0; k < 3; ++k)
        nodes[k] = Point<3>{X[k][0], X[k][1], 0.0};
    Shape::StraightTriangle tri(std::move(nodes));
    AlignedVector<Point<3>> pts;
    Array2D<uint> cells;
    unsigned pre = t.i(0, 3);  // points and cells of elements written before
    for (unsigned k = 0; k < pre; ++k)
        pts.push_back(Point<3>{99., 99., 0.});
    tri.GetVTK(pts, cells);
    double area = 0, tot = 0.5 * l1 * l2 * std::sin(da);
    std::set<std::vector<long>> seen;
    for (auto& c : cells) {
        PCHECK(c.size() == 4 && c[0] == 5, "triangle cell expected");
        double x[3], y[3];
        std::vector<long> key;
        for (int k = 0; k < 3; ++k) {
            PCHECK(c[k + 1] >= pre && c[k + 1] < pts.size(), "cell refers to a point of another element");
            x[k] = pts[c[k + 1]][0];
            y[k] = pts[c[k + 1]][1];
            key.push_back(c[k + 1]);
        }
        std::sort(key.begin(), key.end());
        PCHECK(seen.insert(key).second, "cell listed twice");
        double a = 0.5 * std::abs((x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0]));
        PNEAR(a, tot / cells.size(), 1e-9, "area of a cell");
        area += a;
    }
    PNEAR(area, tot, 1e-9, "cells do not add up to the triangle");
    PCHECK(!cells.empty() && pts.size() > pre, "no cells");
    for (unsigned k = pre; k < pts.size(); ++k) {
        Point<2> q{pts[k][0], pts[k][1]};
        AlignedVector<Point<2>> qs(1, q);
        auto z = tri.GlobalToLocalCoordinates(qs)[0];
        PCHECK(z[0] > -1 - 1e-9 && z[1] > -1 - 1e-9 && z[0] + z[1] < 1e-9, "point outside the triangle");
    }
    PNOTE("triangle sides " << l1 << "," << l2 << " angle " << da);
    t.nontrivial();
}
#endif

// ---------------------------------------------------------------------------------------------- P08
struct FakeState {
    HybMatrix<double, 3> q, solution;
};
struct FakeElt {
    struct {
        std::vector<FakeState> state;
    } data;
};
static const unsigned SCHEMES[12][2] = {{1, 1}, {2, 2}, {3, 3}, {4, 3}, {5, 3}, {6, 3}, {7, 3}, {8, 3}, {5, 4}, {6, 4}, {7, 4}, {8, 4}};
// radius of absolute monotonicity (SSP coefficient) of the optimal schemes in the literature
static const double SSPC[12] = {1, 1, 1, 2, 2.65, 3.51, 4.28, 5.10, 1.508, 2.29, 3.32, 4.14};

static StepperInput mk(unsigned ns, unsigned ord, double dt, double ramp) {
    StepperInput s;
    s.nstages       = ns;
    s.order         = ord;
    s.dt            = dt;
    s.run_time      = 1;
    s.ramp_duration = ramp;
    return s;
}

// One step of the stepper on formal stage derivatives gives its Butcher tableau (A,b,c).
static void tableau(ESSPRKStepper& st, unsigned ns, double dt, double t0, std::vector<std::vector<double>>& A, std::vector<double>& b, std::vector<double>& c) {
    FakeElt e;
    e.data.state.resize(ns + 1);
    for (auto& s : e.data.state) {
        s.q        = HybMatrix<double, 3>::Zero(3, ns + 1);
        s.solution = HybMatrix<double, 3>::Zero(3, ns + 1);
    }
    for (unsigned v = 0; v < 3; ++v)
        e.data.state[0].q(v, 0) = 1 + v;
    A.assign(ns, std::vector<double>(ns, 0));
    b.assign(ns, 0);
    c.assign(ns, 0);
    for (unsigned s = 0; s < ns; ++s) {
        PCHECK(st.GetStage() == s, "stage counter");
        PNEAR(e.data.state[s].q(2, 0), 3.0, 1e-9, "coefficient of the old state in stage " << s);
        for (unsigned j = 0; j < ns; ++j) {
            A[s][j] = e.data.state[s].q(1, j + 1);
            PNEAR(e.data.state[s].q(0, j + 1), A[s][j], 1e-13, "variables treated differently");
        }
        c[s]                               = (st.GetTimeAtCurrentStage() - t0) / dt;
        e.data.state[s].solution           = HybMatrix<double, 3>::Zero(3, ns + 1);
        e.data.state[s].solution.col(s + 1) = StatVector<double, 3>::Ones() / dt;
        st.UpdateState(e);
        ++st;
    }
    PNEAR(e.data.state[0].q(2, 0), 3.0, 1e-9, "coefficient of the old state after the step");
    for (unsigned j = 0; j < ns; ++j)
        b[j] = e.data.state[0].q(1, j + 1);
}

#if SEL(8)
LAW(P08, rk_order_and_stage_times, "at least two stages", 12000, 300000) {
    unsigned k = t.i(0, 11), ns = SCHEMES[k][0], ord = SCHEMES[k][1];
    double dt = t.lg(1e-3, 1e3);
    ESSPRKStepper st(mk(ns, ord, dt, 0.0));
    PNOTE("scheme (" << ns << "," << ord << ") dt=" << dt);
    PCHECK(st.GetNumStages() == ns && st.GetOrder() == ord && st.GetDT() == dt, "scheme parameters");
    unsigned pre = t.i(0, 4);
    FakeElt e;
    for (unsigned s = 0; s < pre * ns; ++s)
        ++st;
    PCHECK(st.GetStep() == pre, "number of steps after " << pre * ns << " stages");
    std::vector<std::vector<double>> A;
    std::vector<double> b, c;
    tableau(st, ns, dt, pre * dt, A, b, c);
    PCHECK(st.GetStep() == pre + 1 && st.GetStage() == 0, "step counter");
    PNEAR(st.GetTimeAtCurrentStage(), (pre + 1) * dt, 1e-12 * dt * (pre + 1), "time after the step");
    auto S = [&](std::function<double(unsigned)> f) {
        double s = 0;
        for (unsigned i = 0; i < ns; ++i)
            s += b[i] * f(i);
        return s;
    };
    const double tol = 2e-8;  // published coefficients carry 11 or more digits
    std::vector<double> rc(ns, 0), Ac(ns, 0), Ac2(ns, 0), AAc(ns, 0);
    for (unsigned i = 0; i < ns; ++i) {
        for (unsigned j = 0; j < ns; ++j) {
            PCHECK(j < i || std::abs(A[i][j]) < 1e-14, "stage " << i << " uses a later stage");
            rc[i] += A[i][j];
        }
        PNEAR(c[i], rc[i], tol, "time reported at stage " << i << " of scheme (" << ns << "," << ord << ") in units of dt after the step's start");
    }
    for (unsigned i = 0; i < ns; ++i)
        for (unsigned j = 0; j < ns; ++j) {
            Ac[i] += A[i][j] * rc[j];
            Ac2[i] += A[i][j] * rc[j] * rc[j];
        }
    for (unsigned i = 0; i < ns; ++i)
        for (unsigned j = 0; j < ns; ++j)
            AAc[i] += A[i][j] * Ac[j];
    PNEAR(S([&](unsigned) { return 1.0; }), 1.0, tol, "order-1 condition");
    if (ord >= 2)
        PNEAR(S([&](unsigned i) { return rc[i]; }), 1. / 2, tol, "order-2 condition");
    if (ord >= 3) {
        PNEAR(S([&](unsigned i) { return rc[i] * rc[i]; }), 1. / 3, tol, "order-3 condition b c^2");
        PNEAR(S([&](unsigned i) { return Ac[i]; }), 1. / 6, tol, "order-3 condition b A c");
    }
    if (ord >= 4) {
        PNEAR(S([&](unsigned i) { return rc[i] * rc[i] * rc[i]; }), 1. / 4, tol, "order-4 condition b c^3");
        PNEAR(S([&](unsigned i) { return rc[i] * Ac[i]; }), 1. / 8, tol, "order-4 condition b c A c");
        PNEAR(S([&](unsigned i) { return Ac2[i]; }), 1. / 12, tol, "order-4 condition b A c^2");
        PNEAR(S([&](unsigned i) { return AAc[i]; }), 1. / 24, tol, "order-4 condition b A A c");
    }
    // strong stability: absolutely monotone up to a fraction of the optimal coefficient
    double r = SSPC[k] * t.r(0.02, 0.95);
    DynMatrix<double> K = DynMatrix<double>::Zero(ns + 1, ns + 1);
    for (unsigned i = 0; i < ns; ++i) {
        for (unsigned j = 0; j < ns; ++j)
            K(i, j) = A[i][j];
        K(ns, i) = b[i];
    }
    DynMatrix<double> Q = (DynMatrix<double>::Identity(ns + 1, ns + 1) + r * K).inverse();
    DynMatrix<double> KQ = K * Q;
    for (unsigned i = 0; i <= ns; ++i) {
        double s = 0;
        for (unsigned j = 0; j <= ns; ++j) {
            PCHECK(KQ(i, j) > -1e-9, "not strong-stability preserving with coefficient " << r);
            s += KQ(i, j);
        }
        PCHECK(r * s < 1 + 1e-9, "not strong-stability preserving with coefficient " << r);
    }
    if (ns >= 2)
        t.nontrivial();
    t.label("scheme " + std::to_string(ns) + "," + std::to_string(ord));
}
#endif

#if SEL(8)
LAW(P08, rk_integrates, "at least two stages and a right-hand side depending on time and state", 3600, 100000) {
    // the stepper driven as the solver drives it against an exact solution:
    // y' = g(t) + M (y - Y(t)) with y = Y(t); error ratio under halving of dt shows the order
    unsigned k = t.i(0, 11), ns = SCHEMES[k][0], ord = SCHEMES[k][1];
    double w = t.r(1.0, 3.0), ph = t.r(0, 6), lam = -t.r(0.2, 2.0), non = t.r(0, 0.5), T = 2.0;
    auto Y  = [&](double x) { return std::sin(w * x + ph); };
    auto dY = [&](double x) { return w * std::cos(w * x + ph); };
    auto f  = [&](double x, double y) { return dY(x) + lam * (y - Y(x)) + non * (y * y - Y(x) * Y(x)); };
    auto run = [&](unsigned n) {
        double dt = T / n;
        ESSPRKStepper st(mk(ns, ord, dt, 0.0));
        FakeElt e;
        e.data.state.resize(ns + 1);
        for (auto& s : e.data.state) {
            s.q        = HybMatrix<double, 3>::Zero(3, 2);
            s.solution = HybMatrix<double, 3>::Zero(3, 2);
        }
        e.data.state[0].q(2, 1) = Y(0);
        double worst = 0;
        for (unsigned q = 0; q < n; ++q) {
            for (unsigned s = 0; s < ns; ++s) {
                auto& c         = e.data.state[st.GetStage()];
                c.solution(2, 1) = f(st.GetTimeAtCurrentStage(), c.q(2, 1));
                st.UpdateState(e);
                ++st;
            }
            worst = std::max(worst, std::abs(e.data.state[0].q(2, 1) - Y((q + 1) * dt)));
        }
        PCHECK(st.GetStep() == n, "number of steps");
        PNEAR(st.GetTimeAtCurrentStage(), T, 1e-10, "final time");
        return worst;
    };
    PNOTE("scheme (" << ns << "," << ord << ") w=" << w << " lambda=" << lam << " nonlinearity " << non);
    // the largest error over a geometric sequence of step counts decays like h^order: fit over a factor 8
    double e1 = 0, e2 = 0;
    for (unsigned n : {8u, 9u, 10u})
        e1 = std::max(e1, std::abs(run(n)));
    for (unsigned n : {64u, 72u, 80u})
        e2 = std::max(e2, std::abs(run(n)));
    double rate = std::log(e1 / e2) / std::log(8.0);
    if (e1 > 1e-6 && e2 > 1e-11)
        PCHECK(rate > ord - 0.8, "observed order " << rate << " for the order-" << ord << " scheme with " << ns << " stages (errors " << e1 << ", " << e2 << ")");
    if (ns >= 2)
        t.nontrivial();
}
#endif

#if SEL(8)
LAW(P08, times_and_ramp, "several steps with a ramp", 9000, 250000) {
    unsigned k = t.i(0, 11), ns = SCHEMES[k][0], ord = SCHEMES[k][1];
    double dt = t.lg(1e-2, 5e3), rd = t.chance(75) ? t.lg(1e-3, 20.0) : 0.0;
    unsigned n = t.i(1, 40);
    ESSPRKStepper st(mk(ns, ord, dt, rd));
    auto ramp = [&](double x) { return rd > 0 ? std::tanh(2 * (x / 86400) / rd) : 1.0; };
    PNOTE("scheme (" << ns << "," << ord << ") dt=" << dt << " ramp " << rd << " days, " << n << " steps");
    double prev = -1;
    for (unsigned q = 0; q < n; ++q)
        for (unsigned s = 0; s < ns; ++s) {
            PCHECK(st.GetStep() == q && st.GetStage() == s && st.GetTimestamp() == q * ns + s, "counters at step " << q << " stage " << s);
            double x = st.GetTimeAtCurrentStage();
            if (s == 0)
                PNEAR(x, q * dt, 1e-11 * (q + 1) * dt, "time at step " << q);
            PCHECK(x >= q * dt * (1 - 1e-11) && x <= (q + 1.25) * dt, "stage time far outside its step");
            PNEAR(st.GetRamp(), ramp(x), 1e-12, "ramp at time " << x);
            if (s == 0)
                PCHECK(st.GetRamp() >= prev - 1e-15 && st.GetRamp() >= 0 && st.GetRamp() <= 1, "ramp not monotone");
            if (s == 0)
                prev = st.GetRamp();
            ++st;
        }
    // implicit stepper
    unsigned io = t.i(1, 2);
    ImplicitStepper im(mk(t.i(1, io), io, dt, rd));
    PCHECK(im.GetNumStages() == 1, "implicit scheme has one stage");
    PNEAR(im.GetTheta(), io == 1 ? 0.0 : 0.5, 0.0, "weight of the old time level");
    for (unsigned q = 0; q < n; ++q) {
        PCHECK(im.GetStep() == q && im.GetStage() == 0, "implicit counters");
        PNEAR(im.GetTimeAtCurrentStage(), q * dt, 1e-11 * (q + 1) * dt, "implicit time");
        PNEAR(im.GetTimeAtNextStage(), (q + 1) * dt, 1e-11 * (q + 1) * dt, "implicit next time");
        PNEAR(im.GetRamp(), ramp(q * dt), 1e-12, "implicit ramp");
        PNEAR(im.GetRampNext(), ramp((q + 1) * dt), 1e-12, "implicit next ramp");
        ++im;
    }
    // Strang splitting: the first stepper does half steps, the second whole steps
    SecondStrangStepper<ESSPRKStepper, ImplicitStepper> ss(mk(2, 2, dt, rd));
    for (unsigned q = 0; q < std::min(n, 10u); ++q) {
        PNEAR(ss.GetTimeAtCurrentStage(), q * dt, 1e-11 * (q + 1) * dt, "split time");
        PCHECK(ss.GetStep() == q, "split step");
        PNEAR(ss.GetFirstStepper().GetDT(), dt / 2, 0, "half step");
        PNEAR(ss.GetSecondStepper().GetDT(), dt, 0, "whole step");
        for (int h = 0; h < 2; ++h) {
            PNEAR(ss.GetFirstStepper().GetTimeAtCurrentStage(), (q + h / 2.0) * dt, 1e-11 * (q + 1) * dt, "split time of the first part");
            for (int s = 0; s < 2; ++s)
                ++ss.GetFirstStepper();
            if (h == 0)
                ++ss.GetSecondStepper();
        }
    }
    if (n > 1 && rd > 0)
        t.nontrivial();
}
#endif

#if SEL(8)
LAW(P08, unknown_schemes_refused, "a pair that is not offered", 1500, 10000) {
    unsigned ns = t.i(0, 10), ord = t.i(0, 6);
    bool known  = false;
    for (auto& s : SCHEMES)
        known = known || (s[0] == ns && s[1] == ord);
    if (known)
        t.discard();
    bool thrown = false;
    try {
        ESSPRKStepper st(mk(ns, ord, 1.0, 0.0));
    } catch (const std::exception&) {
        thrown = true;
    }
    PNOTE("(" << ns << "," << ord << ")");
    PCHECK(thrown, "unknown Runge-Kutta scheme (" << ns << "," << ord << ") accepted");
    if (!(ns == 1 && (ord == 1 || ord == 2)) && !(ns == 2 && ord == 2)) {
        thrown = false;
        try {
            ImplicitStepper st(mk(ns, ord, 1.0, 0.0));
        } catch (const std::exception&) {
            thrown = true;
        }
        PCHECK(thrown, "unknown implicit scheme (" << ns << "," << ord << ") accepted");
    }
    t.nontrivial();
}
#endif
