// P04: element, boundary, interface and edge operators against an own quadrature and own geometry, on every kind of
// polynomial the rules have to integrate exactly.
#include "ref.hpp"

namespace {
using namespace ref;
using Prob = SWE::EHDG::Problem;

struct Poly {  // sum c_ij X^i Y^j, X = (x-x0)/L, Y = (y-y0)/L
    double x0, y0, L;
    int deg;
    std::vector<double> c;
    static Poly make(pbt::T& t, const Geo& g, int deg) {
        Poly p;
        p.x0  = (g.x[0] + g.x[1] + g.x[2]) / 3;
        p.y0  = (g.y[0] + g.y[1] + g.y[2]) / 3;
        p.L   = std::max(g.elen(0), std::max(g.elen(1), g.elen(2)));
        p.deg = deg;
        p.c.resize((deg + 1) * (deg + 2) / 2);
        bool mono = t.chance(30);
        for (auto& v : p.c)
            v = mono ? 0.0 : t.s(1);
        if (mono)
            p.c[t.i(0, (long)p.c.size() - 1)] = 1;
        return p;
    }
    double pw(double a, int n) const {
        double r = 1;
        for (int k = 0; k < n; ++k)
            r *= a;
        return r;
    }
    double operator()(double x, double y) const {
        double X = (x - x0) / L, Y = (y - y0) / L, s = 0;
        int k = 0;
        for (int d = 0; d <= deg; ++d)
            for (int i = 0; i <= d; ++i)
                s += c[k++] * pw(X, i) * pw(Y, d - i);
        return s;
    }
    P2 grad(double x, double y) const {
        double X = (x - x0) / L, Y = (y - y0) / L;
        P2 s{{0, 0}};
        int k = 0;
        for (int d = 0; d <= deg; ++d)
            for (int i = 0; i <= d; ++i, ++k) {
                int j = d - i;
                if (i)
                    s[0] += c[k] * i * pw(X, i - 1) * pw(Y, j) / L;
                if (j)
                    s[1] += c[k] * j * pw(X, i) * pw(Y, j - 1) / L;
            }
        return s;
    }
    double mag() const {
        double s = 0;
        for (double v : c)
            s += std::abs(v);
        return s;
    }
};
int degree_of(int dof) {
    int k = 0;
    while ((k + 1) * (k + 2) / 2 <= dof)
        ++k;
    return k;
}
// own volume rule on the reference triangle with basis values and reference gradients of the basis there
struct Rule {
    std::vector<std::array<double, 2>> z;
    std::vector<double> w;
    DynMatrix<double> phi;
    std::array<DynMatrix<double>, 2> dphi;
};
Rule& vrule(uint p) {
    static std::map<uint, Rule> c;
    auto it = c.find(p);
    if (it != c.end())
        return it->second;
    Rule r;
    oracle::triangle_rule(3 * p + 4, r.z, r.w);
    r.phi = sim::phi_at(p, r.z);
    AlignedVector<Point<2>> pts(r.z.size());
    for (size_t k = 0; k < r.z.size(); ++k) {
        pts[k][0] = r.z[k][0];
        pts[k][1] = r.z[k][1];
    }
    Basis::Dubiner_2D b;
    r.dphi = b.GetDPhi(p, pts);
    return c[p] = r;
}
struct Elt {  // own physical quadrature on one element
    Geo g;
    Rule* r;
    std::vector<P2> x;
    std::vector<double> w;
    double a[2][2];  // d(ref)/d(phys)
    Elt(const Geo& geo, uint p) : g(geo), r(&vrule(p)) {
        for (size_t k = 0; k < r->w.size(); ++k) {
            x.push_back(g.phys(r->z[k][0], r->z[k][1]));
            w.push_back(r->w[k] * g.area() / 2);
        }
        double D = g.area2();
        a[0][0] = 2 * (g.y[2] - g.y[0]) / D;
        a[0][1] = -2 * (g.x[2] - g.x[0]) / D;
        a[1][0] = -2 * (g.y[1] - g.y[0]) / D;
        a[1][1] = 2 * (g.x[1] - g.x[0]) / D;
    }
    double phi(int i, size_t k) const { return r->phi(i, k); }
    double dphi(int dir, int i, size_t k) const { return r->dphi[0](i, k) * a[0][dir] + r->dphi[1](i, k) * a[1][dir]; }
};
mg::Mesh small_mesh(pbt::T& t, std::vector<int> kinds, int nmax, bool levee = false) {
    mg::Opts mo;
    mo.nx_max = mo.ny_max = nmax;
    double L = t.lg(1e-2, 1e5);
    mo.Lmin = mo.Lmax = L;
    mo.zlo = 0.5;
    mo.zhi = 2;
    mo.kinds = kinds;
    mo.levee = levee;
    mo.aspect = 8;
    return mg::gen(t, mo);
}
template <typename S>
std::vector<double> row_of(const S& m, int r) {
    DynMatrix<double> d = m;
    std::vector<double> v(d.cols());
    for (int k = 0; k < d.cols(); ++k)
        v[k] = d(r, k);
    return v;
}
DynMatrix<double> at(const std::vector<Poly>& f, const std::vector<P2>& x) {
    DynMatrix<double> m(f.size(), x.size());
    for (size_t v = 0; v < f.size(); ++v)
        for (size_t k = 0; k < x.size(); ++k)
            m(v, k) = f[v](x[k][0], x[k][1]);
    return m;
}
std::vector<Poly> polys(pbt::T& t, const Geo& g, int n, int deg) {
    std::vector<Poly> v;
    for (int k = 0; k < n; ++k)
        v.push_back(Poly::make(t, g, deg));
    return v;
}
double shape_factor(const Geo& g) {  // longest edge over smallest height: amplifies rounding in derivatives
    double l = std::max(g.elen(0), std::max(g.elen(1), g.elen(2)));
    return l * l / g.area();
}

template <typename E>
void check_element(pbt::T& t, E& elt, uint p) {
    Geo g = geo(elt);
    Elt o(g, p);
    const int ndof = (p + 1) * (p + 2) / 2, nv = t.i(1, 3);
    auto pts       = Capture::elt(elt);
    const double A = g.area(), L = std::max(g.elen(0), std::max(g.elen(1), g.elen(2))), sf = shape_factor(g);
    // coordinates far from the origin carry absolute rounding errors
    double off = 0;
    for (int k = 0; k < 3; ++k)
        off = std::max(off, std::max(std::abs(g.x[k]), std::abs(g.y[k])));
    const double pos = 1 + off / L, eps = 1e-13 * sf * pos * (p + 1) * (p + 1);

    PCHECK(pts.size() == elt.data.get_ngp_internal(), "number of integration points of an element");
    PCHECK(elt.data.get_ndof() == (uint)ndof && elt.data.get_nbound() == 3 && elt.data.get_nvrtx() == 3 && elt.data.get_nnode() == 3, "sizes announced to the data");
    // plain integrals of everything up to degree 2p
    {
        auto f  = polys(t, g, nv, t.i(0, 2 * p));
        DynVector<double> I = elt.Integration(at(f, pts));
        for (int v = 0; v < nv; ++v) {
            long double s = 0;
            for (size_t k = 0; k < o.w.size(); ++k)
                s += o.w[k] * f[v](o.x[k][0], o.x[k][1]);
            PNEAR(I[v], (double)s, eps * A * f[v].mag(), "integral over an element of a polynomial of degree " << f[v].deg << " (p " << p << ")");
        }
    }
    // projection, evaluation, derivatives
    auto f = polys(t, g, nv, t.i(0, p));
    DynMatrix<double> F = at(f, pts);
    DynMatrix<double> q = elt.L2Projection(F);
    PCHECK(q.rows() == nv && q.cols() == ndof, "size of a projection");
    {
        DynMatrix<double> own(nv, ndof);
        for (int v = 0; v < nv; ++v)
            for (int i = 0; i < ndof; ++i) {
                long double a = 0, b = 0;
                for (size_t k = 0; k < o.w.size(); ++k) {
                    a += o.w[k] * o.phi(i, k) * f[v](o.x[k][0], o.x[k][1]);
                    b += o.w[k] * o.phi(i, k) * o.phi(i, k);
                }
                own(v, i) = (double)(a / b);
                PNEAR(q(v, i), own(v, i), 10 * eps * f[v].mag(), "coefficient " << i << " of the L2 projection of a polynomial of degree " << f[v].deg << ", p " << p);
            }
        if (nv == 1) {
            auto& f0 = f[0];
            DynMatrix<double> qf = elt.L2ProjectionF([&](Point<2>& x) { return StatVector<double, 1>(f0(x[0], x[1])); });
            for (int i = 0; i < ndof; ++i)
                PNEAR(qf(0, i), own(0, i), 10 * eps * f0.mag(), "coefficient " << i << " of the L2 projection of a function");
        } else if (nv == 3) {
            DynMatrix<double> qf = elt.L2ProjectionF([&](Point<2>& x) {
                return StatVector<double, 3>{f[0](x[0], x[1]), f[1](x[0], x[1]), f[2](x[0], x[1])};
            });
            for (int v = 0; v < 3; ++v)
                for (int i = 0; i < ndof; ++i)
                    PNEAR(qf(v, i), own(v, i), 10 * eps * f[v].mag(), "coefficient " << i << " of the L2 projection of a function, variable " << v);
        }
        q = own;
    }
    DynMatrix<double> u = elt.ComputeUgp(q);
    DynMatrix<double> ux = elt.ComputeDUgp(0, q), uy = elt.ComputeDUgp(1, q);
    for (int v = 0; v < nv; ++v)
        for (size_t k = 0; k < pts.size(); ++k) {
            PNEAR(u(v, k), F(v, k), 10 * eps * ndof * f[v].mag(), "value at an integration point of a projected polynomial");
            auto d = f[v].grad(pts[k][0], pts[k][1]);
            double tol = 10 * eps * ndof * (p + 1) * (p + 1) * sf / L * f[v].mag();
            PNEAR(ux(v, k), d[0], tol, "x derivative at an integration point of a projected polynomial");
            PNEAR(uy(v, k), d[1], tol, "y derivative at an integration point of a projected polynomial");
        }
    // integrals against test functions
    {
        int i = t.i(0, ndof - 1), j = t.i(0, ndof - 1), dir = t.i(0, 1), ki = degree_of(i), kj = degree_of(j);
        auto chk = [&](int room, auto lib, auto w, double scale, const char* what) {
            if (room < 0)
                return;
            auto h = polys(t, g, nv, t.i(0, room));
            DynVector<double> I = lib(at(h, pts));
            PCHECK(I.size() == nv, "size of " << what);
            for (int v = 0; v < nv; ++v) {
                long double s = 0;
                for (size_t k = 0; k < o.w.size(); ++k)
                    s += o.w[k] * w(k) * h[v](o.x[k][0], o.x[k][1]);
                PNEAR(I[v], (double)s, 10 * eps * A * scale * h[v].mag(), what << " with dofs " << i << "," << j << ", direction " << dir << ", a polynomial of degree " << h[v].deg << ", p " << p);
            }
        };
        double B = (p + 1) * (p + 1), D = B * B * sf / L;
        int P = p;
        chk(2 * P - ki, [&](const DynMatrix<double>& h) { return DynVector<double>(elt.IntegrationPhi(i, h)); }, [&](size_t k) { return o.phi(i, k); }, B, "integral against a test function");
        chk(2 * P - ki - kj, [&](const DynMatrix<double>& h) { return DynVector<double>(elt.IntegrationPhiPhi(i, j, h)); }, [&](size_t k) { return o.phi(i, k) * o.phi(j, k); }, B * B, "integral against two test functions");
        chk(2 * P - std::max(0, ki - 1), [&](const DynMatrix<double>& h) { return DynVector<double>(elt.IntegrationDPhi(dir, i, h)); }, [&](size_t k) { return o.dphi(dir, i, k); }, D, "integral against the derivative of a test function");
        chk(2 * P - ki - std::max(0, kj - 1), [&](const DynMatrix<double>& h) { return DynVector<double>(elt.IntegrationPhiDPhi(i, dir, j, h)); }, [&](size_t k) { return o.phi(i, k) * o.dphi(dir, j, k); }, B * D, "integral against a test function and a derivative");
        // the forms for all test functions at once agree with those for one
        DynMatrix<double> all = elt.IntegrationPhi(F), alld = elt.IntegrationDPhi(dir, F);
        PCHECK(all.cols() == ndof && alld.cols() == ndof, "size of integrals against all test functions");
        for (int d = 0; d < ndof; ++d) {
            DynVector<double> one = elt.IntegrationPhi(d, F), oned = elt.IntegrationDPhi(dir, d, F);
            for (int v = 0; v < nv; ++v) {
                PNEAR(all(v, d), one[v], 10 * eps * A * B * f[v].mag(), "integral against test function " << d << " of all");
                PNEAR(alld(v, d), oned[v], 10 * eps * A * D * f[v].mag(), "integral against the derivative of test function " << d << " of all");
            }
        }
        DynMatrix<double> back = elt.ApplyMinv(all);
        for (int v = 0; v < nv; ++v)
            for (int d = 0; d < ndof; ++d)
                PNEAR(back(v, d), q(v, d), 100 * eps * B * f[v].mag(), "inverse mass matrix times moments, coefficient " << d);
    }
    // linear and nodal data
    {
        DynMatrix<double> lin(nv, 3);
        for (int v = 0; v < nv; ++v)
            for (int k = 0; k < 3; ++k)
                lin(v, k) = t.s(1);
        auto val = [&](int v, double X, double Y) {
            auto r = g.ref_of(X, Y);
            double l1 = (1 + r[0]) / 2, l2 = (1 + r[1]) / 2;
            return (1 - l1 - l2) * lin(v, 0) + l1 * lin(v, 1) + l2 * lin(v, 2);
        };
        Geo z = g;
        DynMatrix<double> a = elt.ComputeLinearUgp(lin), b = elt.ComputeNodalUgp(lin);
        DynMatrix<double> ax = elt.ComputeLinearDUgp(0, lin), ay = elt.ComputeLinearDUgp(1, lin);
        DynMatrix<double> bx = elt.ComputeNodalDUgp(0, lin), by = elt.ComputeNodalDUgp(1, lin);
        DynMatrix<double> c = elt.ComputeLinearUbaryctr(lin), cx = elt.ComputeLinearDUbaryctr(0, lin), cy = elt.ComputeLinearDUbaryctr(1, lin);
        DynMatrix<double> m = elt.ComputeLinearUmidpts(lin), vx = elt.ComputeLinearUvrtx(lin);
        DynMatrix<double> pl = elt.ProjectLinearToBasis(lin), pn = elt.L2ProjectionNode(lin);
        DynMatrix<double> bl = elt.ProjectBasisToLinear(pl);
        for (int v = 0; v < nv; ++v) {
            for (int k = 0; k < 3; ++k)
                z.z[k] = lin(v, k);
            auto d = z.gradz();
            double td = 100 * eps * sf / L;
            for (size_t k = 0; k < pts.size(); ++k) {
                double e = val(v, pts[k][0], pts[k][1]);
                PNEAR(a(v, k), e, 10 * eps, "linear data at an integration point");
                PNEAR(b(v, k), e, 10 * eps, "nodal data at an integration point");
                PNEAR(ax(v, k), d[0], td, "x derivative of linear data");
                PNEAR(ay(v, k), d[1], td, "y derivative of linear data");
                PNEAR(bx(v, k), d[0], td, "x derivative of nodal data");
                PNEAR(by(v, k), d[1], td, "y derivative of nodal data");
            }
            PNEAR(c(v, 0), (lin(v, 0) + lin(v, 1) + lin(v, 2)) / 3, 1e-13, "linear data at the barycentre");
            PNEAR(cx(v, 0), d[0], td, "x derivative of linear data at the barycentre");
            PNEAR(cy(v, 0), d[1], td, "y derivative of linear data at the barycentre");
            for (int k = 0; k < 3; ++k) {
                PNEAR(m(v, k), (lin(v, (k + 1) % 3) + lin(v, (k + 2) % 3)) / 2, 1e-13, "linear data at edge midpoint " << k);
                PNEAR(vx(v, k), lin(v, k), 1e-13, "linear data at vertex " << k);
                PNEAR(bl(v, k), lin(v, k), 1e-11, "linear data through the modal basis and back, vertex " << k);
            }
            DynMatrix<double> e = pl * o.r->phi, en = pn * o.r->phi;
            for (size_t k = 0; k < o.x.size(); ++k) {
                PNEAR(e(v, k), val(v, o.x[k][0], o.x[k][1]), 100 * eps, "modal representation of linear data");
                PNEAR(en(v, k), val(v, o.x[k][0], o.x[k][1]), 100 * eps * ndof, "projection of nodal data");
            }
        }
    }
    // residual against a function: squared L2 distance
    {
        int deg = t.i(0, 10);
        auto h = polys(t, g, 3, deg);
        DynMatrix<double> w(3, ndof);
        for (int v = 0; v < 3; ++v)
            for (int i = 0; i < ndof; ++i)
                w(v, i) = t.s(1);
        double r = elt.ComputeResidualL2([&](Point<2>& x) { return StatVector<double, 3>{h[0](x[0], x[1]), h[1](x[0], x[1]), h[2](x[0], x[1])}; }, w);
        std::vector<std::array<double, 2>> z;
        std::vector<double> ww;
        oracle::triangle_rule(std::max(2 * deg, (int)(2 * p)), z, ww);
        DynMatrix<double> uu = w * sim::phi_at(p, z);
        long double s = 0, sc = 0;
        for (size_t k = 0; k < z.size(); ++k) {
            auto x = g.phys(z[k][0], z[k][1]);
            for (int v = 0; v < 3; ++v) {
                double d = h[v](x[0], x[1]) - uu(v, k);
                s += (long double)ww[k] * A / 2 * d * d;
                sc += (long double)ww[k] * A / 2 * (std::abs(h[v](x[0], x[1])) + std::abs(uu(v, k))) * (h[v].mag() + std::abs(uu(v, k)));
            }
        }
        PNEAR(r, (double)s, 100 * eps * (double)sc, "squared L2 distance between a state and a function of degree " << deg);
    }
    // values at arbitrary points of the element
    {
        int n = t.i(1, 4);
        AlignedVector<Point<2>> sp(n);
        for (int k = 0; k < n; ++k) {
            double a = t.r(0, 1), b = t.r(0, 1);
            if (a + b > 1)
                a = 1 - a, b = 1 - b;
            auto x = g.phys(2 * a - 1, 2 * std::min(b, 0.9999) - 1);
            sp[k][0] = x[0];
            sp[k][1] = x[1];
        }
        elt.SetSurveyPoints(sp);
        AlignedVector<DynVector<double>> out;
        elt.WriteSurveyPointData(q, out);
        PCHECK((int)out.size() == n, "number of survey point values");
        for (int k = 0; k < n; ++k)
            for (int v = 0; v < nv; ++v)
                PNEAR(out[k][v], f[v](sp[k][0], sp[k][1]), 1000 * eps * ndof * f[v].mag() * (p + 1) * (p + 1), "value of a state at a survey point");
    }
    // visualisation values belong to the visualisation points and cells
    {
        AlignedVector<Point<3>> P;
        Array2D<uint> C;
        elt.InitializeVTK(P, C);
        AlignedVector<DynVector<double>> cd, pd;
        elt.WriteCellDataVTK(q, cd);
        elt.WritePointDataVTK(q, pd);
        PCHECK(pd.size() == P.size() && cd.size() == C.size(), "visualisation: " << P.size() << " points with " << pd.size() << " values, " << C.size() << " cells with " << cd.size() << " values");
        for (size_t k = 0; k < P.size(); ++k)
            for (int v = 0; v < nv; ++v)
                PNEAR(pd[k][v], f[v](P[k][0], P[k][1]), 100 * eps * ndof * f[v].mag(), "visualisation value at point " << k);
        for (size_t k = 0; k < C.size(); ++k) {
            PCHECK(C[k].size() >= 3, "visualisation cell with few vertices");
            double X = 0, Y = 0;
            int n = 0;
            // the last entry may be the cell type
            for (int j = (int)C[k].size() - 3; j < (int)C[k].size(); ++j, ++n) {
                X += P[C[k][j]][0] / 3;
                Y += P[C[k][j]][1] / 3;
            }
            for (int v = 0; v < nv; ++v)
                PNEAR(cd[k][v], f[v](X, Y), 100 * eps * ndof * f[v].mag(), "visualisation value of cell " << k);
        }
    }
}
// surface quantities of one side: points, normals, integrals along edge k of geometry g
template <typename Cap, typename U, typename NU, typename BU, typename I, typename IP, typename IPA, typename IPP>
void check_side(pbt::T& t, const Geo& g, uint p, int k, const Cap& pts, const HybMatrix<double, 2>& n, const U& ugp, const NU& nugp, const BU& bugp, const I& integ, const IP& iphi, const IPA& iphi_all, const IPP& iphiphi, const char* side) {
    const int ngp = pts.size(), ndof = (p + 1) * (p + 2) / 2;
    const double len = g.elen(k), L = std::max(g.elen(0), std::max(g.elen(1), g.elen(2)));
    double off = 0;
    for (int v = 0; v < 3; ++v)
        off = std::max(off, std::max(std::abs(g.x[v]), std::abs(g.y[v])));
    const double pos = 1 + off / std::min(len, L), eps = 1e-13 * shape_factor(g) * pos * (p + 1) * (p + 1);
    auto nn = g.normal(k);
    PCHECK(n.cols() == ngp, side << ": normals and points");
    double prev = -2;
    for (int q = 0; q < ngp; ++q) {
        PNEAR(n(0, q), nn[0], eps, side << ": x component of the outward normal of edge " << k);
        PNEAR(n(1, q), nn[1], eps, side << ": y component of the outward normal of edge " << k);
        double s = g.edge_s(k, pts[q][0], pts[q][1]);
        auto e   = g.edge_pt(k, s);
        PNEAR(std::hypot(e[0] - pts[q][0], e[1] - pts[q][1]), 0.0, eps * L, side << ": distance of an integration point from edge " << k);
        PCHECK(s > prev, side << ": integration points run along edge " << k << " counter-clockwise");
        prev = s;
    }
    // integrals along the edge of everything up to degree 2p+1
    auto own = [&](auto fn, int deg) {
        auto& G = oracle::gauss(deg / 2 + 2);
        long double s = 0;
        for (size_t q = 0; q < G.first.size(); ++q) {
            auto x = g.edge_pt(k, (double)G.second[q]);
            s += G.first[q] * len / 2 * fn(x);
        }
        return (double)s;
    };
    std::vector<P2> X(pts.begin(), pts.end());
    auto basis = [&](int i, const P2& x) { return (double)phi1(p, g, x[0], x[1])(i, 0); };
    {
        auto f = polys(t, g, 2, t.i(0, 2 * p + 1));
        DynVector<double> v = integ(at(f, X));
        for (int c = 0; c < 2; ++c)
            PNEAR(v[c], own([&](const P2& x) { return f[c](x[0], x[1]); }, 2 * p + 1), 10 * eps * len * f[c].mag(), side << ": integral along edge " << k << " of a polynomial of degree " << f[c].deg);
    }
    int i = t.i(0, ndof - 1), j = t.i(0, ndof - 1), ki = degree_of(i), kj = degree_of(j);
    double B = (p + 1) * (p + 1);
    {
        auto f = polys(t, g, 2, t.i(0, 2 * (int)p + 1 - ki));
        DynMatrix<double> F = at(f, X);
        DynVector<double> v = iphi(i, F);
        DynMatrix<double> all = iphi_all(F);
        PCHECK(all.cols() == ndof, side << ": size of the integrals against all test functions");
        for (int c = 0; c < 2; ++c) {
            double e = own([&](const P2& x) { return f[c](x[0], x[1]) * basis(i, x); }, 2 * p + 1);
            PNEAR(v[c], e, 10 * eps * len * B * f[c].mag(), side << ": integral along edge " << k << " against test function " << i);
            PNEAR(all(c, i), e, 10 * eps * len * B * f[c].mag(), side << ": integral along edge " << k << " against all test functions, " << i);
        }
    }
    if (2 * (int)p + 1 - ki - kj >= 0) {
        auto f = polys(t, g, 2, t.i(0, 2 * (int)p + 1 - ki - kj));
        DynVector<double> v = iphiphi(i, j, at(f, X));
        for (int c = 0; c < 2; ++c)
            PNEAR(v[c], own([&](const P2& x) { return f[c](x[0], x[1]) * basis(i, x) * basis(j, x); }, 2 * p + 1), 10 * eps * len * B * B * f[c].mag(),
                  side << ": integral along edge " << k << " against test functions " << i << " and " << j);
    }
    // traces
    DynMatrix<double> w(2, ndof);
    for (int c = 0; c < 2; ++c)
        for (int d = 0; d < ndof; ++d)
            w(c, d) = t.s(1);
    DynMatrix<double> u = ugp(w);
    DynMatrix<double> nod(1, 3), bn(1, 2);
    for (int c = 0; c < 3; ++c)
        nod(0, c) = t.s(1);
    bn(0, 0) = nod(0, (k + 1) % 3);
    bn(0, 1) = nod(0, (k + 2) % 3);
    DynMatrix<double> nu = nugp(nod), bu = bugp(bn);
    for (int q = 0; q < ngp; ++q) {
        auto ph = phi1(p, g, pts[q][0], pts[q][1]);
        for (int c = 0; c < 2; ++c) {
            double s = 0;
            for (int d = 0; d < ndof; ++d)
                s += w(c, d) * ph(d, 0);
            PNEAR(u(c, q), s, 1000 * eps * ndof * B, side << ": trace of a state on edge " << k);
        }
        double s = g.edge_s(k, pts[q][0], pts[q][1]), e = 0.5 * ((1 - s) * bn(0, 0) + (1 + s) * bn(0, 1));
        PNEAR(nu(0, q), e, 10 * eps, side << ": nodal data of the element on edge " << k);
        PNEAR(bu(0, q), e, 10 * eps, side << ": nodal data of edge " << k);
    }
}
template <typename EB, typename F1, typename F2>
void check_trace_space(pbt::T& t, EB& e, const Geo& g, uint p, int k, const std::vector<P2>& pts, bool ccw, int nphi, const F1& philam, const F2& philam_ex, const Geo* gx, int kx, const std::vector<P2>* ptsx) {
    const int nd = p + 1, ngp = pts.size();
    const double len = g.elen(k);
    double off = 0;
    for (int v = 0; v < 3; ++v)
        off = std::max(off, std::max(std::abs(g.x[v]), std::abs(g.y[v])));
    const double eps = 1e-12 * shape_factor(g) * (1 + off / len) * (p + 1) * (p + 1);
    PCHECK((int)e.edge_data.get_ndof() == nd && (int)e.edge_data.get_ngp() == ngp, "sizes announced to the edge data");
    // polynomial of the edge parameter s, up to degree p, with values at the points
    auto poly = [&](int deg) {
        std::vector<double> c(deg + 1);
        for (auto& v : c)
            v = t.s(1);
        return c;
    };
    auto ev = [](const std::vector<double>& c, double s) {
        double r = 0;
        for (size_t q = c.size(); q-- > 0;)
            r = r * s + c[q];
        return r;
    };
    auto par = [&](int q) { return g.edge_s(k, pts[q][0], pts[q][1]); };
    auto f   = poly(t.i(0, p));
    DynMatrix<double> F(1, ngp);
    for (int q = 0; q < ngp; ++q)
        F(0, q) = ev(f, par(q));
    DynMatrix<double> c = e.L2Projection(F);
    PCHECK(c.cols() == nd, "size of an edge projection");
    DynMatrix<double> u = e.ComputeUgp(c);
    for (int q = 0; q < ngp; ++q)
        PNEAR(u(0, q), F(0, q), 10 * eps, "edge projection of an edge polynomial, point " << q);
    // the edge basis, read off unit coefficients, as polynomials of the edge parameter: Legendre polynomials along the edge
    auto lam = [&](int d, double s) {
        double a = 1, b = s;
        if (!ccw)
            b = s = -s;
        if (d == 0)
            return 1.0;
        for (int n = 1; n < d; ++n) {
            double m = ((2 * n + 1) * s * b - n * a) / (n + 1);
            a = b;
            b = m;
        }
        return b;
    };
    for (int d = 0; d < nd; ++d) {
        DynMatrix<double> one(1, nd);
        set_constant(one, 0.0);
        one(0, d) = 1;
        DynMatrix<double> v = e.ComputeUgp(one);
        for (int q = 0; q < ngp; ++q)
            PNEAR(v(0, q), lam(d, par(q)), 10 * eps, "edge basis function " << d << " at point " << q << (ccw ? "" : " of a reversed edge"));
    }
    auto own = [&](auto fn) {
        auto& G = oracle::gauss(2 * p + 3);
        long double s = 0;
        for (size_t q = 0; q < G.first.size(); ++q)
            s += G.first[q] * len / 2 * fn((double)G.second[q]);
        return (double)s;
    };
    DynMatrix<double> mom(1, nd);
    int i = t.i(0, nd - 1), j = t.i(0, nd - 1), P = p;
    for (int d = 0; d < nd; ++d) {
        DynVector<double> v = e.IntegrationLambda(d, F);
        mom(0, d) = v[0];
        PNEAR(v[0], own([&](double s) { return ev(f, s) * lam(d, s); }), 10 * eps * len, "integral along an edge against edge function " << d);
    }
    DynMatrix<double> back = e.ApplyMinv(mom);
    for (int d = 0; d < nd; ++d)
        PNEAR(back(0, d), c(0, d), 100 * eps * nd, "inverse edge mass matrix times moments");
    if (2 * P + 1 - i - j >= 0) {
        auto h = poly(t.i(0, 2 * P + 1 - i - j));
        DynMatrix<double> H(1, ngp);
        for (int q = 0; q < ngp; ++q)
            H(0, q) = ev(h, par(q));
        DynVector<double> v = e.IntegrationLambdaLambda(i, j, H);
        PNEAR(v[0], own([&](double s) { return ev(h, s) * lam(i, s) * lam(j, s); }), 10 * eps * len * h.size(), "integral along an edge against edge functions " << i << "," << j);
    }
    int b = t.i(0, nphi - 1), kb = degree_of(b);
    if (2 * P + 1 - kb - j >= 0) {
        auto h = poly(t.i(0, 2 * P + 1 - kb - j));
        DynMatrix<double> H(1, ngp);
        for (int q = 0; q < ngp; ++q)
            H(0, q) = ev(h, par(q));
        DynVector<double> v = philam(b, j, H);
        double ex = own([&](double s) {
            auto x = g.edge_pt(k, s);
            return ev(h, s) * lam(j, s) * phi1(p, g, x[0], x[1])(b, 0);
        });
        PNEAR(v[0], ex, 100 * eps * len * h.size() * (P + 1) * (P + 1), "integral along an edge against element function " << b << " and edge function " << j);
        if (gx) {
            // values given in the order of the other side's points
            DynMatrix<double> HX(1, ngp);
            for (int q = 0; q < ngp; ++q)
                HX(0, q) = ev(h, g.edge_s(k, (*ptsx)[q][0], (*ptsx)[q][1]));
            DynVector<double> vx = philam_ex(b, j, HX);
            double exx = own([&](double s) {
                auto x = g.edge_pt(k, s);
                return ev(h, s) * lam(j, s) * phi1(p, *gx, x[0], x[1])(b, 0);
            });
            double epx = eps * (1 + shape_factor(*gx));
            PNEAR(vx[0], exx, 100 * epx * len * h.size() * (P + 1) * (P + 1), "integral along an edge against function " << b << " of the other element and edge function " << j);
        }
    }
}

#if SEL(4)
LAW(P04, element_operators, "order 2 or more on a mesh of at least two elements", 6000, 120000) {
    sim::reset_globals();
    auto m = small_mesh(t, {mg::LAND}, 2);
    sim::Cfg c;
    c.problem = "ehdg_swe";
    c.p = t.i(1, 7);
    auto s = sim::make<Prob>(m, c);
    if (c.p >= 2 && m.tri.size() >= 2)
        t.nontrivial();
    t.label("p" + std::to_string(c.p));
    PNOTE(m.tri.size() << " elements, p " << c.p);
    long pickd = t.i(0, (long)m.tri.size() - 1), k = 0;
    s->d.mesh.CallForEachElement([&](auto& elt) {
        if (k++ == pickd)
            check_element(t, elt, c.p);
    });
}
#endif
#if SEL(4)
LAW(P04, boundary_operators, "order 2 or more", 4000, 80000) {
    sim::reset_globals();
    auto m = small_mesh(t, {mg::LAND}, 2);
    sim::Cfg c;
    c.problem = "ehdg_swe";
    c.p = t.i(1, 7);
    auto s = sim::make<Prob>(m, c);
    if (c.p >= 2)
        t.nontrivial();
    t.label("p" + std::to_string(c.p));
    auto eo = m.elt_of();
    std::map<const void*, Geo> of;
    s->d.mesh.CallForEachElement([&](auto& elt) { of[&elt.data] = geo(elt); });
    long nb = s->d.mesh.GetNumberBoundaries(), pickd = t.i(0, nb - 1), k = 0;
    bool seen = false, ccw = t.chance(70);
    s->d.mesh_skeleton.CallForEachEdgeBoundary([&](auto& eb) {
        if (k++ != pickd)
            return;
        seen = true;
        auto& b = eb.boundary;
        Geo g = of.at(&b.data);
        auto pts = Capture::elt(b);
        PCHECK(pts.size() == b.data.get_ngp_boundary(b.bound_id), "number of integration points of a boundary edge");
        check_side(t, g, c.p, b.bound_id, pts, b.surface_normal, [&](const DynMatrix<double>& w) { return DynMatrix<double>(b.ComputeUgp(w)); },
                   [&](const DynMatrix<double>& w) { return DynMatrix<double>(b.ComputeNodalUgp(w)); }, [&](const DynMatrix<double>& w) { return DynMatrix<double>(b.ComputeBoundaryNodalUgp(w)); },
                   [&](const DynMatrix<double>& w) { return DynVector<double>(b.Integration(w)); }, [&](int i, const DynMatrix<double>& w) { return DynVector<double>(b.IntegrationPhi(i, w)); },
                   [&](const DynMatrix<double>& w) { return DynMatrix<double>(b.IntegrationPhi(w)); }, [&](int i, int j, const DynMatrix<double>& w) { return DynVector<double>(b.IntegrationPhiPhi(i, j, w)); }, "boundary");
        using EB = std::decay_t<decltype(eb)>;
        auto run = [&](auto& e, bool cc) {
            check_trace_space(t, e, g, c.p, b.bound_id, pts, cc, (c.p + 1) * (c.p + 2) / 2, [&](int i, int j, const DynMatrix<double>& w) { return DynVector<double>(e.IntegrationPhiLambda(i, j, w)); },
                              [&](int, int, const DynMatrix<double>& w) { return DynVector<double>(1); }, nullptr, 0, nullptr);
        };
        if (ccw) {
            run(eb, true);
        } else {
            t.label("reversed");
            EB r(b, false);
            run(r, false);
        }
    });
    PCHECK(seen, "the skeleton lists " << k << " boundary edges of " << nb);
}
#endif
#if SEL(4)
LAW(P04, interface_operators, "order 2 or more", 4000, 80000) {
    sim::reset_globals();
    auto m = small_mesh(t, {mg::LAND}, 2);
    sim::Cfg c;
    c.problem = "ehdg_swe";
    c.p = t.i(1, 7);
    auto s = sim::make<Prob>(m, c);
    long ni = s->d.mesh.GetNumberInterfaces();
    if (!ni)
        t.discard();
    if (c.p >= 2)
        t.nontrivial();
    t.label("p" + std::to_string(c.p));
    std::map<const void*, Geo> of;
    s->d.mesh.CallForEachElement([&](auto& elt) { of[&elt.data] = geo(elt); });
    long pickd = t.i(0, ni - 1), k = 0;
    bool seen = false, ccw = t.chance(70);
    s->d.mesh_skeleton.CallForEachEdgeInterface([&](auto& ei) {
        if (k++ != pickd)
            return;
        seen = true;
        auto& f = ei.interface;
        Geo gi = of.at(&f.data_in), ge = of.at(&f.data_ex);
        auto pi = Capture::in(f), pe = Capture::ex(f);
        int ngp = pi.size();
        PCHECK(ngp == (int)f.data_in.get_ngp_boundary(f.bound_id_in) && ngp == (int)f.data_ex.get_ngp_boundary(f.bound_id_ex) && (int)pe.size() == ngp, "number of integration points of an interface");
        double len = gi.elen(f.bound_id_in), off = 0;
        for (int v = 0; v < 3; ++v)
            off = std::max(off, std::max(std::abs(gi.x[v]), std::abs(gi.y[v])));
        double eps = 1e-12 * (1 + off / len);
        for (int q = 0; q < ngp; ++q) {
            int r = ngp - 1 - q;
            PNEAR(std::hypot(pi[q][0] - pe[r][0], pi[q][1] - pe[r][1]), 0.0, eps * len, "distance between the two sides' copies of an integration point");
            for (int d = 0; d < 2; ++d)
                PNEAR(f.surface_normal_in(d, q), -f.surface_normal_ex(d, r), eps * shape_factor(gi), "normals of the two sides");
        }
        auto& ni_ = f.GetNodeIDIN();
        auto& ne_ = f.GetNodeIDEX();
        PCHECK(ni_.size() == 2 && ne_.size() == 2 && ni_[0] == ne_[1] && ni_[1] == ne_[0], "nodes of the two sides");
        check_side(t, gi, c.p, f.bound_id_in, pi, f.surface_normal_in, [&](const DynMatrix<double>& w) { return DynMatrix<double>(f.ComputeUgpIN(w)); },
                   [&](const DynMatrix<double>& w) { return DynMatrix<double>(f.ComputeNodalUgpIN(w)); }, [&](const DynMatrix<double>& w) { return DynMatrix<double>(f.ComputeBoundaryNodalUgpIN(w)); },
                   [&](const DynMatrix<double>& w) { return DynVector<double>(f.IntegrationIN(w)); }, [&](int i, const DynMatrix<double>& w) { return DynVector<double>(f.IntegrationPhiIN(i, w)); },
                   [&](const DynMatrix<double>& w) { return DynMatrix<double>(f.IntegrationPhiIN(w)); }, [&](int i, int j, const DynMatrix<double>& w) { return DynVector<double>(f.IntegrationPhiPhiIN(i, j, w)); }, "interior side");
        check_side(t, ge, c.p, f.bound_id_ex, pe, f.surface_normal_ex, [&](const DynMatrix<double>& w) { return DynMatrix<double>(f.ComputeUgpEX(w)); },
                   [&](const DynMatrix<double>& w) { return DynMatrix<double>(f.ComputeNodalUgpEX(w)); }, [&](const DynMatrix<double>& w) { return DynMatrix<double>(f.ComputeBoundaryNodalUgpEX(w)); },
                   [&](const DynMatrix<double>& w) { return DynVector<double>(f.IntegrationEX(w)); }, [&](int i, const DynMatrix<double>& w) { return DynVector<double>(f.IntegrationPhiEX(i, w)); },
                   [&](const DynMatrix<double>& w) { return DynMatrix<double>(f.IntegrationPhiEX(w)); }, [&](int i, int j, const DynMatrix<double>& w) { return DynVector<double>(f.IntegrationPhiPhiEX(i, j, w)); }, "exterior side");
        using EI = std::decay_t<decltype(ei)>;
        auto run = [&](auto& e, bool cc) {
            check_trace_space(t, e, gi, c.p, f.bound_id_in, pi, cc, (c.p + 1) * (c.p + 2) / 2, [&](int i, int j, const DynMatrix<double>& w) { return DynVector<double>(e.IntegrationPhiLambdaIN(i, j, w)); },
                              [&](int i, int j, const DynMatrix<double>& w) { return DynVector<double>(e.IntegrationPhiLambdaEX(i, j, w)); }, &ge, f.bound_id_ex, &pe);
        };
        if (ccw) {
            run(ei, true);
        } else {
            t.label("reversed");
            EI r(f, false);
            run(r, false);
        }
    });
    PCHECK(seen, "the skeleton lists " << k << " interfaces of " << ni);
}
#endif
// sum over the element's edges of the boundary integrals equals the volume integrals, with everything taken from the library
#if SEL(4)
LAW(P04, divergence_theorem, "order 2 or more and an element with an interior edge", 3000, 60000) {
    sim::reset_globals();
    auto m = small_mesh(t, {mg::LAND}, 3);
    sim::Cfg c;
    c.problem = "ehdg_swe";
    c.p = t.i(1, 5);
    auto s = sim::make<Prob>(m, c);
    if (c.p >= 2 && s->d.mesh.GetNumberInterfaces())
        t.nontrivial();
    t.label("p" + std::to_string(c.p));
    const int ndof = (c.p + 1) * (c.p + 2) / 2;
    // w . grad(phi_i) integrated = boundary flux of phi_i w - phi_i div w, w a polynomial vector field of degree p
    std::map<const void*, DynMatrix<double>> sum;
    std::map<const void*, std::vector<Poly>> W;
    std::map<const void*, double> tol;
    s->d.mesh.CallForEachElement([&](auto& elt) {
        Geo g  = geo(elt);
        auto w = polys(t, g, 2, c.p);
        auto P = Capture::elt(elt);
        DynMatrix<double> F = at(w, P), dv(1, P.size());
        for (size_t k = 0; k < P.size(); ++k)
            dv(0, k) = w[0].grad(P[k][0], P[k][1])[0] + w[1].grad(P[k][0], P[k][1])[1];
        DynMatrix<double> F0 = row(F, 0), F1 = row(F, 1);
        DynMatrix<double> a = elt.IntegrationDPhi(0, F0), b = elt.IntegrationDPhi(1, F1), d = elt.IntegrationPhi(dv);
        DynMatrix<double> r = a + b + d;
        sum[&elt.data] = r;
        W[&elt.data]   = w;
        double off = 0, L = std::max(g.elen(0), std::max(g.elen(1), g.elen(2)));
        for (int v = 0; v < 3; ++v)
            off = std::max(off, std::max(std::abs(g.x[v]), std::abs(g.y[v])));
        tol[&elt.data] = 1e-11 * shape_factor(g) * shape_factor(g) * (1 + off / L) * std::pow(c.p + 1, 6) * L * (w[0].mag() + w[1].mag());
    });
    auto fluxes = [&](const void* id, const std::vector<P2>& P, const HybMatrix<double, 2>& n) {
        DynMatrix<double> F = at(W.at(id), P), fn(1, P.size());
        for (size_t k = 0; k < P.size(); ++k)
            fn(0, k) = F(0, k) * n(0, k) + F(1, k) * n(1, k);
        return fn;
    };
    s->d.mesh.CallForEachInterface([&](auto& f) {
        DynMatrix<double> a = f.IntegrationPhiIN(fluxes(&f.data_in, Capture::in(f), f.surface_normal_in));
        DynMatrix<double> b = f.IntegrationPhiEX(fluxes(&f.data_ex, Capture::ex(f), f.surface_normal_ex));
        sum[&f.data_in] -= a;
        sum[&f.data_ex] -= b;
    });
    s->d.mesh.CallForEachBoundary([&](auto& f) {
        DynMatrix<double> a = f.IntegrationPhi(fluxes(&f.data, Capture::elt(f), f.surface_normal));
        sum[&f.data] -= a;
    });
    for (auto& e : sum)
        for (int i = 0; i < ndof; ++i)
            PNEAR(e.second(0, i), 0.0, tol.at(e.first), "divergence theorem with test function " << i << ", p " << c.p);
}
#endif
}
