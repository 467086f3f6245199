// Reference computations on elements and edges, independent of the repository's geometry and kernels.
#ifndef VERIF_REF_HPP
#define VERIF_REF_HPP
#include "sim.hpp"

namespace ref {
using V3 = std::array<double, 3>;
using P2 = std::array<double, 2>;

struct Geo {  // straight triangle, vertices 0,1,2 <-> (-1,-1),(1,-1),(-1,1)
    double x[3], y[3], z[3];
    double area2() const { return (x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0]); }
    double area() const { return 0.5 * area2(); }
    P2 bary(int k) const { return {x[k], y[k]}; }
    P2 ref_of(double X, double Y) const {
        double D  = area2();
        double l1 = ((X - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (Y - y[0])) / D;
        double l2 = ((x[1] - x[0]) * (Y - y[0]) - (X - x[0]) * (y[1] - y[0])) / D;
        return {2 * l1 - 1, 2 * l2 - 1};
    }
    P2 phys(double r, double s) const {
        double l1 = (1 + r) / 2, l2 = (1 + s) / 2, l0 = 1 - l1 - l2;
        return {l0 * x[0] + l1 * x[1] + l2 * x[2], l0 * y[0] + l1 * y[1] + l2 * y[2]};
    }
    double zat(double X, double Y) const {
        auto q = ref_of(X, Y);
        double l1 = (1 + q[0]) / 2, l2 = (1 + q[1]) / 2;
        return (1 - l1 - l2) * z[0] + l1 * z[1] + l2 * z[2];
    }
    P2 gradz() const {
        double D = area2();
        return {((z[1] - z[0]) * (y[2] - y[0]) - (z[2] - z[0]) * (y[1] - y[0])) / D,
                ((x[1] - x[0]) * (z[2] - z[0]) - (x[2] - x[0]) * (z[1] - z[0])) / D};
    }
    // edge k lies opposite vertex k, from vertex k+1 to k+2; outward unit normal
    double elen(int k) const { return std::hypot(x[(k + 2) % 3] - x[(k + 1) % 3], y[(k + 2) % 3] - y[(k + 1) % 3]); }
    P2 normal(int k) const {
        double dx = x[(k + 2) % 3] - x[(k + 1) % 3], dy = y[(k + 2) % 3] - y[(k + 1) % 3], l = std::hypot(dx, dy);
        return {dy / l, -dx / l};
    }
    // parameter in [-1,1] along edge k of a physical point
    double edge_s(int k, double X, double Y) const {
        int a = (k + 1) % 3, b = (k + 2) % 3;
        double dx = x[b] - x[a], dy = y[b] - y[a];
        return 2 * ((X - x[a]) * dx + (Y - y[a]) * dy) / (dx * dx + dy * dy) - 1;
    }
    P2 edge_pt(int k, double s) const {
        int a = (k + 1) % 3, b = (k + 2) % 3;
        return {0.5 * ((1 - s) * x[a] + (1 + s) * x[b]), 0.5 * ((1 - s) * y[a] + (1 + s) * y[b])};
    }
};
template <typename Elt>
Geo geo(Elt& elt) {
    Geo g;
    auto& nc = elt.GetShape().nodal_coordinates;
    for (int k = 0; k < 3; ++k) {
        g.x[k] = nc[k][0];
        g.y[k] = nc[k][1];
        g.z[k] = nc[k][2];
    }
    return g;
}
inline DynMatrix<double> phi1(uint p, const Geo& g, double X, double Y) {  // dof x 1
    auto r = g.ref_of(X, Y);
    return sim::phi_at(p, {r});
}
template <typename M>
V3 value(uint p, const Geo& g, const M& q, double X, double Y) {
    auto ph = phi1(p, g, X, Y);
    V3 v{{0, 0, 0}};
    for (int i = 0; i < ph.rows(); ++i)
        for (int c = 0; c < 3; ++c)
            v[c] += q(c, i) * ph(i, 0);
    return v;
}
// physical coordinates of integration points, captured through the public interface
struct Capture {
    std::vector<P2> pts;
    template <typename Obj>
    static std::vector<P2> elt(Obj& o) {
        std::vector<P2> v;
        // ComputeFgp probes the function once for its size
        o.ComputeFgp([&](Point<2>& pt) {
            v.push_back({pt[0], pt[1]});
            return StatVector<double, 1>(0.0);
        });
        v.erase(v.begin());
        return v;
    }
    template <typename Obj>
    static std::vector<P2> in(Obj& o) {
        std::vector<P2> v;
        o.ComputeFgpIN([&](Point<2>& pt) {
            v.push_back({pt[0], pt[1]});
            return StatVector<double, 1>(0.0);
        });
        v.erase(v.begin());
        return v;
    }
    template <typename Obj>
    static std::vector<P2> ex(Obj& o) {
        std::vector<P2> v;
        o.ComputeFgpEX([&](Point<2>& pt) {
            v.push_back({pt[0], pt[1]});
            return StatVector<double, 1>(0.0);
        });
        v.erase(v.begin());
        return v;
    }
};
// weight (on [-1,1]) of the Gauss point with parameter s in an n-point rule; -1 if s is not one of its points
inline double gauss_weight(unsigned n, double s, double tol = 1e-9) {
    auto& G = oracle::gauss(n);
    for (unsigned k = 0; k < n; ++k)
        if (std::abs((double)G.second[k] - s) < tol)
            return (double)G.first[k];
    return -1;
}
// physical normal flux of the shallow-water equations, still-water pressure removed
inline V3 flux_n(double g, const V3& q, double b, const P2& n, double sp = 1) {
    double h = q[0] + b, u = q[1] / h, v = q[2] / h, pe = g * (q[0] * q[0] / 2 + q[0] * b);
    double nx = sp * n[0], ny = n[1];
    return {q[1] * nx + q[2] * ny, (q[1] * u + pe) * nx + q[1] * v * ny, q[2] * u * nx + (q[2] * v + pe) * ny};
}
inline V3 llf(double g, const V3& qi, const V3& qe, double b, const P2& n, double sp = 1) {
    auto a = flux_n(g, qi, b, n, sp), c = flux_n(g, qe, b, n, sp);
    auto lam = [&](const V3& q) {
        double h = q[0] + b;
        return std::abs((q[1] * n[0] + q[2] * n[1]) / h) + std::sqrt(g * h * (sp * sp * n[0] * n[0] + n[1] * n[1]));
    };
    double l = std::max(lam(qi), lam(qe));
    V3 f;
    for (int k = 0; k < 3; ++k)
        f[k] = 0.5 * (a[k] + c[k] + l * (qi[k] - qe[k]));
    return f;
}
inline V3 mirror(const V3& q, const P2& n, double sp = 1) {
    double nx = sp * n[0], ny = n[1], r = std::hypot(nx, ny);
    nx /= r;
    ny /= r;
    double qn = q[1] * nx + q[2] * ny;
    return {q[0], q[1] - 2 * qn * nx, q[2] - 2 * qn * ny};
}
inline V3 neg(V3 a) {
    for (auto& v : a)
        v = -v;
    return a;
}
inline double mag(const V3& a) { return std::max(std::abs(a[0]), std::max(std::abs(a[1]), std::abs(a[2]))); }

// a random polynomial state on one element with |values| of variable v at most amp[v]
template <typename Elt>
void random_state(pbt::T& t, Elt& elt, uint p, const V3& mean, const V3& amp, uint istate = 0) {
    auto& q  = elt.data.state[istate].q;
    int ndof = (p + 1) * (p + 2) / 2;
    static std::map<uint, DynMatrix<double>> cache;
    if (!cache.count(p))
        cache[p] = sim::phi_at(p, sim::lattice(3 * p + 3).z);
    auto& ph = cache[p];
    for (int v = 0; v < 3; ++v) {
        std::vector<double> c(ndof);
        bool lin = t.chance(20);
        for (int i = 0; i < ndof; ++i)
            c[i] = (lin && i > 2) ? 0.0 : t.s(1);
        double mx = 1e-300;
        for (int k = 0; k < ph.cols(); ++k) {
            double s = 0;
            for (int i = 0; i < ndof; ++i)
                s += c[i] * ph(i, k);
            mx = std::max(mx, std::abs(s));
        }
        double sc = amp[v] * t.r(0, 1) / std::max(mx, 1e-3);
        for (int i = 0; i < ndof; ++i)
            q(v, i) = c[i] * sc;
        q(v, 0) += mean[v];
    }
}
}
#endif
