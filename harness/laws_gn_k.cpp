// The dispersive correction of the Green-Naghdi solver on random discontinuous states over generated meshes, against a reference
// that assembles and solves the mixed hybridised system densely, without static condensation.
#define PROB GN::EHDG::Problem
#define PROBNAME "ehdg_gn"
#define STEPPER(s) (s).stepper.GetSecondStepper()
#include "scene.hpp"
#include <Eigen/Dense>

namespace {
using MX = Eigen::MatrixXd;
using VX = Eigen::VectorXd;
struct Face {
    std::vector<P2> pts;
    std::vector<double> w;
    MX phi;  // dof x point
    P2 n;
    int edge;            // index of the trace unknowns
    std::vector<int> of;  // position on the edge of each point, for the neighbor
    VX bx, by, h;        // trace of the bed gradient, of the depth
    MX lam;
};
struct Ele {
    ref::Geo g;
    std::vector<P2> pts;
    std::vector<double> w;
    MX phi, dx, dy, Minv;
    std::array<Face, 3> f;
    std::array<std::pair<const void*, int>, 3> nb;  // neighbor and its edge
    VX bath;
    MX db, ddb, dddb;  // modal
    MX dze, du, ddu, w1;
    bool wet = true, corr = true;
    int idx = 0;
};
struct Edge {
    const void *a = nullptr, *b = nullptr;
    int ka = 0, kb = 0;
    bool land = false;
};
using Eles = std::map<const void*, Ele>;

// gradient of the basis on the reference triangle by differences of high order polynomials: exact interpolation on a line
inline void gradients(uint p, const ref::Geo& g, const std::vector<P2>& pts, MX& dx, MX& dy) {
    int nd = (p + 1) * (p + 2) / 2;
    dx.resize(nd, pts.size());
    dy.resize(nd, pts.size());
    auto& G = oracle::gauss(p + 1);
    std::vector<double> s;
    for (auto v : G.second)
        s.push_back((double)v * 0.5);
    s.push_back(0.0);
    std::sort(s.begin(), s.end());
    s.erase(std::unique(s.begin(), s.end()), s.end());
    int at = std::find(s.begin(), s.end(), 0.0) - s.begin();
    double D = g.area2();
    for (uint k = 0; k < pts.size(); ++k) {
        auto r = g.ref_of(pts[k][0], pts[k][1]);
        std::array<std::vector<std::array<double, 2>>, 2> z;
        for (auto v : s) {
            z[0].push_back({r[0] + v, r[1]});
            z[1].push_back({r[0], r[1] + v});
        }
        DynMatrix<double> a = sim::phi_at(p, z[0]), b = sim::phi_at(p, z[1]);
        for (int i = 0; i < nd; ++i) {
            std::vector<double> u, v;
            for (uint q = 0; q < s.size(); ++q) {
                u.push_back(a(i, q));
                v.push_back(b(i, q));
            }
            double dr = oracle::poly_derivative(s, u)[at], ds = oracle::poly_derivative(s, v)[at];
            // r = 2 l1 - 1, s = 2 l2 - 1
            double rx = 2 * (g.y[2] - g.y[0]) / D, ry = -2 * (g.x[2] - g.x[0]) / D, sx = -2 * (g.y[1] - g.y[0]) / D, sy = 2 * (g.x[1] - g.x[0]) / D;
            dx(i, k) = dr * rx + ds * sx;
            dy(i, k) = dr * ry + ds * sy;
        }
    }
}
inline MX basis(uint p, const ref::Geo& g, const std::vector<P2>& pts) {
    std::vector<std::array<double, 2>> z;
    for (auto& q : pts)
        z.push_back(g.ref_of(q[0], q[1]));
    DynMatrix<double> a = sim::phi_at(p, z);
    return a;
}
template <typename F>
std::vector<double> weights(uint n, const F& f) {
    std::vector<double> w(n);
    for (uint k = 0; k < n; ++k) {
        DynRowVector<double> e(n);
        set_constant(e, 0.0);
        e[k] = 1;
        w[k] = f(e);
    }
    return w;
}
inline double leg(int n, double x) {
    double a = 1, b = x;
    if (n == 0)
        return 1;
    for (int k = 2; k <= n; ++k) {
        double c = ((2 * k - 1) * x * b - (k - 1) * a) / k;
        a = b;
        b = c;
    }
    return b;
}
// gradient of a field given by its values in the volume points and its traces on the faces
template <typename Tr>
MX gradient(const Ele& e, const MX& vol, const Tr& trace) {  // rows: components
    int nc = vol.rows(), nd = e.phi.rows();
    MX r = MX::Zero(2 * nc, nd);
    for (int c = 0; c < nc; ++c)
        for (int i = 0; i < nd; ++i) {
            for (uint k = 0; k < e.pts.size(); ++k) {
                r(2 * c, i) -= e.w[k] * vol(c, k) * e.dx(i, k);
                r(2 * c + 1, i) -= e.w[k] * vol(c, k) * e.dy(i, k);
            }
            for (int f = 0; f < 3; ++f)
                for (uint k = 0; k < e.f[f].pts.size(); ++k)
                    for (int d = 0; d < 2; ++d)
                        r(2 * c + d, i) += e.f[f].w[k] * trace(f, k, c) * e.f[f].n[d] * e.f[f].phi(i, k);
        }
    return r * e.Minv;
}
}

namespace {
inline void correction(pbt::T& t, bool open) {
    SceneOpt o;
    o.nmax  = 2;
    o.p_max = 3;
    o.zlo   = t.chance(60) ? 0.3 : -1;
    if (open)
        o.kinds = {mg::LAND, mg::TIDE, mg::FLOW, mg::FUNC};
    bool wd = t.chance(40);
    if (wd)
        o.wetdry = 1;
    std::set<uint> buffer;
    bool haveb = t.chance(40);
    auto s = scene(t, o, [&](Scene& s) {
        std::ofstream f("buffer_elements");
        if (haveb)
            for (auto id : s.m.eid)
                if (t.chance(30)) {
                    f << id << "\n";
                    buffer.insert(id);
                }
        for (auto& g : s.m.seg)
            if (g.kind == mg::TIDE || g.kind == mg::FLOW)
                mg::gen_forcing(t, g, 0.1 * s.D, 1.0);
    });
    auto& S = *s.s;
    uint p  = s.c.p;
    int nd  = s.ndof;
    bool flat = t.chance(15);
    fill(t, s, t.chance(30) ? 1.5 : 0.3);
    if (wd)
        dry_some(t, s);
    std::map<const void*, bool> troubled;
    bool some_troubled = t.chance(30);
    Eles E;
    int ne = 0;
    S.d.mesh.CallForEachElement([&](auto& e) {
        const void* k = &e.data;
        auto& q = e.data.state[s.st].q;
        if (!s.wet[k])
            for (int d = 0; d < nd; ++d)
                q(1, d) = q(2, d) = 0;
        if (flat) {
            for (int d = 1; d < nd; ++d)
                q(0, d) = 0;
        }
        if (some_troubled)
            e.data.slope_limit_state.troubled = t.chance(30);
        Ele el;
        el.g   = s.geo[k];
        el.pts = ref::Capture::elt(e);
        el.w   = weights(el.pts.size(), [&](const DynRowVector<double>& v) { return e.Integration(v); });
        el.phi = basis(p, el.g, el.pts);
        gradients(p, el.g, el.pts, el.dx, el.dy);
        MX M = MX::Zero(nd, nd);
        for (int i = 0; i < nd; ++i)
            for (int j = 0; j < nd; ++j)
                for (uint x = 0; x < el.pts.size(); ++x)
                    M(i, j) += el.w[x] * el.phi(i, x) * el.phi(j, x);
        el.Minv = M.inverse();
        el.wet  = s.wet[k];
        el.corr = el.wet && !buffer.count(e.GetID()) && !e.data.slope_limit_state.troubled;
        el.idx  = ne++;
        E[k]    = el;
    });
    std::vector<Edge> edges;
    auto face = [&](const void* k, int b, std::vector<P2> pts, std::vector<double> w, bool rev) {
        auto& e = E[k];
        auto& f = e.f[b];
        f.pts   = pts;
        f.w     = w;
        f.phi   = basis(p, e.g, pts);
        f.n     = e.g.normal(b);
        f.edge  = edges.size();
        f.lam.resize(p + 1, pts.size());
        for (uint x = 0; x < pts.size(); ++x)
            for (uint d = 0; d <= p; ++d)
                f.lam(d, x) = leg(d, (rev ? -1 : 1) * e.g.edge_s(b, pts[x][0], pts[x][1]));
        e.nb[b] = {nullptr, 0};
    };
    S.d.mesh_skeleton.CallForEachEdgeInterface([&](auto& ei) {
        auto& i = ei.interface;
        auto a = ref::Capture::in(i), b = ref::Capture::ex(i);
        const void *ki = &i.data_in, *ke = &i.data_ex;
        face(ki, i.bound_id_in, a, weights(a.size(), [&](const DynRowVector<double>& v) { return i.IntegrationIN(v); }), false);
        face(ke, i.bound_id_ex, b, weights(b.size(), [&](const DynRowVector<double>& v) { return i.IntegrationEX(v); }), true);
        E[ki].nb[i.bound_id_in] = {ke, i.bound_id_ex};
        E[ke].nb[i.bound_id_ex] = {ki, i.bound_id_in};
        Edge g;
        g.a = ki, g.ka = i.bound_id_in, g.b = ke, g.kb = i.bound_id_ex;
        edges.push_back(g);
    });
    int nopen = 0;
    S.d.mesh_skeleton.CallForEachEdgeBoundary([&](auto& eb) {
        auto& b = eb.boundary;
        auto a  = ref::Capture::elt(b);
        const void* k = &b.data;
        face(k, b.bound_id, a, weights(a.size(), [&](const DynRowVector<double>& v) { return b.Integration(v); }), false);
        Edge g;
        g.a = k, g.ka = b.bound_id;
        int e = b.bound_id, na = s.nodes[k][(e + 1) % 3], nb = s.nodes[k][(e + 2) % 3];
        auto kind = s.m.seg[s.m.seg_of(na, nb)].kind;
        g.land    = kind == mg::LAND || kind == mg::ISLAND;
        nopen += !g.land;
        edges.push_back(g);
    });
    // value of a modal field on face (k, f) at point x of the neighbor-or-self average
    auto avg = [&](const void* k, int f, int x, const std::function<double(const Ele&, const Face&, int)>& val) {
        auto& e  = E[k];
        double a = val(e, e.f[f], x);
        auto nb  = e.nb[f];
        if (!nb.first)
            return a;
        auto& o  = E[nb.first];
        auto& of = o.f[nb.second];
        return (a + val(o, of, (int)of.pts.size() - 1 - x)) / 2;
    };
    std::map<const void*, MX> q;
    S.d.mesh.CallForEachElement([&](auto& e) { q[&e.data] = DynMatrix<double>(e.data.state[s.st].q); });
    auto bath = [&](const Ele& e, const P2& x) { return e.g.zat(x[0], x[1]); };
    for (auto& kv : E) {
        auto& e = kv.second;
        MX v(1, e.pts.size());
        for (uint x = 0; x < e.pts.size(); ++x)
            v(0, x) = bath(e, e.pts[x]);
        e.db = gradient(e, v, [&](int f, int x, int) { return avg(kv.first, f, x, [&](const Ele& o, const Face& of, int y) { return bath(o, of.pts[y]); }); });
    }
    for (auto& kv : E) {
        auto& e = kv.second;
        e.ddb   = gradient(e, e.db * e.phi, [&](int f, int x, int c) { return avg(kv.first, f, x, [&](const Ele& o, const Face& of, int y) { return o.db.row(c).dot(of.phi.col(y)); }); });
    }
    for (auto& kv : E) {
        auto& e = kv.second;
        e.dddb  = gradient(e, e.ddb * e.phi, [&](int f, int x, int c) { return avg(kv.first, f, x, [&](const Ele& o, const Face& of, int y) { return o.ddb.row(c).dot(of.phi.col(y)); }); });
    }
    auto at = [&](const void* k, int c, const MX& phi, int x) { return q[k].row(c).dot(phi.col(x)); };
    std::map<const Ele*, const void*> key;
    for (auto& kv : E)
        key[&kv.second] = kv.first;
    bool bad = false;
    for (auto& kv : E) {
        auto& e = kv.second;
        MX v(1, e.pts.size()), u(2, e.pts.size());
        for (uint x = 0; x < e.pts.size(); ++x) {
            v(0, x)  = at(kv.first, 0, e.phi, x);
            double h = v(0, x) + bath(e, e.pts[x]);
            bad = bad || !(h > 1e-6 * s.D);
            for (int c = 0; c < 2; ++c)
                u(c, x) = at(kv.first, 1 + c, e.phi, x) / h;
        }
        for (auto& f : e.f)
            for (uint x = 0; x < f.pts.size(); ++x)
                bad = bad || !(at(kv.first, 0, f.phi, x) + bath(e, f.pts[x]) > 1e-6 * s.D);
        e.dze = gradient(e, v, [&](int f, int x, int) { return avg(kv.first, f, x, [&](const Ele& o, const Face& of, int y) { return at(key[&o], 0, of.phi, y); }); });
        e.du  = gradient(e, u, [&](int f, int x, int c) { return avg(kv.first, f, x, [&](const Ele& o, const Face& of, int y) { return at(key[&o], 1 + c, of.phi, y) / (at(key[&o], 0, of.phi, y) + bath(o, of.pts[y])); }); });
    }
    if (bad)
        t.discard();
    for (auto& kv : E) {
        auto& e = kv.second;
        e.ddu   = gradient(e, e.du * e.phi, [&](int f, int x, int c) { return avg(kv.first, f, x, [&](const Ele& o, const Face& of, int y) { return o.du.row(c).dot(of.phi.col(y)); }); });
    }
    for (auto& kv : E)
        for (int f = 0; f < 3; ++f) {
            auto& F = kv.second.f[f];
            int n   = F.pts.size();
            F.bx.resize(n), F.by.resize(n), F.h.resize(n);
            for (int x = 0; x < n; ++x) {
                F.bx[x] = -avg(kv.first, f, x, [&](const Ele& o, const Face& of, int y) { return o.db.row(0).dot(of.phi.col(y)); });
                F.by[x] = -avg(kv.first, f, x, [&](const Ele& o, const Face& of, int y) { return o.db.row(1).dot(of.phi.col(y)); });
                F.h[x]  = avg(kv.first, f, x, [&](const Ele& o, const Face& of, int y) { return at(key[&o], 0, of.phi, y) + bath(o, of.pts[y]); });
            }
        }
    // the mixed system: w1 (2 nd), w2 (nd) per element, trace (2 (p+1)) per edge
    const double al = 1.159, tau = -20;
    int ntr = 2 * (p + 1), N = ne * 3 * nd + (int)edges.size() * ntr;
    if (N > 700)
        t.discard();
    MX A = MX::Zero(N, N);
    VX R = VX::Zero(N);
    auto W1 = [&](const Ele& e, int i, int c) { return e.idx * 3 * nd + 2 * i + c; };
    auto W2 = [&](const Ele& e, int i) { return e.idx * 3 * nd + 2 * nd + i; };
    auto TR = [&](int edge, int d, int c) { return ne * 3 * nd + edge * ntr + 2 * d + c; };
    for (auto& kv : E) {
        auto& e = kv.second;
        if (!e.wet) {
            for (int i = 0; i < 3 * nd; ++i)
                A(e.idx * 3 * nd + i, e.idx * 3 * nd + i) = 1;
            continue;
        }
        MX db = e.db * e.phi, ddb = e.ddb * e.phi, dddb = e.dddb * e.phi, dze = e.dze * e.phi, du = e.du * e.phi, ddu = e.ddu * e.phi;
        for (uint x = 0; x < e.pts.size(); ++x) {
            double h = at(kv.first, 0, e.phi, x) + bath(e, e.pts[x]), w = e.w[x];
            double b[2] = {-db(0, x), -db(1, x)}, u[2] = {at(kv.first, 1, e.phi, x) / h, at(kv.first, 2, e.phi, x) / h};
            double gz[2] = {dze(0, x), dze(1, x)}, gh[2] = {gz[0] - b[0], gz[1] - b[1]};
            auto U   = [&](int i, int j) { return du(2 * i + j, x); };                    // d u_i / d x_j
            auto UU  = [&](int i, int j, int k) { return ddu(2 * (2 * i + j) + k, x); };
            auto BB  = [&](int i, int j) { return -ddb(2 * i + j, x); };
            auto BBB = [&](int i, int j, int k) { return -dddb(2 * (2 * i + j) + k, x); };
            double c1 = U(1, 0) * U(0, 1) + U(0, 0) * U(0, 0) + U(0, 0) * U(1, 1) + U(1, 1) * U(1, 1);
            double c4 = 0;
            for (int i = 0; i < 2; ++i)
                for (int j = 0; j < 2; ++j)
                    c4 += u[i] * u[j] * BB(i, j);
            for (int c = 0; c < 2; ++c) {
                double g1 = UU(1, 0, c) * U(0, 1) + U(1, 0) * UU(0, 1, c) + 2 * U(0, 0) * UU(0, 0, c) + UU(0, 0, c) * U(1, 1) + U(0, 0) * UU(1, 1, c) + 2 * U(1, 1) * UU(1, 1, c);
                double g4 = 0;
                for (int i = 0; i < 2; ++i)
                    for (int j = 0; j < 2; ++j)
                        g4 += (U(i, c) * u[j] + u[i] * U(j, c)) * BB(i, j) + u[i] * u[j] * BBB(i, j, c);
                // h Q(u): 2/3 grad(h^3 c1) + 1/2 grad(h^2 c4) + (h^2 c1 + h c4) grad(b), and the hydrostatic part
                double f = 2 * h * h * c1 * gh[c] + 2.0 / 3 * h * h * h * g1 + h * c4 * gh[c] + 0.5 * h * h * g4 + (h * h * c1 + h * c4) * b[c] + s.g / al * h * gz[c];
                for (int i = 0; i < nd; ++i)
                    R[W1(e, i, c)] += w * e.phi(i, x) * f;
            }
            for (int i = 0; i < nd; ++i)
                for (int j = 0; j < nd; ++j) {
                    double pi = e.phi(i, x), pj = e.phi(j, x), di[2] = {e.dx(i, x), e.dy(i, x)}, dj[2] = {e.dx(j, x), e.dy(j, x)};
                    for (int c = 0; c < 2; ++c) {
                        for (int d = 0; d < 2; ++d)
                            A(W1(e, i, c), W1(e, j, d)) += w * (pi * pj * ((c == d) + al * b[c] * b[d]) - al / 2 * h * b[d] * pj * di[c]);
                        A(W1(e, i, c), W2(e, j)) += w * (-al / 3 * pi * dj[c] - al / 2 * b[c] / h * pi * pj);
                        A(W2(e, i), W1(e, j, c)) += w * pj * di[c] / h;
                    }
                    A(W2(e, i), W2(e, j)) += w * pi * pj / (h * h * h);
                }
        }
        for (int f = 0; f < 3; ++f) {
            auto& F = e.f[f];
            for (uint x = 0; x < F.pts.size(); ++x) {
                double w = F.w[x], b[2] = {F.bx[x], F.by[x]};
                for (int i = 0; i < nd; ++i) {
                    for (int j = 0; j < nd; ++j)
                        for (int c = 0; c < 2; ++c)
                            A(W1(e, i, c), W1(e, j, c)) += w * F.phi(i, x) * F.phi(j, x) * (-al / 3 * tau);
                    for (uint d = 0; d <= p; ++d) {
                        double l = w * F.phi(i, x) * F.lam(d, x);
                        for (int c = 0; c < 2; ++c) {
                            A(W1(e, i, c), TR(F.edge, d, c)) += l * al / 3 * tau;
                            for (int k = 0; k < 2; ++k)
                                A(W1(e, i, c), TR(F.edge, d, k)) += l * al / 2 * F.h[x] * b[k] * F.n[c];
                            A(W2(e, i), TR(F.edge, d, c)) -= l * F.n[c] / F.h[x];
                        }
                    }
                }
            }
        }
    }
    int nwd = 0;
    for (uint g = 0; g < edges.size(); ++g) {
        auto& ed = edges[g];
        std::vector<std::pair<const Ele*, int>> sides;
        if (E[ed.a].wet)
            sides.push_back({&E[ed.a], ed.ka});
        if (ed.b && E[ed.b].wet)
            sides.push_back({&E[ed.b], ed.kb});
        if (sides.empty()) {
            for (int i = 0; i < ntr; ++i)
                A(TR(g, 0, 0) + i, TR(g, 0, 0) + i) = 1;
            continue;
        }
        bool wall = ed.land || (ed.b && sides.size() == 1);  // a dry neighbor is a wall
        nwd += ed.b && sides.size() == 1;
        for (auto& sd : sides) {
            auto& e = *sd.first;
            auto& F = e.f[sd.second];
            for (uint x = 0; x < F.pts.size(); ++x)
                for (uint a = 0; a <= p; ++a) {
                    double l = F.w[x] * F.lam(a, x);
                    for (uint d = 0; d <= p; ++d)
                        for (int c = 0; c < 2; ++c)
                            A(TR(g, a, c), TR(g, d, c)) -= l * F.lam(d, x) * (wall ? 1 : tau);
                    for (int i = 0; i < nd; ++i)
                        for (int c = 0; c < 2; ++c) {
                            if (wall) {
                                for (int k = 0; k < 2; ++k)
                                    A(TR(g, a, c), W1(e, i, k)) += l * F.phi(i, x) * ((c == k) - F.n[c] * F.n[k]);
                            } else {
                                A(TR(g, a, c), W1(e, i, c)) += l * tau * F.phi(i, x);
                                A(TR(g, a, c), W2(e, i)) += l * F.n[c] * F.phi(i, x);
                            }
                        }
                }
        }
    }
    // equilibrate
    VX cs(N);
    for (int rep = 0; rep < 2; ++rep) {
        for (int i = 0; i < N; ++i) {
            double m = A.row(i).cwiseAbs().maxCoeff();
            A.row(i) /= m;
            R[i] /= m;
        }
        if (rep == 0) {
            for (int i = 0; i < N; ++i) {
                cs[i] = A.col(i).cwiseAbs().maxCoeff();
                A.col(i) /= cs[i];
            }
        }
    }
    Eigen::PartialPivLU<MX> lu(A);
    double rc = lu.rcond();
    if (!(rc > 1e-7)) {
        t.label("ill-conditioned");
        t.discard();
    }
    VX X = lu.solve(R);
    X += lu.solve(VX(R - A * X));
    for (int i = 0; i < N; ++i)
        X[i] /= cs[i];

    std::map<const void*, MX> before;
    S.d.mesh.CallForEachElement([&](auto& e) {
        set_constant(e.data.state[s.st].rhs, 7.0);
    });
    uint nst = STEPPER(S).GetNumStages();
    Prob::dispersive_correction_serial(S.d, S.gd, STEPPER(S));
    (void)nst;
    // scales
    double wmax = 0;
    for (auto& kv : E)
        if (kv.second.wet)
            for (int i = 0; i < 2 * nd; ++i)
                wmax = std::max(wmax, std::abs(X[kv.second.idx * 3 * nd + i]));
    double tol = 1e-9 + 1e-15 / rc * 10;
    // what rounding may leave behind of the cancelling terms
    double hm = s.m.hmin(), Hm = 0, Zm = 0, Um = 0;
    for (auto& kv : E)
        for (uint x = 0; x < kv.second.pts.size(); ++x) {
            double z = at(kv.first, 0, kv.second.phi, x), b = bath(kv.second, kv.second.pts[x]);
            Hm = std::max(Hm, z + b);
            Zm = std::max(Zm, std::max(std::abs(z), std::abs(b)));
            Um = std::max(Um, std::hypot(at(kv.first, 1, kv.second.phi, x), at(kv.first, 2, kv.second.phi, x)) / (z + b));
        }
    double floor_ = s.g * Hm * Zm / hm + Hm * Hm * Hm * Um * Um / (hm * hm * hm) + Hm * Um * Um * Zm / hm / hm * (1 + (Hm + Zm) / hm);
    int corrected = 0;
    S.d.mesh.CallForEachElement([&](auto& e) {
        auto& el = E[&e.data];
        auto& st = e.data.state[s.st];
        if (getenv("VERIF_DEBUG")) {
            std::cerr << "elt " << e.GetID() << " dze\n" << MX(st.dze) << "\nref\n" << el.dze << "\ndu\n" << MX(st.du) << "\nref\n" << el.du << "\nddu\n" << MX(st.ddu) << "\nref\n" << el.ddu
                      << "\nw1\n" << MX(st.w1) << "\nref\n";
            for (int c = 0; c < 2; ++c) {
                for (int i = 0; i < nd; ++i)
                    std::cerr << X[W1(el, i, c)] << " ";
                std::cerr << "\n";
            }
        }
        double src = 0;
        MX rhs = MX::Zero(3, nd);
        for (uint x = 0; x < el.pts.size() && el.corr; ++x) {
            double h = at(&e.data, 0, el.phi, x) + bath(el, el.pts[x]);
            for (int c = 0; c < 2; ++c) {
                double w1 = 0, gz = el.dze.row(c).dot(el.phi.col(x));
                for (int i = 0; i < nd; ++i)
                    w1 += X[W1(el, i, c)] * el.phi(i, x);
                src = std::max(src, s.g / al * h * std::abs(gz));
                for (int i = 0; i < nd; ++i)
                    rhs(1 + c, i) += el.w[x] * el.phi(i, x) * (s.g / al * h * gz - w1);
            }
        }
        double area = el.g.area(), sc = area * s.phimax * (src + wmax + 1e-3 * floor_) + 1e-300;
        for (int v = 0; v < 3; ++v)
            for (int i = 0; i < nd; ++i)
                PNEAR(st.rhs(v, i) / sc, rhs(v, i) / sc, v ? tol : 1e-300,
                      "dispersive correction of variable " << v << ", mode " << i << " of element " << e.GetID() << (el.corr ? "" : el.wet ? " (wet, not corrected)" : " (dry)") << ", rcond " << rc);
        corrected += el.corr;
    });
    if (nwd)
        t.label("wet-dry edge");
    if (nopen)
        t.label("open edge");
    if (!buffer.empty())
        t.label("buffer elements");
    if (some_troubled)
        t.label("troubled");
    if (corrected && edges.size() > 5)
        t.nontrivial();
}
}
#if SEL(25)
LAW(P25, dispersive_correction, "an element that is corrected and at least two elements", 2500, 80000) { correction(t, false); }
#endif
#if SEL(25)
LAW(P25, dispersive_correction_open, "an element that is corrected and at least two elements", 2500, 80000) { correction(t, true); }
#endif
