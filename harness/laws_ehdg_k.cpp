// Kernel-level laws of the explicit hybridised (EHDG) shallow-water solver: traces and fluxes of interior and boundary edges and
// what its kernels add to the right-hand side, on random discontinuous states over generated meshes, against reference computations.
#define PROB SWE::EHDG::Problem
#define PROBNAME "ehdg_swe"
#define VOLUME_KERNEL local_volume_kernel
#define SOURCE_KERNEL local_source_kernel
#include "scene.hpp"
#include <Eigen/Dense>

namespace {
inline double lam_hat(double g, const V3& q, double h, const P2& n) { return std::abs((q[1] * n[0] + q[2] * n[1]) / h) + std::sqrt(g * h); }
// F(q^) n + lambda(q^) (q - q^), the depth of the trace given
inline V3 hdg(double g, const V3& q, const V3& qh, double b, double h, const P2& n) {
    double u = qh[1] / h, v = qh[2] / h, pe = g * (qh[0] * qh[0] / 2 + qh[0] * b), l = lam_hat(g, qh, h, n);
    V3 f{{qh[1] * n[0] + qh[2] * n[1], (u * qh[1] + pe) * n[0] + u * qh[2] * n[1], u * qh[2] * n[0] + (v * qh[2] + pe) * n[1]}};
    for (int k = 0; k < 3; ++k)
        f[k] += l * (q[k] - qh[k]);
    return f;
}
inline V3 mid(const V3& a, const V3& b) { return {{(a[0] + b[0]) / 2, (a[1] + b[1]) / 2, (a[2] + b[2]) / 2}}; }
inline V3 slide(const V3& q, const P2& n) {
    double qn = q[1] * n[0] + q[2] * n[1];
    return {{q[0], q[1] - qn * n[0], q[2] - qn * n[1]}};
}
inline RHS zeros(Scene& s) {
    RHS w;
    s.s->d.mesh.CallForEachElement([&](auto& e) { w[&e.data] = DynMatrix<double>(3, s.ndof); set_constant(w[&e.data], 0.0); });
    return w;
}
// as in a run: every state was once a wet or dry state of the stage before, so the traces of dry elements are defined
inline void traces(Scene& s) {
    s.s->d.mesh.CallForEachInterface([&](auto& i) { Prob::global_interface_kernel(s.s->stepper, i); });
    s.s->d.mesh.CallForEachBoundary([&](auto& b) { Prob::global_boundary_kernel(s.s->stepper, b); });
    s.s->d.mesh_skeleton.CallForEachEdgeInterface([&](auto& e) { e.interface.specialization.ComputeNumericalFlux(e); });
    s.s->d.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) { e.boundary.boundary_condition.ComputeNumericalFlux(s.s->stepper, e); });
}
}

#if SEL(10)
LAW(P10, edge_flux_ehdg, "at least one interior edge with a wet side", 10000, 400000) {
    auto s = scene(t, SceneOpt());
    fill(t, s, t.chance(20) ? 3.0 : 0.8);
    bool somedry = t.chance(50);
    if (somedry)
        dry_some(t, s);
    RHS want = zeros(s);
    uint n   = 0;
    bool wd = false, undecided = false;
    double big = 0;
    s.s->d.mesh.CallForEachInterface([&](auto& f) {
        const void *ki = &f.data_in, *ke = &f.data_ex;
        auto &gi = s.geo.at(ki), &ge = s.geo.at(ke);
        bool wi = s.wet.at(ki), we = s.wet.at(ke);
        if (!wi && !we)
            return;
        auto pin = ref::Capture::in(f), pex = ref::Capture::ex(f);
        DynMatrix<double> Fin(3, pin.size()), Fex(3, pex.size());
        P2 nn = gi.normal(f.bound_id_in), mm{{-nn[0], -nn[1]}};
        auto flux = [&](const P2& x, bool inside) {
            V3 a = ref::value(s.c.p, gi, f.data_in.state[s.st].q, x[0], x[1]), b = ref::value(s.c.p, ge, f.data_ex.state[s.st].q, x[0], x[1]);
            double z = gi.zat(x[0], x[1]);
            V3 q = mid(a, b);
            double h = q[0] + z;
            V3 F = hdg(s.g, a, q, z, h, nn), out = inside ? F : ref::neg(F);
            if (wi && we)
                return out;
            if (std::abs(std::abs(F[0]) - 1e-12) < 1e-12 + 1e-13 * s.S(0))
                undecided = true;
            bool to_ex = F[0] > 1e-12, to_in = F[0] < -1e-12;
            if (!to_ex && !to_in)
                return out;
            wd            = true;
            bool from_wet = to_ex ? wi : we, at_src = to_ex == inside;
            const V3& own = inside ? a : b;
            const P2& no  = inside ? nn : mm;
            if (!from_wet) {  // a dry element keeps its film; its neighbour sees a wall
                if (at_src)
                    out = V3{{0, 0, 0}};
                else
                    out = hdg(s.g, own, slide(own, no), z, h, no);
            } else if (!at_src) {  // water entering a dry element carries momentum, but gravity does not act
                V3 w   = hdg(0.0, own, q, z, h, no);
                w[0]   = out[0];
                out    = w;
            }
            return out;
        };
        for (uint k = 0; k < pin.size(); ++k) {
            V3 r = flux(pin[k], true);
            for (int v = 0; v < 3; ++v)
                Fin(v, k) = r[v], big = std::max(big, std::abs(r[v]) / s.S(v));
        }
        for (uint k = 0; k < pex.size(); ++k) {
            V3 r = flux(pex[k], false);
            for (int v = 0; v < 3; ++v)
                Fex(v, k) = r[v], big = std::max(big, std::abs(r[v]) / s.S(v));
        }
        ++n;
        DynMatrix<double> a = f.IntegrationPhiIN(Fin), b = f.IntegrationPhiEX(Fex);
        add(want, ki, -a);
        add(want, ke, -b);
    });
    if (undecided)
        t.discard();
    traces(s);
    s.s->d.mesh.CallForEachInterface([&](auto& i) { Prob::local_interface_kernel(s.s->stepper, i); });
    auto got = grab(s, true);
    compare(s, got, want, s.L * 20 * std::max(1.0, big), 1e-12, "edge contribution");
    for (int v = 0; v < (somedry ? 1 : 3); ++v) {
        double sum = 0;
        for (auto& kv : got)
            sum += kv.second(v, 0);
        PNEAR(sum / (s.S(v) * s.L * 20 * std::max(1.0, big) * (1 + got.size())), 0.0, 1e-12, "what one side of the interior edges gains, variable " << v << ", the other does not lose");
    }
    if (wd)
        t.label("wet-dry");
    if (n > 0)
        t.nontrivial();
}
#endif

#if SEL(10)
LAW(P10, wall_flux_ehdg, "at least one wet element on a wall", 6000, 240000) {
    auto s = scene(t, SceneOpt());
    fill(t, s, t.chance(20) ? 3.0 : 0.8);
    if (t.chance(30))
        dry_some(t, s);
    RHS want = zeros(s);
    double big = 0;
    int n = 0;
    s.s->d.mesh.CallForEachBoundary([&](auto& b) {
        const void* k = &b.data;
        if (!s.wet[k])
            return;
        auto& g  = s.geo[k];
        auto pts = ref::Capture::elt(b);
        DynMatrix<double> F(3, pts.size());
        P2 nn = g.normal(b.bound_id);
        for (uint q = 0; q < pts.size(); ++q) {
            double X = pts[q][0], Y = pts[q][1], z = g.zat(X, Y);
            V3 a = ref::value(s.c.p, g, b.data.state[s.st].q, X, Y);
            V3 f = hdg(s.g, a, slide(a, nn), z, a[0] + z, nn);
            PNEAR(f[0] / s.S(0), 0.0, 1e-12, "reference wall leaks");
            for (int v = 0; v < 3; ++v)
                F(v, q) = f[v], big = std::max(big, std::abs(f[v]) / s.S(v));
        }
        DynMatrix<double> c = b.IntegrationPhi(F);
        add(want, k, -c);
        ++n;
    });
    traces(s);
    s.s->d.mesh.CallForEachBoundary([&](auto& b) { Prob::local_boundary_kernel(s.s->stepper, b); });
    auto got = grab(s, true);
    compare(s, got, want, s.L * 20 * std::max(1.0, big), 1e-12, "wall contribution");
    if (n)
        t.nontrivial();
}
#endif

namespace {
using M3 = Eigen::Matrix3d;
// positive and negative part of the normal Jacobian, by its eigenvalues un-c, un, un+c
inline void split(double g, const V3& q, double b, const P2& n, M3& Ap, M3& Am) {
    double h = q[0] + b, u = q[1] / h, v = q[2] / h, c = std::sqrt(g * h), un = u * n[0] + v * n[1];
    M3 A;
    A << 0, n[0], n[1], g * h * n[0] - u * un, un + u * n[0], u * n[1], g * h * n[1] - v * un, v * n[0], un + v * n[1];
    double l[3] = {un - c, un, un + c};
    Ap.setZero();
    Am.setZero();
    M3 I = M3::Identity();
    for (int k = 0; k < 3; ++k) {  // spectral projectors
        M3 P = I;
        for (int j = 0; j < 3; ++j)
            if (j != k)
                P = P * (A - l[j] * I) / (l[k] - l[j]);
        (l[k] > 0 ? Ap : Am) += l[k] * P;
    }
}
}

#if SEL(11)
LAW(P11, boundary_flux_ehdg, "at least one open (tide, flow or function) boundary edge the stream crosses", 6000, 240000) {
    SceneOpt o;
    o.kinds = {mg::LAND, mg::TIDE, mg::FLOW, mg::FUNC};
    o.nmax  = 3;
    o.p_max = 3;
    // one stream, so that it crosses open edges at a definite speed: the trace equations are singular at stagnation (DESIGN.md)
    double hscale = t.lg(0.05, 1), dev = t.chance(20) ? 0.0 : t.lg(1e-4, 0.1);
    double fr = t.r(0.2, 0.5), ang = t.r(0, 2 * M_PI);
    P2 W{{std::cos(ang), std::sin(ang)}};
    double hm = 0, zmin = 0, ze0 = 0;
    auto s = scene(t, o, [&](Scene& s) {
        // a flat surface of height hm above the highest bed point; at the datum if the forcing ramps up from there
        hm   = hscale * s.D;
        zmin        = 1e300;
        double zmax = -1e300;
        for (auto& x : s.m.x)
            zmin = std::min(zmin, x[2]), zmax = std::max(zmax, x[2]);
        double f = std::min(1.0, hm / std::max(zmax - zmin, 1e-30));
        for (auto& x : s.m.x)
            x[2] = zmin + f * (x[2] - zmin);
        if (s.c.ramp > 0)
            for (auto& x : s.m.x)
                x[2] += hm - zmin;
        zmin = s.c.ramp > 0 ? hm : zmin;
        ze0  = hm - zmin;
        double qn = fr * hm * std::sqrt(s.g * hm);
        for (auto& g : s.m.seg) {
            auto constant = [&](std::function<double(uint)> f) {
                mg::Con q;
                q.freq = q.eq = 0;
                q.ff = 1;
                for (uint k = 0; k < g.n.size(); ++k)
                    q.amp.push_back(f(k));
                q.phase.assign(g.n.size(), 0.0);
                g.con.insert(g.con.begin() + t.i(0, g.con.size()), q);
            };
            if (g.kind == mg::TIDE) {
                mg::gen_forcing(t, g, 0.3 * dev * hm, 1.0);
                if (s.c.ramp == 0)
                    constant([&](uint) { return ze0; });
            } else if (g.kind == mg::FLOW) {
                mg::gen_forcing(t, g, 0.3 * dev * qn, 1.0);
                constant([&](uint k) {
                    uint i = k + 1 < g.n.size() ? k : k - 1;
                    bool ccw = s.m.oriented().count({g.n[i], g.n[i + 1]});  // which way the section runs around the domain
                    int I = g.n[ccw ? i : i + 1], J = g.n[ccw ? i + 1 : i];
                    double dx = s.m.x[J][0] - s.m.x[I][0], dy = s.m.x[J][1] - s.m.x[I][1];
                    return qn * (W[0] * dy - W[1] * dx) / std::hypot(dx, dy);
                });
            }
        }
    });
    double tt = s.s->stepper.GetTimeAtCurrentStage(), ramp = s.s->stepper.GetRamp(), vel = fr * std::sqrt(s.g * hm);
    s.s->d.mesh.CallForEachElement([&](auto& e) {
        double q = vel * hm;
        V3 B{{ze0, q * W[0], q * W[1]}};
        double a = dev * std::hypot(B[1], B[2]);
        ref::random_state(t, e, s.c.p, B, {{dev * hm, a, a}}, s.st);
        set_constant(e.data.state[s.st].rhs, 0.0);
    });
    struct Fn {
        V3 a, b, w;
        double L;
        V3 operator()(double tt, double x, double y) const {
            V3 r;
            for (int v = 0; v < 3; ++v)
                r[v] = a[v] * std::sin((x * 1.3 + y * (v + 1)) / L * 2 + 0.01 * tt + w[v]) + b[v];
            return r;
        }
    } fn;
    fn.L = s.L;
    double q0 = hm * std::sqrt(s.g * hm) * fr;
    for (int v = 0; v < 3; ++v) {
        fn.a[v] = v ? t.s(dev * q0) : t.s(dev * hm);
        fn.b[v] = v ? q0 * t.r(0.8, 1.2) * W[v - 1] : ze0;
        fn.w[v] = t.r(0, 6);
    }
    hook::ic_q() = [&](double w, const Point<2>& p) {
        auto u = fn(w, p[0], p[1]);
        return StatVector<double, 3>{u[0], u[1], u[2]};
    };
    traces(s);
    RHS want   = zeros(s);
    double big = 0;
    int n[4]   = {0, 0, 0, 0}, judged = 0;
    s.s->d.mesh_skeleton.CallForEachEdgeBoundary([&](auto& eb) {
        auto& b       = eb.boundary;
        const void* k = &b.data;
        auto& g       = s.geo[k];
        int e         = b.bound_id;
        int na = s.nodes[k][(e + 1) % 3], nb = s.nodes[k][(e + 2) % 3];
        auto& seg = s.m.seg[s.m.seg_of(na, nb)];
        auto pts  = ref::Capture::elt(b);
        P2 nn     = g.normal(e);
        uint N    = pts.size();
        DynMatrix<double> F(3, N);
        DynMatrix<double> qh = eb.ComputeUgp(eb.edge_data.edge_state.q_hat);
        DynMatrix<double> res(3, N);
        double rs  = 0, cross = W[0] * nn[0] + W[1] * nn[1];
        bool judge = std::abs(cross) > 0.15;
        bool open = seg.kind != mg::LAND && seg.kind != mg::ISLAND;
        std::vector<V3> own(N), ext(N);
        for (uint q = 0; q < N; ++q) {
            double X = pts[q][0], Y = pts[q][1];
            V3 a = ref::value(s.c.p, g, b.data.state[s.st].q, X, Y), x = a;
            double lam  = (g.edge_s(e, X, Y) + 1) / 2;
            auto forced = [&]() {
                uint ia = 0, ib = 0;
                for (uint w = 0; w + 1 < seg.n.size(); ++w) {
                    if (seg.n[w] == na && seg.n[w + 1] == nb)
                        ia = w, ib = w + 1;
                    if (seg.n[w] == nb && seg.n[w + 1] == na)
                        ia = w + 1, ib = w;
                }
                double v = 0;
                for (auto& c : seg.con) {
                    double am = (1 - lam) * c.amp[ia] + lam * c.amp[ib], ph = (1 - lam) * c.phase[ia] + lam * c.phase[ib];
                    v += ramp * c.ff * am * std::cos(c.freq * tt + (c.eq - ph) * M_PI / 180);
                }
                return v;
            };
            if (seg.kind == mg::TIDE) {
                x[0] = forced();
            } else if (seg.kind == mg::FLOW) {
                double v = forced();
                x[1] = v * nn[0], x[2] = v * nn[1];
                judge = judge && v * cross >= 0.3 * vel * hm * cross * cross;
            } else if (open)
                x = fn(tt, X, Y);
            own[q] = a;
            ext[q] = x;
        }
        ++n[seg.kind == mg::TIDE ? 1 : seg.kind == mg::FLOW ? 2 : open ? 3 : 0];
        for (uint q = 0; q < N; ++q) {
            double X = pts[q][0], Y = pts[q][1], z = g.zat(X, Y);
            V3 a = own[q], x = ext[q], Q;
            if (!open)
                Q = slide(a, nn);
            else {
                for (int v = 0; v < 3; ++v)
                    Q[v] = qh(v, q);
                if (!(std::isfinite(Q[0]) && Q[0] + z > 0) && !judge)
                    t.discard();
                PCHECK(std::isfinite(Q[0]) && Q[0] + z > 0, "trace on a boundary edge of kind " << seg.kind << " has no water: " << Q[0] << " " << Q[1] << " " << Q[2] << ", inside " << a[0] << " " << a[1] << " " << a[2] << ", outside " << x[0] << " " << x[1] << " " << x[2] << ", depth " << a[0] + z << ", crossing " << cross);
                M3 Ap, Am;
                split(s.g, Q, z, nn, Ap, Am);
                Eigen::Vector3d di(a[0] - Q[0], a[1] - Q[1], a[2] - Q[2]), de(x[0] - Q[0], x[1] - Q[1], x[2] - Q[2]);
                Eigen::Vector3d r = Ap * di - Am * de;
                for (int v = 0; v < 3; ++v)
                    res(v, q) = r[v] / s.S(v);
                for (int v = 0; v < 3; ++v)
                    rs = std::max(rs, std::abs(res(v, q)));
            }
            V3 f = hdg(s.g, a, Q, z, Q[0] + z, nn);
            for (int v = 0; v < 3; ++v)
                F(v, q) = f[v], big = std::max(big, std::abs(f[v]) / s.S(v));
        }
        if (judge && open) {
            ++judged;
            double len = g.elen(e);
            for (uint d = 0; d < (uint)s.c.p + 1; ++d) {
                DynVector<double> w = eb.IntegrationLambda(d, res);
                for (int v = 0; v < 3; ++v)
                    PNEAR(w[v] / len, 0.0, 1e-8, "trace equation of a boundary edge of kind " << seg.kind << ": variable " << v << ", mode " << d << ", residual in the points up to " << rs);
            }
        }
        DynMatrix<double> c = b.IntegrationPhi(F);
        add(want, k, -c);
    });
    s.s->d.mesh.CallForEachBoundary([&](auto& b) { Prob::local_boundary_kernel(s.s->stepper, b); });
    auto got = grab(s, true);
    compare(s, got, want, s.L * 20 * std::max(1.0, big), 1e-11 + 1e-14 * tt, "boundary contribution");
    const char* nm[4] = {"land", "tide", "flow", "function"};
    for (int k = 0; k < 4; ++k)
        if (n[k])
            t.label(nm[k]);
    if (zmin < 0)
        t.label("bed above datum");
    if (judged)
        t.nontrivial();
}
#endif
#if SEL(9)
LAW(P09, volume_ehdg, "every case", 5000, 200000) { volume_source(t, 0, false); }
#endif
#if SEL(23)
LAW(P23, friction_source_ehdg, "every case", 5000, 200000) { volume_source(t, 0, true); }
#endif
