// Random discontinuous states over generated meshes for the kernel-level laws of a solver; PROB (problem class), PROBNAME (yaml
// name), VOLUME_KERNEL and SOURCE_KERNEL (its kernels) are set by the including file.
#include "ref.hpp"

#ifndef STEPPER
#define STEPPER(s) (s).stepper
#endif

namespace {
using namespace sim;
using ref::P2;
using ref::V3;
using Prob = PROB;
using SimP = Sim<Prob>;

inline std::string rd(double v) {
    std::ostringstream o;
    o << std::setprecision(17) << v;
    return o.str();
}
struct SceneOpt {
    std::vector<int> kinds{mg::LAND};
    int levee     = 0;
    int nmin      = 1, nmax = 4;
    int spherical = 0;  // percent
    int p_max     = 4;
    double zlo    = -1;  // relative to D
    std::string blocks;
    int limiter = 0, wetdry = 0;
};
struct Scene {
    mg::Mesh m;
    Cfg c;
    double D, L, cs, g;
    bool sph = false;
    double lat0 = 0, R = 0;
    std::unique_ptr<SimP> s;
    uint st = 0, ndof = 0;
    double phimax = 1;
    std::map<const void*, ref::Geo> geo;
    std::map<const void*, std::array<int, 3>> nodes;  // generator node indices
    std::map<const void*, uint> id;
    std::map<const void*, bool> wet;
    double sp(double y) const { return sph ? std::cos(lat0 * M_PI / 180) / std::cos(y / R) : 1.0; }
    double S(int v) const { return D * cs * (v ? cs : 1.0); }
};
inline Scene scene(pbt::T& t, const SceneOpt& o, std::function<void(Scene&)> decorate = nullptr) {
    reset_globals();
    Scene s;
    s.D = t.lg(0.2, 50);
    s.L = s.D * t.lg(0.5, 500);
    mg::Opts mo;
    mo.nx_min = mo.ny_min = o.nmin;
    mo.nx_max = mo.ny_max = o.nmax;
    mo.Lmin = mo.Lmax = s.L;
    mo.zlo   = o.zlo * s.D;
    mo.zhi   = s.D;
    mo.kinds = o.kinds;
    mo.levee = o.levee;
    if (t.chance(15)) {
        mo.affine = mo.perturb = false;
        t.label("axis-aligned");
    }
    s.sph = o.spherical && t.chance(o.spherical);
    if (s.sph)
        mo.translate = false;
    s.m = mg::gen(t, mo);
    if (s.sph) {
        t.label("spherical");
        s.R    = s.L * t.lg(1.5, 1000);
        s.lat0 = t.s(70);
        // place the domain at some latitude (in the planar image), stay away from the poles
        double latc = t.s(55) * M_PI / 180, span = 2.0 * s.L;
        double yc = latc * s.R;
        double ymax = 80.0 * M_PI / 180 * s.R;
        if (std::abs(yc) + span > ymax)
            yc = std::copysign(std::max(0.0, ymax - span), yc);
        double xo = t.s(1) * s.L;
        for (auto& q : s.m.x) {
            q[0] += xo;
            q[1] += yc;
            if (std::abs(q[1]) > 85.0 * M_PI / 180 * s.R)
                t.discard();
        }
    }
    s.c.p = t.i(1, o.p_max);
    s.c.g = t.chance(30) ? t.r(1.0, 20.0) : 9.81;
    s.g   = s.c.g;
    s.cs  = std::sqrt(s.g * s.D);
    static const int rk[][2] = {{1, 1}, {2, 2}, {3, 3}, {4, 3}, {5, 3}, {5, 4}};
    int k       = t.i(0, 5);
    s.c.nstages = rk[k][0];
    s.c.order   = rk[k][1];
    s.c.dt      = t.lg(0.01, 100);
    s.c.run_time = 100000;
    if (t.chance(50))
        s.c.ramp = t.lg(1e-4, 1);
    s.c.blocks = o.blocks;
    if (o.wetdry)
        s.c.blocks += "  wetting_drying:\n    h_o: " + rd(s.D * t.lg(1e-4, 0.1)) + "\n";
    if (o.limiter)
        s.c.blocks += "  slope_limiting:\n    type: Cockburn-Shu\n    M: " + rd(t.lg(1e-8, 1)) + "\n    nu: " + rd(t.r(1, 2)) + "\n";
    mg::Mesh out;
    if (decorate)
        decorate(s);
    out = s.m;
    if (s.sph) {
        double lon0 = t.s(170);
        s.c.coord = "spherical";
        s.c.blocks += "  spherical_projection:\n    longitude_o: " + rd(lon0) + "\n    latitude_o: " + rd(s.lat0) + "\n    R: " + rd(s.R) + "\n";
        for (auto& q : out.x) {
            q[0] = lon0 + q[0] / (s.R * std::cos(s.lat0 * M_PI / 180)) * 180 / M_PI;
            q[1] = q[1] / s.R * 180 / M_PI;
        }
    }
    s.c.problem = PROBNAME;
    s.c.ic = "Constant";
    PNOTE("mesh " << s.m.tri.size() << " elements, D " << s.D << " L " << s.L << " p " << s.c.p << " g " << s.g << (s.sph ? " spherical R " : " ")
                  << s.R << " lat0 " << s.lat0);
    PNOTE(s.c.blocks);
    s.s = make<Prob>(out, s.c);
    s.s->prep();
    int adv = t.chance(70) ? t.i(0, 3 * s.c.nstages) : t.i(0, 400);
    for (int q = 0; q < adv; ++q)
        ++STEPPER(*s.s);
    s.st   = STEPPER(*s.s).GetStage();
    s.ndof = (s.c.p + 1) * (s.c.p + 2) / 2;
    auto ph  = phi_at(s.c.p, lattice(6).z);
    for (int a = 0; a < ph.rows(); ++a)
        for (int b = 0; b < ph.cols(); ++b)
            s.phimax = std::max(s.phimax, std::abs(ph(a, b)));
    auto no = s.m.node_of();
    s.s->d.mesh.CallForEachElement([&](auto& e) {
        const void* k = &e.data;
        s.geo[k]      = ref::geo(e);
        for (int v = 0; v < 3; ++v)
            s.nodes[k][v] = no.at(e.GetNodeID()[v]);
        s.id[k]  = e.GetID();
        s.wet[k] = true;
    });
    t.label("p" + std::to_string(s.c.p));
    return s;
}
// random wet state everywhere: depth between about 0.05 hm and 2 hm with hm up to 2 D, Froude number up to fr
inline void fill(pbt::T& t, Scene& s, double fr, bool lin = false) {
    double hscale = t.lg(0.02, 1);
    s.s->d.mesh.CallForEachElement([&](auto& e) {
        auto& g     = s.geo[&e.data];
        double bmin = std::min(g.z[0], std::min(g.z[1], g.z[2]));
        double hm   = s.D * hscale * t.lg(0.1, 1);
        double f    = t.r(0, fr);
        double qa   = f * hm * std::sqrt(s.g * hm);
        V3 mean{{-bmin + hm, t.s(qa), t.s(qa)}}, amp{{0.8 * hm * t.r(0, 1), qa, qa}};
        ref::random_state(t, e, lin ? 1 : s.c.p, mean, amp, s.st);
        if (lin)
            for (int v = 0; v < 3; ++v)
                for (uint d = 3; d < s.ndof; ++d)
                    e.data.state[s.st].q(v, d) = 0;
        set_constant(e.data.state[s.st].rhs, 0.0);
    });
}
inline void dry_some(pbt::T& t, Scene& s) {
    int pc = t.i(0, 3) * 25;
    s.s->d.mesh.CallForEachElement([&](auto& e) {
        bool w = !t.chance(pc);
        e.data.wet_dry_state.wet = w;
        s.wet[&e.data]           = w;
        if (!w && t.chance(60)) {  // as the wetting and drying kernel leaves them: at rest
            auto& q = e.data.state[s.st].q;
            for (uint d = 0; d < s.ndof; ++d)
                q(1, d) = q(2, d) = 0;
        }
    });
}
using RHS = std::map<const void*, DynMatrix<double>>;
inline RHS grab(Scene& s, bool zero) {
    RHS r;
    s.s->d.mesh.CallForEachElement([&](auto& e) {
        auto& q = e.data.state[s.st].rhs;
        DynMatrix<double> m = q;
        r[&e.data] = m;
        if (zero)
            set_constant(q, 0.0);
    });
    return r;
}
inline void add(RHS& r, const void* k, const DynMatrix<double>& m) { r[k] = r[k] + m; }
inline void compare(const Scene& s, const RHS& got, const RHS& want, double scale_len, double tol, const char* what) {
    for (auto& kv : want) {
        auto& G = got.at(kv.first);
        for (int v = 0; v < 3; ++v)
            for (uint d = 0; d < s.ndof; ++d) {
                double sc = s.S(v) * scale_len * s.phimax;
                PNEAR(G(v, d) / sc, kv.second(v, d) / sc, tol, what << ": variable " << v << ", mode " << d << " of element " << s.id.at(kv.first));
            }
    }
}
struct MaxState {
    double q = 0, h = 0, ze = 0;
};

}

#ifdef VOLUME_KERNEL
namespace {
inline void volume_source(pbt::T& t, int sph, bool friction_only) {
    SceneOpt o;
    o.spherical = sph;
    bool chezy = false, mann = false;
    double cf = 0;
    std::map<int, double> nn;
    auto s = scene(t, o, [&](Scene& s) {
        int f = friction_only ? t.i(1, 2) : t.i(0, 2);
        if (f == 1) {
            cf    = t.chance(10) ? 0.0 : t.lg(1e-4, 0.1);
            chezy = true;
            s.c.blocks += "  bottom_friction:\n    type: Chezy\n    coefficient: " + rd(cf) + "\n";
        } else if (f == 2) {
            mann = true;
            cf   = t.chance(40) ? 0.0 : t.lg(1e-4, 0.1);
            std::ofstream o("mann.13");
            o << std::setprecision(17);
            auto p = t.perm(s.m.nid.size());
            int n  = t.chance(60) ? p.size() : t.i(0, p.size());
            for (int k = 0; k < n; ++k) {
                double v = t.chance(10) ? 0.0 : t.lg(1e-3, 0.2);
                nn[p[k]] = v;
                o << s.m.nid[p[k]] << (t.b() ? " " : "   ") << v << "\n";
            }
            s.c.blocks += "  bottom_friction:\n    type: Manning\n    coefficient: " + rd(cf) + "\n    input_file: mann.13\n";
        }
    });
    bool fsrc = !friction_only && t.chance(30);
    fill(t, s, t.chance(20) ? 3.0 : 0.8);
    if (t.chance(20))
        s.s->d.mesh.CallForEachElement([&](auto& e) {  // fluid at rest
            if (t.b())
                for (uint d = 0; d < s.ndof; ++d)
                    e.data.state[s.st].q(1, d) = e.data.state[s.st].q(2, d) = 0;
        });
    if (t.chance(30))
        dry_some(t, s);
    double tt = STEPPER(*s.s).GetTimeAtCurrentStage();
    if (fsrc) {
        t.label("function source");
        SWE::SourceTerms::function_source = true;
        double D = s.D, cs = s.cs, L = s.L;
        hook::source_q() = [=](double w, const Point<2>& p) {
            return StatVector<double, 3>{D * cs / L * std::sin(p[0] / L + 0.1 * w), D * cs * cs / L * std::cos(p[1] / L), D * cs * cs / L * std::sin((p[0] - p[1]) / L)};
        };
    }
    // volume
    s.s->d.mesh.CallForEachElement([&](auto& e) {
        for (int v = 0; v < 3; ++v)
            for (uint d = 0; d < s.ndof; ++d)
                e.data.state[s.st].rhs(v, d) = 1e3;  // must be overwritten
        Prob::VOLUME_KERNEL(STEPPER(*s.s), e);
    });
    auto vol = grab(s, true);
    s.s->d.mesh.CallForEachElement([&](auto& e) { Prob::SOURCE_KERNEL(STEPPER(*s.s), e); });
    auto src = grab(s, true);
    RHS wv, wsrc;
    double big = 0;
    s.s->d.mesh.CallForEachElement([&](auto& e) {
        const void* k = &e.data;
        auto& g       = s.geo[k];
        auto pts      = ref::Capture::elt(e);
        DynMatrix<double> Fx(3, pts.size()), Fy(3, pts.size()), Q(3, pts.size());
        set_constant(Fx, 0.0);
        set_constant(Fy, 0.0);
        set_constant(Q, 0.0);
        auto dz = g.gradz();
        double mn = 0;
        for (int v = 0; v < 3; ++v)
            mn += nn.count(s.nodes[k][v]) ? nn[s.nodes[k][v]] / 3 : 0.0;
        if (s.wet[k])
            for (uint q = 0; q < pts.size(); ++q) {
                double X = pts[q][0], Y = pts[q][1], sp = s.sp(Y), z = g.zat(X, Y);
                V3 a = ref::value(s.c.p, g, e.data.state[s.st].q, X, Y);
                V3 fx = ref::flux_n(s.g, a, z, {{1, 0}}), fy = ref::flux_n(s.g, a, z, {{0, 1}});
                for (int v = 0; v < 3; ++v)
                    Fx(v, q) = sp * fx[v], Fy(v, q) = fy[v];
                Q(1, q) = s.g * sp * a[0] * dz[0];
                Q(2, q) = s.g * a[0] * dz[1];
                double h = a[0] + z, c = 0;
                if (chezy)
                    c = cf;
                if (mann)
                    c = std::max(cf, s.g * mn * mn / std::cbrt(h));
                double U = std::hypot(a[1], a[2]) / h;
                Q(1, q) -= c * U * a[1] / h;
                Q(2, q) -= c * U * a[2] / h;
                if (fsrc) {
                    Point<2> P;
                    P[0] = X;
                    P[1] = Y;
                    auto f = hook::source_q()(tt, P);
                    for (int v = 0; v < 3; ++v)
                        Q(v, q) += f[v];
                }
                for (int v = 0; v < 3; ++v)
                    big = std::max(big, std::abs(Q(v, q)) / (s.S(v) / s.L));
            }
        DynMatrix<double> a = e.IntegrationDPhi(0, Fx), b = e.IntegrationDPhi(1, Fy), c = e.IntegrationPhi(Q);
        wv[k]   = a + b;
        wsrc[k] = c;
    });
    double area = s.L * s.L;
    if (!friction_only)
        compare(s, vol, wv, 100 * s.L * (1 + s.L / s.m.hmin()), 1e-12, "volume contribution");
    compare(s, src, wsrc, 20 * area / s.L * std::max(1.0, big), 1e-12, "source contribution");
    if (chezy)
        t.label("chezy");
    if (mann)
        t.label("manning");
    // friction never feeds the flow and never touches mass
    if (friction_only && !fsrc && sph == 0)
        for (auto& kv : src)
            for (uint d = 0; d < s.ndof; ++d)
                PCHECK(kv.second(0, d) == 0, "bottom friction changes the mass");
    t.nontrivial();
}
}
#endif
