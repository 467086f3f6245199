// Kernel-level laws of the explicit (RKDG) shallow-water solver: what its kernels add to the right-hand side,
// on random discontinuous states over generated meshes, against reference computations.
#define PROB SWE::RKDG::Problem
#define PROBNAME "rkdg_swe"
#define VOLUME_KERNEL volume_kernel
#define SOURCE_KERNEL source_kernel
#include "scene.hpp"

namespace {
// ---- interfaces -----------------------------------------------------------------------------------------
// the reference of one interior edge; false if a point is too close to a switch to be judged
template <typename IF>
bool ref_interface(Scene& s, IF& f, DynMatrix<double>& Fin, DynMatrix<double>& Fex, bool& wetdry) {
    const void *ki = &f.data_in, *ke = &f.data_ex;
    auto &gi = s.geo.at(ki), &ge = s.geo.at(ke);
    bool wi = s.wet.at(ki), we = s.wet.at(ke);
    auto pin = ref::Capture::in(f), pex = ref::Capture::ex(f);
    Fin = DynMatrix<double>(3, pin.size());
    Fex = DynMatrix<double>(3, pex.size());
    P2 n = gi.normal(f.bound_id_in), m{{-n[0], -n[1]}};
    auto flux = [&](const P2& x, bool inside) -> std::pair<V3, bool> {
        V3 a = ref::value(s.c.p, gi, f.data_in.state[s.st].q, x[0], x[1]);
        V3 b = ref::value(s.c.p, ge, f.data_ex.state[s.st].q, x[0], x[1]);
        double z = gi.zat(x[0], x[1]), sp = s.sp(x[1]);
        V3 F = ref::llf(s.g, a, b, z, n, sp);  // leaving the in side
        V3 out = inside ? F : ref::neg(F);
        double eps = 1e-12, gap = 1e-12 + 1e-13 * s.S(0);
        if (!(wi && we) && std::abs(std::abs(F[0]) - eps) < gap)
            return {out, false};
        bool to_ex = F[0] > eps, to_in = F[0] < -eps;
        bool from_wet = to_ex ? wi : we, to_wet = to_ex ? we : wi;
        if (!(to_ex || to_in) || (from_wet && to_wet))
            return {out, true};
        wetdry        = true;
        bool at_src   = to_ex == inside;
        const V3& own = inside ? a : b;
        const V3& oth = inside ? b : a;
        P2 nn         = inside ? n : m;
        if (!from_wet) {
            if (at_src)
                out = V3{{0, 0, 0}};
            else
                out = ref::llf(s.g, own, ref::mirror(own, nn, sp), z, nn, sp);
        } else if (!to_wet && !at_src) {
            out    = ref::llf(0.0, own, oth, z, nn, sp);
            out[0] = inside ? F[0] : -F[0];
        }
        return {out, true};
    };
    for (uint k = 0; k < pin.size(); ++k) {
        auto r = flux(pin[k], true);
        if (!r.second)
            return false;
        for (int v = 0; v < 3; ++v)
            Fin(v, k) = r.first[v];
    }
    for (uint k = 0; k < pex.size(); ++k) {
        auto r = flux(pex[k], false);
        if (!r.second)
            return false;
        for (int v = 0; v < 3; ++v)
            Fex(v, k) = r.first[v];
    }
    return true;
}
template <typename F>
void each_interface(Scene& s, const F& f) {
    s.s->d.mesh.CallForEachInterface([&](auto& i) { f(i); });
}
inline void edges(pbt::T& t, int sph) {
    SceneOpt o;
    o.spherical = sph;
    o.nmin      = 1;
    auto s      = scene(t, o);
    fill(t, s, t.chance(20) ? 3.0 : 0.8);
    bool somedry = t.chance(50);
    if (somedry)
        dry_some(t, s);
    RHS want;
    s.s->d.mesh.CallForEachElement([&](auto& e) { want[&e.data] = DynMatrix<double>(3, s.ndof); set_constant(want[&e.data], 0.0); });
    uint n       = 0;
    bool wd      = false, undecided = false;
    each_interface(s, [&](auto& f) {
        const void *ki = &f.data_in, *ke = &f.data_ex;
        if (!s.wet[ki] && !s.wet[ke])
            return;
        DynMatrix<double> Fi, Fe;
        if (!ref_interface(s, f, Fi, Fe, wd)) {
            undecided = true;
            return;
        }
        ++n;
        DynMatrix<double> a = f.IntegrationPhiIN(Fi), b = f.IntegrationPhiEX(Fe);
        add(want, ki, -a);
        add(want, ke, -b);
    });
    if (undecided)
        t.discard();
    each_interface(s, [&](auto& f) { Prob::interface_kernel(s.s->stepper, f); });
    auto got = grab(s, true);
    compare(s, got, want, s.L * 20, 1e-12, "edge contribution");
    // conservation: what one element loses the other gains, unless water leaves for a dry element
    if (!somedry) {
        V3 sum{{0, 0, 0}};
        for (auto& kv : got)
            for (int v = 0; v < 3; ++v)
                sum[v] += kv.second(v, 0);
        for (int v = 0; v < 3; ++v)
            PNEAR(sum[v] / (s.S(v) * s.L * 20 * (1 + got.size())), 0.0, 1e-12, "sum of the interior edges' contributions to the means of variable " << v);
    } else {
        double sum = 0;
        for (auto& kv : got)
            sum += kv.second(0, 0);
        PNEAR(sum / (s.S(0) * s.L * 20 * (1 + got.size())), 0.0, 1e-12, "water created or lost at interior edges");
    }
    if (wd)
        t.label("wet-dry");
    if (n > 0)
        t.nontrivial();
}
}

#if SEL(10)
LAW(P10, edge_flux_rkdg, "at least one interior edge with a wet side", 12000, 480000) { edges(t, 0); }
#endif
#if SEL(26)
LAW(P26, edges_spherical, "at least one interior edge with a wet side", 6000, 240000) { edges(t, 100); }
#endif

namespace {
// both sides equal: the numerical flux is the physical one; the same edge described from the other side
inline void boundaries(pbt::T& t, int sph) {
    SceneOpt o;
    o.kinds     = {mg::LAND, mg::TIDE, mg::FLOW, mg::FUNC};
    o.spherical = sph;
    struct Fn {
        V3 a, b, w;
        V3 operator()(double tt, double x, double y, const Scene& s) const {
            V3 r;
            for (int v = 0; v < 3; ++v)
                r[v] = a[v] * std::sin((x * 1.3 + y * (v + 1)) / s.L * 2 + 0.01 * tt + w[v]) + b[v];
            return r;
        }
    } fn;
    auto s = scene(t, o, [&](Scene& s) {
        for (auto& g : s.m.seg)
            if (g.kind == mg::TIDE)
                mg::gen_forcing(t, g, 0.3 * s.D, 1.0);
            else if (g.kind == mg::FLOW)
                mg::gen_forcing(t, g, s.D * s.cs, 1.0);
    });
    for (int v = 0; v < 3; ++v) {
        fn.a[v] = t.s(v ? s.D * s.cs : 0.1 * s.D);
        fn.b[v] = v ? t.s(s.D * s.cs) : 2 * s.D;
        fn.w[v] = t.r(0, 6);
    }
    hook::ic_q() = [&](double tt, const Point<2>& p) {
        auto u = fn(tt, p[0], p[1], s);
        return StatVector<double, 3>{u[0], u[1], u[2]};
    };
    fill(t, s, t.chance(20) ? 3.0 : 0.8);
    if (t.chance(30))
        dry_some(t, s);
    double tt = s.s->stepper.GetTimeAtCurrentStage(), ramp = s.s->stepper.GetRamp();
    RHS want;
    s.s->d.mesh.CallForEachElement([&](auto& e) { want[&e.data] = DynMatrix<double>(3, s.ndof); set_constant(want[&e.data], 0.0); });
    int n[4] = {0, 0, 0, 0};
    bool out = false;
    double biggest = 0;
    s.s->d.mesh.CallForEachBoundary([&](auto& b) {
        const void* k = &b.data;
        if (!s.wet[k])
            return;
        auto& g = s.geo[k];
        int e   = b.bound_id;
        int na = s.nodes[k][(e + 1) % 3], nb = s.nodes[k][(e + 2) % 3];
        int sg = s.m.seg_of(na, nb);
        PCHECK(sg >= 0, "boundary on an edge that is no boundary edge");
        auto& seg = s.m.seg[sg];
        auto pts  = ref::Capture::elt(b);
        DynMatrix<double> F(3, pts.size());
        P2 nn = g.normal(e);
        for (uint q = 0; q < pts.size(); ++q) {
            double X = pts[q][0], Y = pts[q][1], sp = s.sp(Y), z = g.zat(X, Y);
            V3 a = ref::value(s.c.p, g, b.data.state[s.st].q, X, Y), x = a;
            double lam = (g.edge_s(e, X, Y) + 1) / 2;
            auto forced = [&]() {
                uint ia = 0, ib = 0;
                for (uint w = 0; w + 1 < seg.n.size(); ++w) {
                    if (seg.n[w] == na && seg.n[w + 1] == nb)
                        ia = w, ib = w + 1;
                    if (seg.n[w] == nb && seg.n[w + 1] == na)
                        ia = w + 1, ib = w;
                }
                double v = 0;
                for (auto& c : seg.con) {
                    double am = (1 - lam) * c.amp[ia] + lam * c.amp[ib], ph = (1 - lam) * c.phase[ia] + lam * c.phase[ib];
                    v += ramp * c.ff * am * std::cos(c.freq * tt + (c.eq - ph) * M_PI / 180);
                }
                return v;
            };
            switch (seg.kind) {
                case mg::TIDE:
                    x[0] = forced();
                    ++n[1];
                    break;
                case mg::FLOW: {
                    double qn = forced();
                    x[1] = qn * nn[0], x[2] = qn * nn[1];
                    ++n[2];
                    break;
                }
                case mg::FUNC:
                    x = fn(tt, X, Y, s);
                    ++n[3];
                    break;
                default:
                    x = ref::mirror(a, nn, sp);
                    ++n[0];
            }
            if (!(x[0] + z > 0.01 * s.D)) {
                out = true;
                return;
            }
            V3 f = ref::llf(s.g, a, x, z, nn, sp);
            if (seg.kind == mg::LAND || seg.kind == mg::ISLAND)
                PNEAR(f[0] / s.S(0), 0.0, 1e-12, "reference wall leaks");
            for (int v = 0; v < 3; ++v) {
                F(v, q) = f[v];
                biggest = std::max(biggest, std::abs(f[v]) / s.S(v));
            }
        }
        DynMatrix<double> c = b.IntegrationPhi(F);
        add(want, k, -c);
    });
    if (out) {
        t.label("tide below the bed");
        t.discard();
    }
    s.s->d.mesh.CallForEachBoundary([&](auto& b) { Prob::boundary_kernel(s.s->stepper, b); });
    auto got = grab(s, true);
    // cos(freq t) loses freq t eps, interpolation of phases is exact
    double tol = 1e-11 + 1e-14 * tt;
    compare(s, got, want, s.L * 20 * std::max(1.0, biggest), tol, "boundary contribution");
    const char* nm[4] = {"land", "tide", "flow", "function"};
    for (int k = 0; k < 4; ++k)
        if (n[k])
            t.label(nm[k]);
    if (n[1] + n[2] + n[3] > 0)
        t.nontrivial();
}
}
#if SEL(11)
LAW(P11, boundary_flux_rkdg, "at least one open (tide, flow or function) boundary edge", 12000, 480000) { boundaries(t, 0); }
#endif
#if SEL(26)
LAW(P26, boundaries_spherical, "at least one open (tide, flow or function) boundary edge", 6000, 240000) { boundaries(t, 100); }
#endif

#if SEL(9)
LAW(P09, volume_rkdg, "every case", 6000, 240000) { volume_source(t, 0, false); }
#endif
#if SEL(23)
LAW(P23, friction_source_rkdg, "every case", 6000, 240000) { volume_source(t, 0, true); }
#endif
#if SEL(26)
LAW(P26, volume_spherical, "every case", 4000, 160000) { volume_source(t, 100, false); }
#endif

// the planar image of the mesh
#if SEL(26)
LAW(P26, projection, "every case", 2000, 80000) {
    SceneOpt o;
    o.spherical = 100;
    auto s      = scene(t, o);
    double A    = 0;
    for (auto& kv : s.geo) {
        auto& nd = s.nodes[kv.first];
        for (int v = 0; v < 3; ++v) {
            // longitudes are given with a rounding error of up to 360 eps
            double sc = s.L + std::abs(s.m.x[nd[v]][1]), eps = 1e-13 * s.R + 1e-12 * sc;
            PNEAR(kv.second.x[v], s.m.x[nd[v]][0], eps, "projected x of node " << s.m.nid[nd[v]]);
            PNEAR(kv.second.y[v], s.m.x[nd[v]][1], eps, "projected y of node " << s.m.nid[nd[v]]);
            PCHECK(kv.second.z[v] == s.m.x[nd[v]][2], "depth changed");
        }
        A += kv.second.area();
    }
    PNEAR(A / s.m.area(), 1.0, 1e-6, "projected area");
    t.nontrivial();
}
#endif

// ---- levees ---------------------------------------------------------------------------------------------
#if SEL(16)
LAW(P16, levee_rkdg, "at least one levee edge with water above the crest on one side", 10000, 400000) {
    SceneOpt o;
    o.levee = 100;
    o.zlo   = 0.1;
    auto s  = scene(t, o, [&](Scene& s) {
        for (auto& g : s.m.seg)
            if (g.kind == mg::LEVEE)
                for (size_t k = 0; k < g.n.size(); ++k) {
                    g.H[k]    = t.s(0.5) * s.D;
                    g.Csub[k] = t.r(0.05, 1.2);
                    g.Csup[k] = t.r(0.05, 1.2);
                }
    });
    fill(t, s, 0.8);
    // levels near and above the crest
    int mode = t.i(0, 3);
    s.s->d.mesh.CallForEachElement([&](auto& e) {
        auto& q = e.data.state[s.st].q;
        if (mode == 0) {
            for (uint d = 1; d < s.ndof; ++d)
                q(0, d) = 0;
            q(0, 0) = t.r(-0.09, 1.5) * s.D;
        } else if (mode == 1) {
            for (uint d = 1; d < s.ndof; ++d)
                q(0, d) *= 0.2;
            q(0, 0) += t.r(0, 1.5) * s.D;
        } else if (mode == 2)
            q(0, 0) += t.r(0, 1.5) * s.D;
    });
    if (t.chance(30))
        dry_some(t, s);
    int li = -1;
    for (uint k = 0; k < s.m.seg.size(); ++k)
        if (s.m.seg[k].kind == mg::LEVEE)
            li = k;
    if (li < 0)
        t.discard();
    auto& lv = s.m.seg[li];
    // facing edges: (front nodes) <-> (back nodes)
    std::map<std::pair<int, int>, std::array<int, 3>> where;  // edge nodes -> (position, side, -)
    for (int k = 0; k + 1 < (int)lv.n.size(); ++k) {
        where[{std::min(lv.n[k], lv.n[k + 1]), std::max(lv.n[k], lv.n[k + 1])}]             = {k, 0, 0};
        where[{std::min(lv.back[k], lv.back[k + 1]), std::max(lv.back[k], lv.back[k + 1])}] = {k, 1, 0};
    }
    RHS want;
    s.s->d.mesh.CallForEachElement([&](auto& e) { want[&e.data] = DynMatrix<double>(3, s.ndof); set_constant(want[&e.data], 0.0); });
    int seen = 0, over = 0, sub = 0, sup = 0;
    bool undecided = false;
    double big = 1;
    std::set<int> pos_seen;
    auto edge_key = [&](const void* k, int e) {
        int a = s.nodes[k][(e + 1) % 3], b = s.nodes[k][(e + 2) % 3];
        return std::make_pair(std::min(a, b), std::max(a, b));
    };
    each_interface(s, [&](auto& f) {
        const void *ki = &f.data_in, *ke = &f.data_ex;
        int bi = f.bound_id_in, be = f.bound_id_ex;
        auto w1 = where.find(edge_key(ki, bi)), w2 = where.find(edge_key(ke, be));
        if (w1 == where.end() || w2 == where.end())
            return;  // an ordinary interior edge
        PCHECK(w1->second[0] == w2->second[0] && w1->second[1] != w2->second[1], "levee joins edges that do not face each other");
        ++seen;
        int pos = w1->second[0];
        pos_seen.insert(pos);
        bool wi = s.wet[ki], we = s.wet[ke];
        if (!wi && !we)
            return;
        // level, state and data at relative position lam from node pos to node pos+1 of the section
        auto side = [&](const void* k, int e, int w, double lam) {
            auto& nd = w == 0 ? lv.n : lv.back;
            int a    = s.nodes[k][(e + 1) % 3];
            auto& g  = s.geo[k];
            double l = nd[pos] == a ? lam : 1 - lam;
            return g.edge_pt(e, 2 * l - 1);
        };
        auto lam_of = [&](const void* k, int e, int w, const P2& x) {
            auto& nd = w == 0 ? lv.n : lv.back;
            int a    = s.nodes[k][(e + 1) % 3];
            double l = (s.geo[k].edge_s(e, x[0], x[1]) + 1) / 2;
            return nd[pos] == a ? l : 1 - l;
        };
        auto one = [&](const void* k, int e, int w, auto& q, bool wet, const void* k2, int e2, int w2, auto& q2, const std::vector<P2>& pts) {
            DynMatrix<double> F(3, pts.size());
            auto &g = s.geo[k], &g2 = s.geo[k2];
            P2 n = g.normal(e);
            for (uint c = 0; c < pts.size(); ++c) {
                double lam = lam_of(k, e, w, pts[c]);
                P2 y       = side(k2, e2, w2, lam);
                V3 a = ref::value(s.c.p, g, q, pts[c][0], pts[c][1]), b = ref::value(s.c.p, g2, q2, y[0], y[1]);
                double H = (1 - lam) * lv.H[pos] + lam * lv.H[pos + 1], Cb = (1 - lam) * lv.Csub[pos] + lam * lv.Csub[pos + 1],
                       Cp = (1 - lam) * lv.Csup[pos] + lam * lv.Csup[pos + 1];
                double ha = a[0] - H, hb = b[0] - H, z = g.zat(pts[c][0], pts[c][1]);
                double gap = 1e-11 * s.D * 5, tol = 0.01;
                if (std::abs(ha - tol) < gap || std::abs(hb - tol) < gap || std::abs(std::abs(ha - hb) - tol) < gap)
                    undecided = true;
                V3 x = a;
                double gr = s.g;
                if ((ha <= tol && hb <= tol) || std::abs(ha - hb) <= tol)
                    x = ref::mirror(a, n);
                else {
                    double hi = std::max(ha, hb), lo = std::min(ha, hb), qn;
                    if (std::abs(lo - 2 * hi / 3) < gap)
                        undecided = true;
                    ++over;
                    if (lo > 2 * hi / 3) {
                        qn = Cb * lo * std::sqrt(2 * s.g * (hi - lo));
                        ++sub;
                    } else {
                        qn = Cp * (2 * hi / 3) * std::sqrt(s.g * 2 * hi / 3);
                        ++sup;
                    }
                    // on the giving side the discharge leaves along its normal, on the other it enters along the giver's
                    P2 dn = ha > hb ? n : g2.normal(e2);
                    x     = V3{{a[0], qn * dn[0], qn * dn[1]}};
                    if (hb > ha && !wet)
                        gr = 0;
                }
                V3 r = ref::llf(gr, a, x, z, n);
                for (int v = 0; v < 3; ++v) {
                    F(v, c) = r[v];
                    big     = std::max(big, std::abs(r[v]) / s.S(v));
                }
            }
            return F;
        };
        int wi_side = w1->second[1], we_side = w2->second[1];
        DynMatrix<double> Fi = one(ki, bi, wi_side, f.data_in.state[s.st].q, wi, ke, be, we_side, f.data_ex.state[s.st].q, ref::Capture::in(f));
        DynMatrix<double> Fe = one(ke, be, we_side, f.data_ex.state[s.st].q, we, ki, bi, wi_side, f.data_in.state[s.st].q, ref::Capture::ex(f));
        DynMatrix<double> A = f.IntegrationPhiIN(Fi), B = f.IntegrationPhiEX(Fe);
        add(want, ki, -A);
        add(want, ke, -B);
    });
    PCHECK(pos_seen.size() + 1 == lv.n.size() && seen + 1 == (int)lv.n.size(), seen << " levee edges instead of " << lv.n.size() - 1);
    if (undecided)
        t.discard();
    each_interface(s, [&](auto& f) {
        auto w1 = where.find(edge_key(&f.data_in, f.bound_id_in)), w2 = where.find(edge_key(&f.data_ex, f.bound_id_ex));
        if (w1 != where.end() && w2 != where.end())
            Prob::interface_kernel(s.s->stepper, f);
    });
    auto got = grab(s, true);
    compare(s, got, want, s.L * 20 * big, 1e-9, "levee contribution");
    if (sub)
        t.label("subcritical");
    if (sup)
        t.label("supercritical");
    if (!over)
        t.label("wall");
    if (over)
        t.nontrivial();
}
#endif

// ---- wetting and drying ---------------------------------------------------------------------------------
#if SEL(14)
LAW(P14, wetting_drying_kernel, "at least one vertex is dry", 24000, 960000) {
    SceneOpt o;
    o.wetdry = 1;
    o.zlo    = -2;
    o.nmax   = 3;
    auto s   = scene(t, o);
    double ho = SWE::PostProcessing::h_o, thr = SWE::PostProcessing::h_o_threshold;
    auto vphi = phi_at(1, {{{-1, -1}}, {{1, -1}}, {{-1, 1}}});  // first three modes at the vertices
    bool nt = false, skip = false;
    s.s->d.mesh.CallForEachElement([&](auto& e) {
        auto& g  = s.geo[&e.data];
        auto& q  = e.data.state[s.st].q;
        int kind = t.i(0, 4);
        double amp = kind == 0 ? 5 * ho : kind == 1 ? ho : kind == 2 ? 0.3 * ho : s.D;
        // vertex depths, then the linear state, then random higher modes
        double h[3], qv[2][3], c[3];
        for (int v = 0; v < 3; ++v) {
            h[v] = kind == 4 ? t.s(2 * ho) : t.r(t.chance(30) ? -amp : 0, amp);
            if (t.chance(10))
                h[v] = ho * t.r(0.5, 1.5);
            for (int d = 0; d < 2; ++d)
                qv[d][v] = t.s(s.D * s.cs * 0.1);
        }
        bool wet0 = t.chance(60);
        e.data.wet_dry_state.wet = wet0;
        // solve modes from vertex values: phi(3 x 3)^T c = values
        auto set = [&](int var, const double* val) {
            double M[3][4];
            for (int r = 0; r < 3; ++r) {
                for (int k = 0; k < 3; ++k)
                    M[r][k] = vphi(k, r);
                M[r][3] = val[r];
            }
            for (int p = 0; p < 3; ++p) {
                int b = p;
                for (int r = p; r < 3; ++r)
                    if (std::abs(M[r][p]) > std::abs(M[b][p]))
                        b = r;
                std::swap_ranges(M[p], M[p] + 4, M[b]);
                for (int r = 0; r < 3; ++r)
                    if (r != p) {
                        double w = M[r][p] / M[p][p];
                        for (int k = p; k < 4; ++k)
                            M[r][k] -= w * M[p][k];
                    }
            }
            for (int k = 0; k < 3; ++k)
                c[k] = M[k][3] / M[k][k];
            for (uint k = 0; k < s.ndof; ++k)
                q(var, k) = k < 3 ? c[k] : t.s(0.05 * amp * (var ? s.cs : 1));
        };
        double zev[3];
        for (int v = 0; v < 3; ++v)
            zev[v] = h[v] - g.z[v];
        set(0, zev);
        set(1, qv[0]);
        set(2, qv[1]);
        DynMatrix<double> q0 = q;
        for (uint k = 0; k < s.ndof; ++k)
            for (int v = 0; v < 3; ++v)
                e.data.state[s.st].rhs(v, k) = 0.5;
        // the state's own vertex values (rounding of the solve)
        auto vert = [&](const DynMatrix<double>& m, int var, int v) {
            double x = 0;
            for (int k = 0; k < 3; ++k)
                x += m(var, k) * vphi(k, v);
            return x;
        };
        double hv[3];
        for (int v = 0; v < 3; ++v)
            hv[v] = vert(q0, 0, v) + g.z[v];
        // undecidable within rounding?
        double eps = 1e-11 * s.D * 3;
        int ndry = 0;
        double avg = (hv[0] + hv[1] + hv[2]) / 3;
        bool close = std::abs(avg - thr) < eps || std::abs(avg - ho - thr) < eps;
        for (int v = 0; v < 3; ++v) {
            close |= std::abs(hv[v] - ho - thr) < eps;
            ndry += hv[v] <= ho + thr;
        }
        // reference
        bool untouched = ndry == 0 && wet0, wet = wet0;
        double H[3], Q[2][3];
        for (int v = 0; v < 3; ++v) {
            H[v] = hv[v];
            for (int d = 0; d < 2; ++d)
                Q[d][v] = vert(q0, 1 + d, v);
        }
        double a2      = avg <= thr ? thr : avg;
        bool linearise = false;
        auto flat      = [&] {
            for (int v = 0; v < 3; ++v)
                H[v] = a2, Q[0][v] = Q[1][v] = 0;
            linearise = true;
        };
        if (ndry == 3) {
            flat();
            wet = false;
        } else if (!untouched) {
            if (ndry > 0) {
                linearise = true;
                double hc[3];
                if (a2 <= ho + thr) {
                    flat();
                    for (int v = 0; v < 3; ++v)
                        hc[v] = hv[v];  // the wet test below looks at the vertex that was deepest
                } else {
                    int ord[3] = {0, 1, 2};
                    std::stable_sort(ord, ord + 3, [&](int x, int y) { return hv[x] < hv[y]; });
                    for (int x = 0; x < 2; ++x)
                        if (std::abs(hv[ord[x]] - hv[ord[x + 1]]) < eps)
                            close = true;
                    double lo = ho, mid = std::max(ho, hv[ord[1]] - (lo - hv[ord[0]]) / 2);
                    double hi = hv[ord[0]] + hv[ord[1]] + hv[ord[2]] - lo - mid;
                    if (std::abs(hv[ord[1]] - (lo - hv[ord[0]]) / 2 - ho - thr) < eps || std::abs(hi - ho - thr) < eps)
                        close = true;
                    H[ord[0]] = lo, H[ord[1]] = mid, H[ord[2]] = hi;
                    int nd = 0;
                    double dq[2] = {0, 0};
                    for (int v = 0; v < 3; ++v)
                        if (H[v] <= ho + thr) {
                            ++nd;
                            for (int d = 0; d < 2; ++d)
                                dq[d] += Q[d][v], Q[d][v] = 0;
                        }
                    for (int v = 0; v < 3; ++v)
                        if (H[v] > ho + thr)
                            for (int d = 0; d < 2; ++d)
                                Q[d][v] += dq[d] / (3 - nd);
                    for (int v = 0; v < 3; ++v)
                        hc[v] = H[v];
                }
                int im = 0;
                for (int v = 1; v < 3; ++v)
                    if (hc[v] > hc[im])
                        im = v;
                for (int v = 0; v < 3; ++v)
                    if (v != im && std::abs(hc[v] - hc[im]) < eps && g.z[v] != g.z[im])
                        close = true;
                double ze = H[im] - g.z[im], lim = ho - *std::min_element(g.z, g.z + 3);
                if (std::abs(ze - lim) < eps)
                    close = true;
                wet = ze > lim;
            } else {
                int im = 0;
                for (int v = 1; v < 3; ++v)
                    if (hv[v] > hv[im])
                        im = v;
                for (int v = 0; v < 3; ++v)
                    if (v != im && std::abs(hv[v] - hv[im]) < eps && g.z[v] != g.z[im])
                        close = true;
                double ze = hv[im] - g.z[im], lim = ho - *std::min_element(g.z, g.z + 3);
                if (std::abs(ze - lim) < eps)
                    close = true;
                wet = ze > lim;
            }
            if (!wet) {
                linearise = true;
                for (int v = 0; v < 3; ++v)
                    Q[0][v] = Q[1][v] = 0;
            }
        }
        SWE::wetting_drying_kernel(s.s->stepper, e);
        if (close) {
            skip = true;
            return;
        }
        nt |= ndry > 0;
        t.label(untouched ? "untouched" : ndry == 3 ? "dry" : ndry == 0 ? "rewetted?" : wet ? "partly dry, wet" : "partly dry, dry");
        PCHECK(e.data.wet_dry_state.wet == wet, "element " << e.GetID() << " is " << (wet ? "dry" : "wet") << " but should not be; depths " << hv[0] << " " << hv[1]
                                                           << " " << hv[2] << ", h_o " << ho << ", bed " << g.z[0] << " " << g.z[1] << " " << g.z[2] << ", was wet: " << wet0);
        auto& q1 = e.data.state[s.st].q;
        if (!linearise) {
            for (uint k = 0; k < s.ndof; ++k)
                for (int v = 0; v < 3; ++v)
                    PCHECK(q1(v, k) == q0(v, k), "state of a sufficiently deep element changed");
        } else {
            DynMatrix<double> qq = q1;
            double m0 = 0, m1 = 0;
            for (int v = 0; v < 3; ++v) {
                double hn = vert(qq, 0, v) + g.z[v];
                m0 += hv[v] / 3;
                m1 += hn / 3;
                PNEAR(hn / s.D, H[v] / s.D, 1e-11, "depth at vertex " << v);
                for (int d = 0; d < 2; ++d)
                    PNEAR(vert(qq, 1 + d, v) / (s.D * s.cs), Q[d][v] / (s.D * s.cs), 1e-11, "discharge " << d << " at vertex " << v);
                PCHECK(hn >= -1e-12 * s.D * 3, "negative depth left at a vertex");
            }
            if (avg > thr)
                PNEAR(m1 / s.D, m0 / s.D, 1e-11, "mean depth changed");
            for (uint k = 3; k < s.ndof; ++k)
                for (int v = 0; v < 3; ++v)
                    PNEAR(qq(v, k) / (v ? s.D * s.cs : s.D), 0.0, 1e-12, "state of a corrected element is not linear");
            if (!wet)
                for (uint k = 0; k < s.ndof; ++k)
                    for (int v = 1; v < 3; ++v)
                        PNEAR(qq(v, k) / (s.D * s.cs), 0.0, 1e-14, "a dry element carries a discharge");
        }
    });
    (void)skip;
    if (nt)
        t.nontrivial();
}
#endif

// ---- slope limiting -------------------------------------------------------------------------------------
#if SEL(15)
LAW(P15, limiter_reference, "at least one element is limited", 10000, 400000) {
    SceneOpt o;
    o.limiter = 1;
    o.nmin    = 1;
    o.nmax    = 4;
    o.kinds   = {mg::LAND, mg::TIDE};
    auto s    = scene(t, o, [&](Scene& s) {
        for (auto& g : s.m.seg)
            if (g.kind == mg::TIDE)
                mg::gen_forcing(t, g, 0.1 * s.D, 1.0);
    });
    double M = SWE::PostProcessing::M, nu = SWE::PostProcessing::nu;
    int kind = t.i(0, 3);
    fill(t, s, 0.8, kind == 1);
    if (kind >= 2) {  // nearly smooth: a linear field plus some noise
        double ax = t.s(0.3) / s.L, ay = t.s(0.3) / s.L, amp = kind == 2 ? t.lg(1e-3, 0.3) : 0.0;
        double f[3][3];
        for (int v = 0; v < 3; ++v)
            f[v][0] = v ? t.s(0.2) : 2.5, f[v][1] = ax * t.s(1), f[v][2] = ay * t.s(1);
        double cx = s.m.x[0][0], cy = s.m.x[0][1];
        s.s->d.mesh.CallForEachElement([&](auto& e) {
            set_state(e, s.c.p, [&](double X, double Y) {
                std::array<double, 3> u;
                for (int v = 0; v < 3; ++v)
                    u[v] = (f[v][0] + f[v][1] * (X - cx) + f[v][2] * (Y - cy)) * s.D * (v ? s.cs : 1);
                return u;
            }, s.st);
            for (int v = 0; v < 3; ++v)
                for (uint d = 0; d < s.ndof; ++d)
                    e.data.state[s.st].q(v, d) += t.s(amp) * 0.3 * s.D * (v ? s.cs : 1);
        });
    }
    s.s->d.mesh.CallForEachElement([&](auto& e) { e.data.wet_dry_state.wet = true; });
    if (t.chance(25))
        dry_some(t, s);
    auto vphi = phi_at(1, {{{-1, -1}}, {{1, -1}}, {{-1, 1}}});
    // means, vertex values, neighbours
    std::map<const void*, DynMatrix<double>> q0, vv;
    std::map<const void*, V3> mean;
    std::map<const void*, std::array<const void*, 3>> nb;
    s.s->d.mesh.CallForEachElement([&](auto& e) {
        const void* k = &e.data;
        q0[k] = e.data.state[s.st].q;
        DynMatrix<double> V(3, 3);
        for (int a = 0; a < 3; ++a) {
            mean[k][a] = 0;
            for (int v = 0; v < 3; ++v) {
                V(a, v) = 0;
                for (int d = 0; d < 3; ++d)
                    V(a, v) += q0[k](a, d) * vphi(d, v);
                mean[k][a] += V(a, v) / 3;
            }
        }
        vv[k] = V;
        nb[k] = {nullptr, nullptr, nullptr};
    });
    // neighbours from the generator's mesh (shared node pairs), not from the library's links
    {
        std::map<std::pair<int, int>, std::vector<std::pair<const void*, int>>> ed;
        for (auto& kv : s.nodes)
            for (int e = 0; e < 3; ++e) {
                int a = kv.second[(e + 1) % 3], b = kv.second[(e + 2) % 3];
                ed[{std::min(a, b), std::max(a, b)}].push_back({kv.first, e});
            }
        for (auto& kv : ed)
            if (kv.second.size() == 2) {
                nb[kv.second[0].first][kv.second[0].second] = kv.second[1].first;
                nb[kv.second[1].first][kv.second[1].second] = kv.second[0].first;
            }
    }
    SWE::CS_slope_limiter_serial(s.s->stepper, s.s->d);
    int limited = 0;
    s.s->d.mesh.CallForEachElement([&](auto& e) {
        const void* k = &e.data;
        auto& g       = s.geo[k];
        auto& q1      = e.data.state[s.st].q;
        bool active   = s.wet[k];
        for (int b = 0; b < 3; ++b)
            if (nb[k][b] && !s.wet[nb[k][b]])
                active = false;
        double sc[3] = {s.D, s.D * s.cs, s.D * s.cs};
        if (!active) {
            for (uint d = 0; d < s.ndof; ++d)
                for (int v = 0; v < 3; ++v)
                    PCHECK(q1(v, d) == q0[k](v, d), "an element at the dry-wet front (or dry) was limited");
            return;
        }
        double bx = (g.x[0] + g.x[1] + g.x[2]) / 3, by = (g.y[0] + g.y[1] + g.y[2]) / 3, bz = (g.z[0] + g.z[1] + g.z[2]) / 3;
        V3 m0    = mean[k];
        double h = m0[0] + bz, u = m0[1] / h, w = m0[2] / h, c = std::sqrt(s.g * h);
        if (!(h > 0))
            return;
        double del[3][3];  // variable, edge
        bool tie = false;
        for (int b = 0; b < 3; ++b) {
            double mx = (g.x[(b + 1) % 3] + g.x[(b + 2) % 3]) / 2 - bx, my = (g.y[(b + 1) % 3] + g.y[(b + 2) % 3]) / 2 - by;
            double r2 = mx * mx + my * my, rr = std::sqrt(r2), nx = mx / rr, ny = my / rr;
            double B[2][2];
            V3 dm[2];
            for (int j = 0; j < 2; ++j) {
                int ee        = (b + j) % 3;
                const void* o = nb[k][ee];
                if (o) {
                    auto& go = s.geo[o];
                    B[0][j]  = (go.x[0] + go.x[1] + go.x[2]) / 3 - bx;
                    B[1][j]  = (go.y[0] + go.y[1] + go.y[2]) / 3 - by;
                    for (int v = 0; v < 3; ++v)
                        dm[j][v] = mean[o][v] - m0[v];
                } else {
                    B[0][j] = 2 * ((g.x[(ee + 1) % 3] + g.x[(ee + 2) % 3]) / 2 - bx);
                    B[1][j] = 2 * ((g.y[(ee + 1) % 3] + g.y[(ee + 2) % 3]) / 2 - by);
                    dm[j]   = V3{{0, 0, 0}};
                }
            }
            double det = B[0][0] * B[1][1] - B[0][1] * B[1][0];
            if (std::abs(det) < 1e-8 * r2)
                tie = true;
            double a0 = (mx * B[1][1] - my * B[0][1]) / det, a1 = (my * B[0][0] - mx * B[1][0]) / det;
            // left eigenvectors of the normal Jacobian in the direction of the median
            auto charac = [&](const V3& d) {
                double un = u * nx + w * ny, dn = d[1] * nx + d[2] * ny, dt = -d[1] * ny + d[2] * nx, ut = -u * ny + w * nx;
                V3 r;
                r[0] = ((c + un) * d[0] - dn) / (2 * c);
                r[1] = dt - ut * d[0];
                r[2] = ((c - un) * d[0] + dn) / (2 * c);
                return r;
            };
            V3 dev, slope;
            for (int v = 0; v < 3; ++v) {
                dev[v]   = (vv[k](v, (b + 1) % 3) + vv[k](v, (b + 2) % 3)) / 2 - m0[v];
                slope[v] = a0 * dm[0][v] + a1 * dm[1][v];
            }
            V3 wt = charac(dev), wd = charac(slope), r;
            for (int v = 0; v < 3; ++v) {
                double cs = v == 1 ? s.D * s.cs : s.D, tiny = 1e-10 * cs;
                if (std::abs(std::abs(wt[v]) - M * r2) < tiny)
                    tie |= std::abs(wt[v]) > tiny * 10 || std::abs(wd[v]) > tiny;
                if (std::abs(wt[v]) <= M * r2)
                    r[v] = wt[v];
                else if ((wt[v] > 0) == (wd[v] > 0))
                    r[v] = std::copysign(std::min(std::abs(wt[v]), std::abs(nu * wd[v])), wt[v]);
                else
                    r[v] = 0;
            }
            del[0][b] = r[0] + r[2];
            del[1][b] = r[0] * (u - c * nx) - r[1] * ny + r[2] * (u + c * nx);
            del[2][b] = r[0] * (w - c * ny) + r[1] * nx + r[2] * (w + c * ny);
        }
        if (tie) {
            t.label("tie");
            return;
        }
        bool changed = false;
        for (int v = 0; v < 3; ++v) {
            double P = 0, N = 0;
            for (int b = 0; b < 3; ++b)
                P += std::max(0.0, del[v][b]), N += std::max(0.0, -del[v][b]);
            double tp = P > 0 ? std::min(1.0, N / P) : 1, tn = N > 0 ? std::min(1.0, P / N) : 1;
            double d[3];
            for (int b = 0; b < 3; ++b)
                d[b] = del[v][b] > 0 ? tp * del[v][b] : tn * del[v][b];
            double nv[3], dn = 0, qn = 0;
            for (int x = 0; x < 3; ++x) {
                nv[x] = m0[v] + d[0] + d[1] + d[2] - 2 * d[x];
                dn += std::pow(nv[x] - vv[k](v, x), 2);
                qn += std::pow(vv[k](v, x), 2);
            }

            // decided by rounding: either outcome is right
            bool unsure = !(std::sqrt(dn) > 1e-10 * std::sqrt(qn) + 1e-11 * sc[v]);
            if (unsure) {
                bool same = true, lin = true;
                for (uint dd = 0; dd < s.ndof; ++dd) {
                    same &= std::abs(q1(v, dd) - q0[k](v, dd)) <= 1e-10 * sc[v];
                    lin &= std::abs(q1(v, dd) - (dd < 3 ? q0[k](v, dd) : 0.0)) <= 1e-9 * sc[v];
                }
                PCHECK(same || lin, "variable " << v << " needs no limiting but changed in element " << e.GetID());
                PNEAR((q1(v, 0) - q0[k](v, 0)) / sc[v], 0.0, 1e-11, "mean of variable " << v << " changed by the limiter");
                continue;
            }
            // mean is preserved and the result matches in any case
            PNEAR((q1(v, 0) - q0[k](v, 0)) / sc[v], 0.0, 1e-11, "mean of variable " << v << " changed by the limiter");
            {
                changed = true;
                for (int x = 0; x < 3; ++x) {
                    double got = 0;
                    for (int dd = 0; dd < 3; ++dd)
                        got += q1(v, dd) * vphi(dd, x);
                    PNEAR(got / sc[v], nv[x] / sc[v], 1e-9, "limited vertex value of variable " << v << ", vertex " << x << ", element " << e.GetID());
                }
                for (uint dd = 3; dd < s.ndof; ++dd)
                    PNEAR(q1(v, dd) / sc[v], 0.0, 1e-12, "a limited variable keeps higher modes");
            }
        }
        limited += changed;
    });
    if (kind == 3 && t.labels.count("tie") == 0)
        t.label("linear field");
    if (limited)
        t.nontrivial();
}
#endif
