// Whole-scheme laws over generated meshes, bathymetries, states and options.
// PROB (problem class), PROBNAME (yaml name), PROBTAG (law suffix), KIND (0 RKDG, 1 EHDG, 2 IHDG, 3 GN) are set by the including file.
#include "scenario.hpp"

// ---------------------------------------------------------------------------------------------------------
#if SEL(12) || (KIND == 3 && SEL(25))
LAWX(P12, closed_basin, PROBTAG, "moving water on a mesh of at least two elements", KIND == 3 ? 5000 : KIND == 2 ? 2400 : 10000, KIND >= 2 ? 40000 : 160000) {
    reset_globals();
    ScnOpt o;
    if (KIND >= 2)
        o.nmax = 3, o.steps = 3, o.p_max = 2;
    if (KIND == 3)  // short waves over a rough bed are beyond the model: the higher derivatives of the bed grow without bound
        o.zlo = t.r(0.6, 1), o.Llo = 8;
    auto s = scenario(t, o);
    auto w = wave(t, s, KIND == 3 ? 0.1 : 0.15, KIND == 3 ? 0.1 : 0.3);
    use_ic(w);
    bool lim = false;
    s.c.blocks += friction(t, s);
    // IHDG of second order is excluded: known finding, see ihdg_limited_order2
    if ((KIND == 0 || (KIND == 2 && s.c.order == 1)) && t.chance(30)) {
        lim = true;
        t.label("limiter");
        s.c.blocks += "  slope_limiting:\n    type: Cockburn-Shu\n    M: " + rd(t.lg(1e-8, 1)) + "\n    nu: " + rd(t.r(1, 2)) + "\n";
    }
    PNOTE(s.c.blocks);
    auto S = make<Prob>(s.m, s.c);
    S->prep();
    long double V0 = totals(*S, s.m)[0];
    double A = s.m.area(), grown = 1;
    for (int k = 0; k < s.steps; ++k) {
        S->step();
        long double V = totals(*S, s.m)[0];
        // IHDG: Newton stops at an absolute residual of 1e-8 per row; the tested accuracy is that of the step, not of rounding
        double tol = KIND == 2 ? A * (1e-5 + 1e-10 * s.D) : 1e-12 * A * s.D;
        if (KIND == 3) {  // the dispersive correction may build up strong currents over a rough bed
            auto mx = maxabs(*S);
            grown   = std::max(grown, 1 + (mx[0] + (mx[1] + mx[2]) / s.cs) / s.D);
            tol *= grown;
            if (grown > 1e3) {
                t.label("left-regime");
                break;
            }
        }
        PNEAR((double)(V - V0), 0.0, tol, "volume change after step " << k + 1);
    }
    if (s.m.tri.size() > 1 && (w.A[0] != 0 || w.A[1] != 0 || w.A[2] != 0))
        t.nontrivial();
    (void)lim;
    (void)grown;
}
#endif

#if KIND == 2
// replayed for the listed finding only
#if SEL(12)
LAWX(K12, limited_order2, PROBTAG, "-", 1, 1) {
    reset_globals();
    ScnOpt o;
    o.nmax = 3, o.steps = 3, o.p_max = 2;
    auto s = scenario(t, o);
    s.c.order = 2;
    auto w = wave(t, s, 0.15, 0.3);
    w.A[2] = 0.2 * s.low * std::sqrt(s.c.g * s.low);
    use_ic(w);
    s.c.blocks += "  slope_limiting:\n    type: Cockburn-Shu\n    M: 1e-8\n    nu: 1\n";
    auto S = make<Prob>(s.m, s.c);
    S->prep();
    long double V0 = totals(*S, s.m)[0];
    double A = s.m.area();
    for (int k = 0; k < 3; ++k) {
        S->step();
        PNEAR((double)(totals(*S, s.m)[0] - V0), 0.0, A * (1e-7 + 1e-10 * s.D), "volume change after step " << k + 1);
    }
}
#endif
#endif

#if KIND < 2
#if SEL(12)
LAWX(P12, closed_basin_wetdry, PROBTAG, "a run in which at least one element is dry at some time and at least one wet", 8000, 150000) {
    reset_globals();
    ScnOpt o;
    o.zlo = -t.r(0.05, 1.0);
    o.cfl_hi = 0.15;
    o.steps = 8;
    o.p_max = 1;
    auto s = scenario(t, o);
    auto w = wave(t, s, 0.3, 0.2);
    use_ic(w);
    double ho = s.D * t.lg(1e-4, 3e-2);
    s.c.blocks += "  wetting_drying:\n    h_o: " + rd(ho) + "\n";
    // explicit friction is only stable while dt Cf |u| / h stays small, in the thinnest film too
    if (t.chance(40)) {
        s.c.blocks += "  bottom_friction:\n    type: Chezy\n    coefficient: " + rd(t.r(0, 0.2) * ho / (s.c.dt * s.cs)) + "\n";
        t.label("chezy");
    }
    // no limiter here: it runs after the wetting and drying step and may take a vertex of a wet element below the bed
    // again (see DESIGN.md)
    PNOTE(s.c.blocks);
    auto S = make<Prob>(s.m, s.c);
    S->prep();
    long double V = totals(*S, s.m)[0];
    double A = s.m.area();
    bool dry = false, wet = false;
    auto& d = S->d;
    for (int k = 0; k < s.steps; ++k) {
        bool refilled = false;
        for (uint st = 0; st < s.c.nstages; ++st) {
            Prob::stage_serial(d, S->gd, S->stepper);
            uint cur = S->stepper.GetStage();
            d.mesh.CallForEachElement([&](auto& elt) {
                DynMatrix<double> lin = elt.ProjectBasisToLinear(elt.data.state[cur].q);
                double m = 0, vel = 0, hm = 1e300;
                for (int v = 0; v < 3; ++v) {
                    double hv = lin(0, v) + elt.data.wet_dry_state.bath_at_vrtx[v];
                    m += hv / 3;
                    hm = std::min(hm, hv);
                    vel = std::max(vel, std::hypot(lin(1, v), lin(2, v)));
                }
                if (std::abs(m) < 1e-9 * s.D)
                    refilled = true;
                (elt.data.wet_dry_state.wet ? wet : dry) = true;
                PCHECK(m >= -1e-11 * s.D, "mean depth " << m << " negative after a stage, element " << elt.GetID());
                PCHECK(std::isfinite(m) && std::isfinite(vel), "non-finite state");
            });
        }
        long double V1 = totals(*S, s.m)[0];
        PCHECK(V1 - V >= -1e-12L * A * s.D, "water lost in step " << k + 1 << ": " << (double)(V1 - V) << " of " << A * s.D);
        if (!refilled)
            PNEAR((double)(V1 - V), 0.0, 1e-12 * A * s.D, "volume change in step " << k + 1);
        else
            t.label("refilled");
        V = V1;
    }
    if (dry && wet)
        t.nontrivial();
}
#endif
#endif

// ---------------------------------------------------------------------------------------------------------
#if SEL(13) || (KIND == 3 && SEL(25))
LAWX(P13, lake_at_rest, PROBTAG, "non-constant bathymetry or at least two elements, elevation not zero", KIND == 3 ? 5000 : KIND == 2 ? 2400 : 12000, KIND >= 2 ? 40000 : 200000) {
    reset_globals();
    ScnOpt o;
    o.kinds = {mg::LAND, mg::TIDE};
    if (KIND != 2)
        o.kinds.push_back(mg::FLOW), o.kinds.push_back(mg::FUNC);
    if (KIND == 0)
        o.levee = 30;
    if (KIND >= 2)
        o.nmax = 3, o.steps = 3, o.p_max = 2;
    auto s = scenario(t, o);
    double ze0 = t.chance(15) ? 0.0 : t.s(std::min(0.25 * s.D, 0.8 * s.low));
    double zetop = ze0;
    for (auto& g : s.m.seg) {
        if (g.kind == mg::TIDE) {
            mg::Con c;
            c.freq = t.chance(50) ? 0 : 0;
            c.ff = t.r(0.5, 2);
            c.eq = t.s(360);
            double ph = c.eq;  // cos(eq - phase) = 1
            for (size_t k = 0; k < g.n.size(); ++k) {
                c.amp.push_back(ze0 / c.ff);
                c.phase.push_back(ph);
            }
            g.con.push_back(c);
            t.label("tide");
        } else if (g.kind == mg::FLOW) {
            mg::gen_forcing(t, g, 0.0, 1e-3);
            t.label("flow0");
        } else if (g.kind == mg::LEVEE) {
            double crest = zetop + t.s(0.2 * s.D);
            for (size_t k = 0; k < g.n.size(); ++k) {
                g.H[k] = crest + t.s(0.1 * s.D);
                g.Csub[k] = t.r(0.1, 1);
                g.Csup[k] = t.r(0.1, 1);
            }
        } else if (g.kind == mg::FUNC)
            t.label("function");
    }
    hook::ic_q() = [ze0](double, const Point<2>&) { return StatVector<double, 3>{ze0, 0.0, 0.0}; };
    s.c.blocks += friction(t, s);
    bool tidal = false;
    for (auto& g : s.m.seg)
        tidal |= g.kind == mg::TIDE;
    if (t.chance(30) && KIND != 2) {
        s.c.blocks += "  wetting_drying:\n    h_o: " + rd(s.D * t.lg(1e-4, 1e-2)) + "\n";
        t.label("wetdry");
    }
    if (t.chance(30) && (KIND == 0 || KIND == 2)) {
        t.label("limiter");
        s.c.blocks += "  slope_limiting:\n    type: Cockburn-Shu\n    M: " + rd(t.lg(1e-8, 1)) + "\n    nu: " + rd(t.r(1, 2)) + "\n";
    }
    if (t.chance(30)) {
        s.c.ic = "Constant";
        s.c.ze0 = ze0;
    }
    PNOTE(s.c.blocks);
    auto S = make<Prob>(s.m, s.c);
    S->prep();
    double a = std::abs(ze0) + 1e-3 * s.D;
    double shape = s.L / s.h;
    for (int k = 0; k < s.steps; ++k) {
        S->step();
        auto phi = phi_at(s.c.p, lattice(s.c.p + 1).z);
        double eze = 0, eq = 0;
        S->d.mesh.CallForEachElement([&](auto& elt) {
            DynMatrix<double> u = elt.data.state[0].q * phi;
            for (int c = 0; c < u.cols(); ++c) {
                double e0 = std::abs(u(0, c) - ze0), e1 = std::hypot(u(1, c), u(2, c));
                if (!(e0 <= eze)) eze = e0;
                if (!(e1 <= eq)) eq = e1;
            }
        });
        // IHDG with an open boundary: the trace equation is singular where the water is at rest and solved in the
        // least-squares sense, to rounding amplified by its conditioning
        double tol = KIND == 2 ? (tidal ? 1e-4 : 1e-9 * (10 + shape) * (k + 1)) : 1e-12 * (10 + shape) * (k + 1);
        PNEAR(eze / a, 0.0, tol, "elevation disturbed after step " << k + 1);
        PNEAR(eq / (a * s.cs), 0.0, tol, "flow created after step " << k + 1);
    }
    if (ze0 != 0)
        t.nontrivial();
}
#endif

// ---------------------------------------------------------------------------------------------------------
// The same physical case described twice.
#if SEL(19)
LAWX(P19, relabel_and_move, PROBTAG, "moving water on at least two elements", KIND == 3 ? 4000 : KIND == 2 ? 2000 : 8000, KIND >= 2 ? 30000 : 120000) {
    reset_globals();
    ScnOpt o;
    // the characteristic trace equation of the hybridised schemes is indeterminate where the flow along the normal
    // vanishes: their open boundaries are crossed by a mean flow here
    if (KIND == 0)
        o.kinds = {mg::LAND, mg::TIDE, mg::FLOW}, o.levee = 30;
    else
        o.kinds = {mg::LAND, mg::TIDE, mg::FUNC};
    if (KIND >= 2)
        o.nmax = 3, o.steps = 2, o.p_max = 2;
    if (KIND == 3)
        o.zlo = t.r(0.6, 1), o.Llo = 8;
    o.aspect = 2;
    auto s = scenario(t, o);
    double U = 0, Ux = 0, Uy = 0;
    if (KIND != 0) {
        U         = t.r(0.1, 0.2) * s.low * std::sqrt(s.c.g * s.low);
        double an = t.r(0, 6.28);
        Ux = U * std::cos(an), Uy = U * std::sin(an);
        for (auto& g : s.m.seg)
            if (g.kind == mg::TIDE || g.kind == mg::FUNC)
                for (size_t k = 0; k + 1 < g.n.size(); ++k) {
                    double dx = s.m.x[g.n[k + 1]][0] - s.m.x[g.n[k]][0], dy = s.m.x[g.n[k + 1]][1] - s.m.x[g.n[k]][1];
                    if (std::abs(Ux * dy - Uy * dx) < 0.3 * U * std::hypot(dx, dy))
                        t.discard();
                }
    }
    auto w0  = KIND == 0 ? wave(t, s, 0.15, 0.3) : wave(t, s, 0.03, 0.02);
    bool lim = KIND == 0 && t.chance(30);
    if (lim) {
        // the limiter compares slopes and drops the higher order part where it changed something: keep away from ties
        for (int v = 0; v < 3; ++v)
            if (std::abs(w0.A[v]) < 0.02 * s.low * (v ? std::sqrt(s.c.g * s.low) : 1) || (w0.k[v][0] == 0 && w0.k[v][1] == 0))
                t.discard();
    }
    auto w = [=](double x, double y) {
        auto u = w0(x, y);
        u[1] += Ux;
        u[2] += Uy;
        return u;
    };
    for (auto& g : s.m.seg) {
        if (g.kind == mg::TIDE)
            mg::gen_forcing(t, g, KIND == 0 ? std::min(0.03 * s.D, 0.1 * s.low) : 0.01 * s.low, 0.5 / s.c.dt);
        else if (g.kind == mg::FLOW)
            mg::gen_forcing(t, g, 0.1 * s.low * std::sqrt(s.c.g * s.low), 0.5 / s.c.dt);
        else if (g.kind == mg::LEVEE)
            for (size_t k = 0; k < g.n.size(); ++k) {
                g.H[k] = t.s(0.1 * s.D);
                g.Csub[k] = t.r(0.1, 1);
                g.Csup[k] = t.r(0.1, 1);
            }
    }
    bool fric = false;
    std::string fr;
    if (t.chance(40)) {
        fr = "  bottom_friction:\n    type: Chezy\n    coefficient: " + rd(t.r(0, 0.05)) + "\n";
        fric = true;
    }
    s.c.blocks += fr;
    if (lim) {
        t.label("limiter");
        s.c.blocks += "  slope_limiting:\n    type: Cockburn-Shu\n    M: " + rd(t.lg(1e-8, 1e-2)) + "\n    nu: " + rd(t.r(1, 2)) + "\n";
    }
    // second description
    mg::Mesh m2 = s.m;
    mg::Opts ro;
    mg::renumber(t, m2, ro);
    if (t.chance(20)) {
        t.label("clockwise");
        for (uint k = 0; k < m2.tri.size(); ++k)
            if (t.b())
                m2.cw.insert(k);
    }
    auto p = t.perm(m2.seg.size());
    {
        auto sv = m2.seg;
        for (uint k = 0; k < p.size(); ++k)
            m2.seg[k] = sv[p[k]];
    }
    for (auto& g : m2.seg)
        if (t.b()) {  // describe the section from its other end
            std::reverse(g.n.begin(), g.n.end());
            std::reverse(g.back.begin(), g.back.end());
            std::reverse(g.H.begin(), g.H.end());
            std::reverse(g.Csub.begin(), g.Csub.end());
            std::reverse(g.Csup.begin(), g.Csup.end());
            for (auto& c : g.con) {
                std::reverse(c.amp.begin(), c.amp.end());
                std::reverse(c.phase.begin(), c.phase.end());
            }
            if (g.kind == mg::LEVEE && t.b())
                std::swap(g.n, g.back);
        }
    double th = 0, tx = 0, ty = 0;
    bool refl = false;
    // the limiter corrects the means of qx and qy separately and pairs neighbours counter-clockwise: by design it is
    // tied to the axes and to orientation, but not to numbering or position
    if (t.chance(60) && !lim) {
        th = t.r(0, 6.283185307179586);
        t.label("rotated");
    }
    if (t.chance(50)) {
        tx = t.s(2) * s.L;
        ty = t.s(2) * s.L;
    }
    if (t.chance(25) && !lim) {
        refl = true;
        t.label("reflected");
    }
    double c = std::cos(th), sn = std::sin(th);
    auto fwd = [&](double x, double y) {
        double yy = refl ? -y : y;
        return std::array<double, 2>{c * x - sn * yy, sn * x + c * yy};
    };
    auto inv = [=](double x, double y) {
        double X = c * x + sn * y, Y = -sn * x + c * y;
        return std::array<double, 2>{X, refl ? -Y : Y};
    };
    for (auto& q : m2.x) {
        auto r = fwd(q[0], q[1]);
        q[0] = r[0] + tx;
        q[1] = r[1] + ty;
    }
    if (refl)
        for (auto& e : m2.tri)
            std::swap(e[1], e[2]);
    Snapshot A, B;
    {
        use_ic(w);
        auto S = make<Prob>(s.m, s.c);
        S->prep();
        for (int k = 0; k < s.steps; ++k)
            S->step();
        A = snapshot(*S, s.m);
    }
    {
        hook::ic_q() = [=](double, const Point<2>& pt) {
            auto z = inv(pt[0] - tx, pt[1] - ty);
            auto u = w(z[0], z[1]);
            auto q = fwd(u[1], u[2]);
            return StatVector<double, 3>{u[0], q[0], q[1]};
        };
        auto S = make<Prob>(m2, s.c);
        S->prep();
        for (int k = 0; k < s.steps; ++k)
            S->step();
        B = snapshot(*S, m2);
    }
    double za = 0, qa = 0;
    for (auto& e : A)
        for (auto& q : e.second) {
            za = std::max(za, std::abs(q.second[0]));
            qa = std::max(qa, std::hypot(q.second[1], q.second[2]));
        }
    if (!(za < 0.6 * s.D)) {
        t.label("left-regime");
        return;
    }
    PCHECK(A.size() == B.size(), "different number of elements");
    double sz = s.D, sq = s.D * s.cs;
    double tol = KIND == 2 ? 1e-7 : lim ? 1e-7 : 1e-9;
    for (auto& e : A)
        for (auto& q : e.second) {
            auto& v = B.at(e.first).at(q.first);
            auto r = inv(v[1], v[2]);
            PNEAR(v[0] / sz, q.second[0] / sz, tol, "elevation in element " << e.first);
            PNEAR(r[0] / sq, q.second[1] / sq, tol, "qx in element " << e.first);
            PNEAR(r[1] / sq, q.second[2] / sq, tol, "qy in element " << e.first);
        }
    if (A.size() > 1 && qa > 0)
        t.nontrivial();
    (void)fric;
}
#endif

#if KIND < 3
// ---------------------------------------------------------------------------------------------------------
// wind, pressure, Coriolis parameter: the data an element holds are those of its nodes, at the time of the stage
#if SEL(29)
LAWX(P29, nodal_forcing, PROBTAG, "a stage between two records, or a Coriolis parameter", 8000, 400000) {
    reset_globals();
    ScnOpt o;
    o.nmax = 3, o.p_max = 2, o.holes = true;
    auto s = scenario(t, o);
    auto w = wave(t, s, 0.05, 0.1);
    use_ic(w);
    bool meteo = !t.chance(20), cor = t.chance(50), missing = false;
    int every = t.i(1, 4), steps = t.i(1, 9);
    double R = 6378200;
    if (t.chance(60)) {
        double ym = 1e-3;
        for (auto& q : s.m.x)
            ym = std::max(ym, std::abs(q[1]));
        R = ym / t.r(0.01, 1.2);
        s.c.blocks += "  spherical_projection:\n    longitude_o: " + rd(t.s(180)) + "\n    latitude_o: " + rd(t.s(80)) + "\n    R: " + rd(R) + "\n";
        t.label("own radius");
    }
    if (cor)
        s.c.blocks += "  coriolis: Enable\n";
    std::map<uint, std::vector<std::array<double, 3>>> rec;  // node -> records
    int nrec = steps / every + 2;
    if (meteo) {
        // the interval may be any duration; it is covered by the least number of steps
        double f = t.chance(60) ? every * s.c.dt : (every - t.r(0.05, 0.95)) * s.c.dt;
        std::string name = t.b() ? "met.dir.22" : "wind.inp";
        s.c.blocks += "  meteo_forcing:\n    type: Test\n    raw_input_file: raw.22\n    input_file: " + name + "\n    frequency: " + rd(f) + "\n";
        int gone = t.chance(10) ? t.i(0, nrec - 1) : -1;
        missing  = gone >= 0 && gone <= (steps - 1) / every + 1;
        for (int k = 0; k < nrec; ++k) {
            std::string fn = name;
            fn.insert(fn.rfind('.'), "_" + std::to_string(k * every));
            std::ofstream out;
            if (k != gone)
                out.open(fn);
            out << std::setprecision(17);
            for (uint j : t.perm(s.m.nid.size())) {
                std::array<double, 3> v{t.s(2), t.s(2), t.s(1e3)};
                rec[s.m.nid[j]].push_back(v);
                out << s.m.nid[j] << (k % 2 ? " " : "\t") << v[0] << " " << v[1] << "  " << v[2] << "\n";
                if (t.chance(5))
                    out << 4000000000u - 7 * j << " 1 2 3\n";  // a node of another mesh
            }
        }
        PNOTE("records every " << every << " steps (" << f << " s), " << steps << " steps" << (missing ? ", one missing" : ""));
        t.label(missing ? "missing record" : "records");
    }
    auto S = make<Prob>(s.m, s.c);
    S->prep();
    bool refused = false;
    bool solve   = t.chance(25);
    auto no      = s.m.node_of();
    auto check   = [&](double time, int step) {
        S->d.mesh.CallForEachElement([&](auto& e) {
            auto& id = e.GetNodeID();
            auto& sc = e.data.source;
            if (meteo)
                for (int k = 0; k < 3; ++k) {
                    auto& cc = e.GetShape().nodal_coordinates[k];
                    auto& mx = s.m.x[no.at(id[k])];
                    PCHECK(std::abs(cc[0] - mx[0]) + std::abs(cc[1] - mx[1]) <= 1e-12 * (s.L + std::abs(mx[0]) + std::abs(mx[1])), "corner " << k << " of element " << e.GetID() << " is not node " << id[k]);
                    PCHECK(rec.count(id[k]), "element " << e.GetID() << " names a node that is not in the mesh");
                    auto& r    = rec[id[k]];
                    int a      = step / every;
                    double f   = (time - a * every * s.c.dt) / (every * s.c.dt);
                    double got[3] = {sc.tau_s[k][0], sc.tau_s[k][1], sc.p_atm[k]};
                    for (int c = 0; c < 3; ++c)
                        PNEAR(got[c] / (c < 2 ? 2 : 1e3), (r[a][c] + f * (r[a + 1][c] - r[a][c])) / (c < 2 ? 2 : 1e3), 1e-9,
                              (c < 2 ? "wind stress " : "pressure ") << c << " of node " << id[k] << " at time " << time << " (step " << step << ")");
                }
        });
    };
    try {
        for (int n = 0; n < steps; ++n) {
            if (solve && n < 2) {
                double last = 0;
#if KIND < 2
                last = S->stepper.drk[S->stepper.GetNumStages() - 1];
#endif
                double tm = n * s.c.dt + last * s.c.dt;
                S->step();
                check(tm, n);
            } else
                for (uint k = 0; k < S->stepper.GetNumStages(); ++k) {
                    if (S->parser.ParsingInput())
                        S->parser.ParseInput(S->stepper, S->d.mesh);
                    check(S->stepper.GetTimeAtCurrentStage(), n);
                    if (n % every || k)
                        t.nontrivial();
                    ++S->stepper;
                }
        }
    } catch (const std::logic_error& e) {
        refused = true;
        PCHECK(missing, "refused though all records are there: " << e.what());
    }
    PCHECK(refused == missing, "a missing record was not noticed");
    S->d.mesh.CallForEachElement([&](auto& e) {
        auto& c  = e.GetShape().nodal_coordinates;
        double y = (c[0][1] + c[1][1] + c[2][1]) / 3;
        PNEAR(e.data.source.coriolis_f, cor ? 2 * 7.2921e-5 * std::sin(y / R) : 0.0, 1e-15 + 1e-12 * std::abs(y / R), "Coriolis parameter of element " << e.GetID());
        if (cor)
            t.nontrivial();
    });
}
#endif
#endif

// ---------------------------------------------------------------------------------------------------------
// what preprocessing leaves behind: the prescribed state, the bed of the mesh, dry elements where there is no water
#if SEL(30)
LAWX(P30, initial_state, PROBTAG, "a state or a bed that is not constant", 8000, 400000) {
    reset_globals();
    ScnOpt o;
    bool wd = KIND != 2 && t.chance(50);
    o.kinds = KIND == 3 ? std::vector<int>{mg::LAND} : std::vector<int>{mg::LAND, mg::FUNC};
    o.nmax = 4;
    if (wd)
        o.zlo = -t.r(0.05, 1.0);
    auto s   = scenario(t, o);
    int kind = t.i(0, 5);
    double a[3] = {0, 0, 0};
    // a polynomial of the order of the scheme, in coordinates relative to a corner of the domain
    int deg   = wd ? 1 : s.c.p;
    auto& org = s.m.x[0];
    std::vector<std::array<double, 3>> co;
    for (int i = 0; i < (deg + 1) * (deg + 2) / 2; ++i)
        co.push_back({t.s(0.3 * s.D), t.s(s.D * s.cs), t.s(s.D * s.cs)});
    auto want = [&](double x, double y) {
        std::array<double, 3> u{a[0], a[1], a[2]};
        if (kind < 2)
            return u;
        double X = (x - org[0]) / s.L, Y = (y - org[1]) / s.L;
        int k    = 0;
        u        = {0, 0, 0};
        for (int i = 0; i <= deg; ++i)
            for (int j = 0; i + j <= deg; ++j, ++k)
                for (int v = 0; v < 3; ++v)
                    u[v] += co[k][v] * std::pow(X, i) * std::pow(Y, j);
        return u;
    };
    if (kind == 0) {
        s.c.ic = "";
        t.label("no initial condition given");
    } else if (kind == 1) {
        s.c.ic  = "Constant";
        s.c.ze0 = a[0] = t.s(0.3 * s.D);
        s.c.qx0 = a[1] = t.s(s.D * s.cs);
        s.c.qy0 = a[2] = t.s(s.D * s.cs);
        t.label("constant");
    } else {
        double C = s.D;
        hook::ic_q() = [want, C](double time, const Point<2>& p) {
            auto u = want(p[0], p[1]);
            return StatVector<double, 3>{u[0] + C * time, u[1] - C * time, u[2]};
        };
        t.label("function");
    }
    double ho = 0, thr = 0;  // the threshold of the program is about 2e-10 h_o
    if (wd) {
        ho = s.D * t.lg(1e-4, 3e-1);
        s.c.blocks += "  wetting_drying:\n    h_o: " + rd(ho) + "\n";
        t.label("wetting and drying");
    }
    if (t.chance(20))
        s.c.blocks += "  slope_limiting:\n    type: Cockburn-Shu\n    M: 1e-8\n    nu: 1.5\n";
    PNOTE(s.c.blocks);
    auto S = make<Prob>(s.m, s.c);
    S->prep();
    auto no = s.m.node_of();
    int n   = s.c.p + 1;
    auto& L = lattice(n);
    auto ph = phi_at(s.c.p, L.z);
    uint ne = 0;
    S->d.mesh.CallForEachElement([&](auto& e) {
        ++ne;
        auto& id = e.GetNodeID();
        double X[3], Y[3], Z[3], u[3][3], q[3][3], xm = s.L;
        bool wet = true, tie = false;
        for (int v = 0; v < 3; ++v) {
            auto& x = s.m.x[no.at(id[v])];
            X[v] = x[0], Y[v] = x[1], Z[v] = x[2];
            auto w = want(X[v], Y[v]);
            xm     = std::max(xm, std::max(std::abs(X[v]), std::abs(Y[v])));
            for (int k = 0; k < 3; ++k)
                u[v][k] = q[v][k] = w[k];
            if (wd && u[v][0] + Z[v] <= ho + thr) {
                wet     = false;
                q[v][0] = ho - Z[v];
            }
            tie |= wd && std::abs(u[v][0] + Z[v] - ho - thr) < 1e-9 * s.D * xm / s.L;
        }
        if (tie) {
            t.label("tie");
            return;
        }
        if (!wet)
            for (int v = 0; v < 3; ++v)
                q[v][1] = q[v][2] = 0;
        if (wd) {
            PCHECK(e.data.wet_dry_state.wet == wet, "element " << e.GetID() << " starts " << (wet ? "dry" : "wet"));
            t.label(wet ? "wet" : "dry");
        }
        DynMatrix<double> at = e.data.state[0].q * ph, bed = e.data.state[0].aux * ph;
        double tol = 1e-10 * xm / s.L * (1 + s.c.p);
        for (uint k = 0; k < L.z.size(); ++k) {
            double l[3], x = 0, y = 0, z = 0;
            for (int v = 0; v < 3; ++v) {
                l[v] = L.w[k][v] / double(n);
                x += l[v] * X[v], y += l[v] * Y[v], z += l[v] * Z[v];
            }
            auto w = want(x, y);
            for (int c = 0; c < 3; ++c) {
                double ex = w[c];
                if (!wet)
                    ex = l[0] * q[0][c] + l[1] * q[1][c] + l[2] * q[2][c];
                PNEAR(at(c, k) / (c ? s.D * s.cs : s.D), ex / (c ? s.D * s.cs : s.D), tol, "variable " << c << " of element " << e.GetID() << (wet ? "" : " (dry)"));
            }
            PNEAR(bed(0, k) / s.D, z / s.D, 1e-11, "bed of element " << e.GetID());
        }
        double det = (X[1] - X[0]) * (Y[2] - Y[0]) - (X[2] - X[0]) * (Y[1] - Y[0]);
        double bx  = ((Z[1] - Z[0]) * (Y[2] - Y[0]) - (Z[2] - Z[0]) * (Y[1] - Y[0])) / det;
        double by  = ((Z[2] - Z[0]) * (X[1] - X[0]) - (Z[1] - Z[0]) * (X[2] - X[0])) / det;
        double sl  = s.D * s.L / std::abs(det) * (xm / s.L);
        for (uint g = 0; g < e.data.get_ngp_internal(); ++g) {
            PNEAR(e.data.internal.db_at_gp(0, g) / sl, bx / sl, 1e-11, "x slope of the bed of element " << e.GetID());
            PNEAR(e.data.internal.db_at_gp(1, g) / sl, by / sl, 1e-11, "y slope of the bed of element " << e.GetID());
        }
        if (Z[0] != Z[1] || Z[0] != Z[2] || kind >= 2)
            t.nontrivial();
    });
    PCHECK(ne == s.m.tri.size(), "the mesh has " << ne << " elements instead of " << s.m.tri.size());
}
#endif

// ---------------------------------------------------------------------------------------------------------
#if SEL(32)
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
LAWX(P32, breakdown_stops, PROBTAG, "a number breaks down in one element of a mesh of several", KIND < 2 ? 1600 : 400, KIND < 2 ? 40000 : 8000) {
    reset_globals();
    ScnOpt o;
    o.nmax = 3, o.steps = 3, o.p_max = 2;
    if (KIND == 3)
        o.zlo = t.r(0.6, 1), o.Llo = 8;
    auto s = scenario(t, o);
    auto w = wave(t, s, 0.03, 0.02);
    use_ic(w);
    if (KIND < 3 && t.chance(25)) {
        t.label("limiter");
        s.c.blocks += "  slope_limiting:\n    type: Cockburn-Shu\n    M: " + rd(t.lg(1e-8, 1)) + "\n    nu: " + rd(t.r(1, 2)) + "\n";
    }
    int mode = t.chance(15) ? 0 : t.i(1, 2);  // healthy, source, state
    int el = t.i(0, (int)s.m.tri.size() - 1), v = t.i(0, 2), at = t.i(0, s.steps - 1), dof = t.i(0, (s.c.p + 1) * (s.c.p + 2) / 2 - 1);
    if (mode == 1) {
        s.c.blocks += "  function_source: Enable\n";
        bool within      = KIND < 2 && s.c.nstages >= 2 && t.chance(50);  // at a later stage: the other variables stay sound
        double t0        = (at + (within ? t.r(0.05, 0.45) : -1e-6)) * s.c.dt;
        if (within)
            t.label("later stage");
        hook::source_q() = [&s, t0, v, el](double time, const Point<2>& p) {
            StatVector<double, 3> r{0, 0, 0};
            auto& T   = s.m.tri[el];
            bool in   = time >= t0;
            double ar = 2 * s.m.area(el);
            for (int k = 0; k < 3; ++k) {
                auto &a = s.m.x[T[k]], &b = s.m.x[T[(k + 1) % 3]];
                in &= (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]) > 1e-9 * ar;
            }
            if (in)
                r[v] = std::nan("");
            return r;
        };
    }
    PNOTE(s.c.blocks << (mode == 0 ? "healthy" : mode == 1 ? "source" : "state") << " element " << s.m.eid[el] << " variable " << v << " step " << at << " of " << s.steps);
    int pid = fork();
    PCHECK(pid >= 0, "fork");
    if (pid == 0) {
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1), dup2(n, 2);
        alarm(120);
        int rc = 3;
        try {
            auto S = make<Prob>(s.m, s.c);
            S->prep();
            for (int k = 0; k < s.steps; ++k) {
                if (mode == 2 && k == at)
                    S->d.mesh.CallForEachElement([&](auto& e) {
                        if (e.GetID() == s.m.eid[el])
                            e.data.state[0].q(v, dof) = std::nan("");
                    });
                S->step();
            }
            rc = 0;
        } catch (...) {
        }
        _exit(rc);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
        ;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
        t.label("slow");
        t.discard();
    }
    if (mode == 0)
        PCHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "a healthy run ended with status " << st);
    else {
        PCHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), "the run went on to its end although a number was lost");
        PCHECK(WIFEXITED(st) || WTERMSIG(st) == SIGABRT, "the run was ended by signal " << WTERMSIG(st));
        t.label(mode == 1 ? "source" : "state");
        if (s.m.tri.size() > 1)
            t.nontrivial();
    }
}
#endif
