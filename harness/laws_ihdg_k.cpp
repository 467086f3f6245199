// Laws of the implicit hybridised scheme: the equations a step solves, and the derivatives it assembles.
#include "pbt.hpp"
#define PROB SWE::IHDG::Problem
#define PROBNAME "ihdg_swe"
#define PROBTAG ihdg
#define KIND 2
#include "scenario.hpp"

namespace {
using Expl = SWE::EHDG::Problem;
using State = std::map<uint, DynMatrix<double>>;
template <typename S>
State get(S& s) {
    State r;
    s.d.mesh.CallForEachElement([&](auto& e) { r[e.GetID()] = e.data.state[0].q; });
    return r;
}
// a stream through a basin whose boundary is (partly) open; walls may be hit by it
struct Stream {
    double ze0 = 0, q0 = 0, W[2];
    double a[3], w[3], k[3][2], om[3];
    std::array<double, 3> operator()(double tt, double x, double y) const {
        std::array<double, 3> r;
        for (int v = 0; v < 3; ++v)
            r[v] = a[v] * std::sin(k[v][0] * x + k[v][1] * y - om[v] * tt + w[v]) + (v ? q0 * W[v - 1] : ze0);
        return r;
    }
};
}
namespace {
// prepares a scenario: closed basin with waves, or a stream with open boundaries; sets the hooks
inline Scn setup(pbt::T& t, Stream& f, bool open, int nmax, int pmax, int steps) {
    ScnOpt o;
    o.nmax = nmax, o.p_max = pmax, o.steps = steps;
    if (open)
        o.kinds = {mg::LAND, mg::TIDE, mg::FLOW, mg::FUNC}, o.zlo = 0.7, o.Dlo = 1, o.Dhi = 20;
    auto s = scenario(t, o);
    s.c.blocks += friction(t, s);
    double th = 0, fr = t.r(0.1, 0.4), dev = open ? t.lg(1e-3, 0.1) : 0;
    if (open) {
        // a stream that crosses every open edge at a definite angle (the trace equations are singular at stagnation)
        double best = -1;
        for (int k = 0; k < 64; ++k) {
            double b = k * M_PI / 32, w = 1, before = 0;
            for (auto& sg : s.m.seg)
                if (sg.kind == mg::TIDE || sg.kind == mg::FLOW || sg.kind == mg::FUNC)
                    for (uint i = 0; i + 1 < sg.n.size(); ++i) {
                        auto &P = s.m.x[sg.n[i]], &Q = s.m.x[sg.n[i + 1]];
                        double c = ((Q[1] - P[1]) * std::cos(b) - (Q[0] - P[0]) * std::sin(b)) / std::hypot(Q[0] - P[0], Q[1] - P[1]);
                        // a flow section prescribes one direction, in or out (it is interpolated between nodes)
                        if (i && sg.kind == mg::FLOW && c * before < 0)
                            w = 0;
                        before = c;
                        w = std::min(w, std::abs(c));
                    }
            if (w > best)
                best = w, th = b;
        }
        if (best < 0.2)
            t.discard();
        dev *= best;
        t.label("open");
    }
    f.W[0] = std::cos(th), f.W[1] = std::sin(th);
    f.q0 = open ? fr * s.low * std::sqrt(s.c.g * s.low) : 0;
    f.ze0 = 0;
    for (int v = 0; v < 3; ++v) {
        f.a[v] = open ? dev * (v ? t.s(f.q0) : t.s(0.3 * s.low)) : v ? t.s(fr * s.low * std::sqrt(s.c.g * s.low)) : t.s(0.3 * s.low);
        for (int d = 0; d < 2; ++d)
            f.k[v][d] = t.s(4) / s.L;
        f.om[v] = t.s(2) * s.cs / s.L;
        f.w[v]  = t.r(0, 6.28);
    }
    for (auto& g : s.m.seg) {
        auto con = [&](double freq, std::function<double(uint)> amp, double ph) {
            mg::Con q;
            q.freq = freq, q.eq = 0, q.ff = 1;
            for (uint k = 0; k < g.n.size(); ++k)
                q.amp.push_back(amp(k));
            q.phase.assign(g.n.size(), ph);
            g.con.push_back(q);
        };
        g.con.clear();
        if (g.kind == mg::TIDE)
            con(t.r(0, 2) * s.cs / s.L, [&](uint) { return t.s(dev * 0.3 * s.low); }, t.r(0, 360));
        else if (g.kind == mg::FLOW) {
            con(0, [&](uint k) {
                uint i = k + 1 < g.n.size() ? k : k - 1;
                bool ccw = s.m.oriented().count({g.n[i], g.n[i + 1]});  // which way the section runs around the domain
                    int I = g.n[ccw ? i : i + 1], J = g.n[ccw ? i + 1 : i];
                    double dx = s.m.x[J][0] - s.m.x[I][0], dy = s.m.x[J][1] - s.m.x[I][1];
                return f.q0 * (f.W[0] * dy - f.W[1] * dx) / std::hypot(dx, dy);
            }, 0);
            con(t.r(0, 2) * s.cs / s.L, [&](uint) { return t.s(dev * f.q0); }, t.r(0, 360));
        }
    }
    hook::ic_q() = [&f](double tt, const Point<2>& p) {
        auto u = f(tt, p[0], p[1]);
        return StatVector<double, 3>{u[0], u[1], u[2]};
    };
    if (t.chance(30)) {  // prescribed sources
        t.label("source");
        double c[3], ph = t.r(0, 6), k = 3 / s.L, om = s.cs / s.L;
        for (int v = 0; v < 3; ++v)
            c[v] = t.s(0.02) * s.cs / s.L * s.D * (v ? s.cs : 1);
        hook::source_q() = [=](double tt, const Point<2>& p) {
            double q = std::sin(k * p[0] - 0.7 * k * p[1] + om * tt + ph);
            return StatVector<double, 3>{c[0] * q, c[1] * q, c[2] * (1 - q)};
        };
        s.c.blocks += "  function_source: Enable\n";
    }
    PNOTE(s.c.blocks);
    return s;
}
}

// A step of the implicit scheme, from q0 at t0 to q1 at t1, satisfies (q1 - q0) / dt = theta R(q0, t0) + (1 - theta) R(q1, t1), where
// R is the right-hand side of the explicit hybridised scheme (same fluxes, sources and trace equations), as the explicit program
// evaluates it in a forward Euler step.
#if SEL(24)
LAW(P24, theta_step, "moving water on at least two elements", 3000, 60000) {
    reset_globals();
    Stream f;
    bool open = t.chance(50);
    auto s = setup(t, f, open, 3, 3, 3);
    double theta = s.c.order == 2 ? 0.5 : 0.0;
    t.label(s.c.order == 2 ? "Crank-Nicolson" : "backward Euler");
    auto S = make<Prob>(s.m, s.c);
    S->prep();
    std::vector<State> q{get(*S)};
    for (int k = 0; k < s.steps; ++k) {
        S->step();
        q.push_back(get(*S));
    }
    auto ce = s.c;
    ce.problem = "ehdg_swe";
    ce.order = ce.nstages = 1;
    auto E = make<Expl>(s.m, ce);
    E->prep();
    std::vector<State> R;
    for (auto& qk : q) {
        E->d.mesh.CallForEachElement([&](auto& e) { e.data.state[0].q = qk.at(e.GetID()); });
        E->step();
        State r = get(*E);
        for (auto& kv : r)
            kv.second = (kv.second - qk.at(kv.first)) / s.c.dt;
        R.push_back(r);
    }
    double sc[3] = {s.D, s.D * s.cs, s.D * s.cs};
    for (uint k = 0; k + 1 < q.size(); ++k)
        for (auto& kv : q[k]) {
            uint id = kv.first;
            DynMatrix<double> lhs = q[k + 1].at(id) - kv.second, rhs = s.c.dt * (theta * R[k].at(id) + (1 - theta) * R[k + 1].at(id));
            for (int v = 0; v < 3; ++v)
                for (int i = 0; i < lhs.cols(); ++i)
                    PNEAR(lhs(v, i), rhs(v, i), 1e-6 * sc[v] + 1e-6, "step " << k + 1 << ", variable " << v << ", coefficient " << i << " of element " << id);
        }
    if (s.m.tri.size() > 1)
        t.nontrivial();
}
#endif

// The linear systems are the derivatives of the residuals, by central differences at random iterates.
#if SEL(24)
LAW(P24, assembled_derivatives, "at least one interior edge", 3000, 60000) {
    reset_globals();
    Stream f;
    bool open = t.chance(50);
    auto s = setup(t, f, open, 2, 2, 1);
    auto S = make<Prob>(s.m, s.c);
    S->prep();
    auto& d  = S->d;
    auto& st = S->stepper;
    Prob::init_iteration(st, d);
    double sc[3] = {s.low, s.low * std::sqrt(s.c.g * s.low), s.low * std::sqrt(s.c.g * s.low)};
    // a random iterate near the initial state
    double dev = t.lg(1e-3, 0.05);
    d.mesh.CallForEachElement([&](auto& e) {
        auto& q = e.data.state[st.GetStage() + 1].q;
        for (int v = 0; v < 3; ++v)
            for (int i = 0; i < q.cols(); ++i)
                q(v, i) += t.s(dev) * sc[v];
    });
    std::vector<HybMatrix<double, 3>*> hats;
    std::vector<DynVector<double>*> rg;
    std::vector<DynMatrix<double>*> Dhh;
    struct Side {  // a side of an edge, as its element sees it
        uint hat;
        DynMatrix<double>*dhl, *dgl;
    };
    std::map<const void*, std::vector<Side>> sides;
    std::map<const void*, std::tuple<HybMatrix<double, 3>*, DynVector<double>*, DynMatrix<double>*>> el;  // q, rhs_local, delta_local
    std::vector<const void*> order;
    d.mesh.CallForEachElement([&](auto& e) {
        order.push_back(&e.data);
        el[&e.data] = std::make_tuple(&e.data.state[st.GetStage() + 1].q, &e.data.internal.rhs_local, &e.data.internal.delta_local);
    });
    uint inner = 0;
    d.mesh_skeleton.CallForEachEdgeInterface([&](auto& e) {
        uint h = hats.size();
        ++inner;
        hats.push_back(&e.edge_data.edge_state.q_hat);
        rg.push_back(&e.edge_data.edge_internal.rhs_global);
        Dhh.push_back(&e.edge_data.edge_internal.delta_hat_global);
        auto &bi = e.interface.data_in.boundary[e.interface.bound_id_in], &be = e.interface.data_ex.boundary[e.interface.bound_id_ex];
        sides[&e.interface.data_in].push_back({h, &bi.delta_hat_local, &bi.delta_global});
        sides[&e.interface.data_ex].push_back({h, &be.delta_hat_local, &be.delta_global});
    });
    d.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) {
        uint h = hats.size();
        hats.push_back(&e.edge_data.edge_state.q_hat);
        rg.push_back(&e.edge_data.edge_internal.rhs_global);
        Dhh.push_back(&e.edge_data.edge_internal.delta_hat_global);
        auto& b = e.boundary.data.boundary[e.boundary.bound_id];
        sides[&e.boundary.data].push_back({h, &b.delta_hat_local, &b.delta_global});
    });
    for (auto h : hats)
        for (int v = 0; v < 3; ++v)
            for (int i = 0; i < h->cols(); ++i)
                (*h)(v, i) += t.s(dev) * sc[v];
    auto eval = [&]() {
        d.mesh.CallForEachElement([&](auto& e) {
            Prob::local_volume_kernel(st, e);
            Prob::local_source_kernel(st, e);
        });
        d.mesh.CallForEachInterface([&](auto& i) { Prob::local_interface_kernel(st, i); });
        d.mesh.CallForEachBoundary([&](auto& b) { Prob::local_boundary_kernel(st, b); });
        d.mesh_skeleton.CallForEachEdgeInterface([&](auto& e) { Prob::local_edge_interface_kernel(st, e); });
        d.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) { Prob::local_edge_boundary_kernel(st, e); });
        d.mesh_skeleton.CallForEachEdgeInterface([&](auto& e) { Prob::global_edge_interface_kernel(st, e); });
        d.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) { Prob::global_edge_boundary_kernel(st, e); });
    };
    struct Res {
        std::map<const void*, DynVector<double>> l;
        std::vector<DynVector<double>> g;
    };
    auto res = [&]() {
        Res r;
        for (auto& kv : el)
            r.l[kv.first] = *std::get<1>(kv.second);
        for (auto v : rg)
            r.g.push_back(*v);
        return r;
    };
    eval();
    // the assembled derivatives at the iterate
    std::map<const void*, DynMatrix<double>> DL;
    std::map<const void*, std::vector<std::array<DynMatrix<double>, 2>>> DS;
    std::vector<DynMatrix<double>> DH;
    for (auto& kv : el)
        DL[kv.first] = *std::get<2>(kv.second);
    for (auto& kv : sides)
        for (auto& sd : kv.second)
            DS[kv.first].push_back({{*sd.dhl, *sd.dgl}});
    for (auto m : Dhh)
        DH.push_back(*m);
    // residuals are homogeneous in these scales: rows of variable v
    auto diff = [&](double& x, double eps) {
        double x0 = x;
        auto at = [&](double y) {
            x = y;
            eval();
            return res();
        };
        // a kink (a wave speed changing sign, say) shows as a disagreement between step sizes or between the two sides
        eval();
        Res z = res();
        Res a = at(x0 + eps), b = at(x0 - eps), c = at(x0 + eps / 4), e = at(x0 - eps / 4);
        x = x0;
        Res r, q;
        for (auto& kv : a.l) {
            r.l[kv.first] = ((a.l[kv.first] - b.l[kv.first]) / (2 * eps) - (c.l[kv.first] - e.l[kv.first]) / (0.5 * eps)).cwiseAbs() + (c.l[kv.first] - 2 * z.l[kv.first] + e.l[kv.first]).cwiseAbs() / (0.25 * eps);
            q.l[kv.first] = (c.l[kv.first] - e.l[kv.first]) / (0.5 * eps);
        }
        for (uint k = 0; k < a.g.size(); ++k) {
            r.g.push_back(((a.g[k] - b.g[k]) / (2 * eps) - (c.g[k] - e.g[k]) / (0.5 * eps)).cwiseAbs() + (c.g[k] - 2 * z.g[k] + e.g[k]).cwiseAbs() / (0.25 * eps));
            q.g.push_back((c.g[k] - e.g[k]) / (0.5 * eps));
        }
        return std::make_pair(r, q);
    };
    auto cmp = [&](const DynVector<double>& r, const DynVector<double>& q, const DynMatrix<double>& D, int col, double scale, double vs, const char* what, uint id) {
        for (int i = 0; i < (int)r.size(); ++i) {
            double s0 = scale * sc[i % 3] / vs;
            double kink = r[i];
            double want = D.size() ? D(i, col) : 0.0;
            PNEAR(-q[i], want, 3e-5 * s0 + 3 * kink, what << " " << id << ": derivative of row " << i << " by column " << col);
        }
    };
    // residual rows of the local systems are integrals over the element of q/dt; of the edge systems over the edge of (speed) q
    for (int n = 0; n < 6; ++n) {
        bool byhat = t.b();
        int v;
        if (!byhat) {
            const void* e = order[t.i(0, order.size() - 1)];
            auto& q = *std::get<0>(el[e]);
            v = t.i(0, 2);
            int i = t.i(0, q.cols() - 1);
            auto pr = diff(q(v, i), 1e-4 * sc[v]);
            double ls = 0;
            for (int a = 0; a < DL[e].rows(); ++a)
                for (int b = 0; b < DL[e].cols(); ++b)
                    ls = std::max(ls, std::abs(DL[e](a, b)) * sc[b % 3] / sc[a % 3]);
            for (auto o : order)
                cmp(pr.first.l[o], pr.second.l[o], o == e ? DL[e] : DynMatrix<double>(), 3 * i + v, ls, sc[v], "local equations, by the state of an element", n);
            std::map<uint, int> of;
            for (uint k = 0; k < sides[e].size(); ++k)
                of[sides[e][k].hat] = k;
            for (uint h = 0; h < hats.size(); ++h) {
                double gs = 0;
                for (int a = 0; a < DH[h].rows(); ++a)
                    for (int b = 0; b < DH[h].cols(); ++b)
                        gs = std::max(gs, std::abs(DH[h](a, b)) * sc[b % 3] / sc[a % 3]);
                cmp(pr.first.g[h], pr.second.g[h], of.count(h) ? DS[e][of[h]][1] : DynMatrix<double>(), 3 * i + v, gs, sc[v], "edge equations, by the state of an element", n);
            }
        } else {
            uint h = t.i(0, hats.size() - 1);
            v = t.i(0, 2);
            int i = t.i(0, hats[h]->cols() - 1);
            auto pr = diff((*hats[h])(v, i), 1e-4 * sc[v]);
            for (auto o : order) {
                double ls = 0;
                for (int a = 0; a < DL[o].rows(); ++a)
                    for (int b = 0; b < DL[o].cols(); ++b)
                        ls = std::max(ls, std::abs(DL[o](a, b)) * sc[b % 3] / sc[a % 3]);
                const DynMatrix<double>* D = nullptr;
                for (uint k = 0; k < sides[o].size(); ++k)
                    if (sides[o][k].hat == h)
                        D = &DS[o][k][0];
                cmp(pr.first.l[o], pr.second.l[o], D ? *D : DynMatrix<double>(), 3 * i + v, ls, sc[v], "local equations, by the trace of an edge", n);
            }
            for (uint k = 0; k < hats.size(); ++k) {
                double gs = 0;
                for (int a = 0; a < DH[k].rows(); ++a)
                    for (int b = 0; b < DH[k].cols(); ++b)
                        gs = std::max(gs, std::abs(DH[k](a, b)) * sc[b % 3] / sc[a % 3]);
                cmp(pr.first.g[k], pr.second.g[k], k == h ? DH[h] : DynMatrix<double>(), 3 * i + v, gs, sc[v], "edge equations, by the trace of an edge", n);
            }
        }
    }
    if (inner)
        t.nontrivial();
}
#endif
