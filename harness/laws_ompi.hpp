// Distributed runs against the serial run of the whole mesh, in one process (several submeshes, several threads).
int harness_main(int, char**) asm("__wrap_main");
int partitioner_main(int, char**) asm("__real_main");
#define main harness_main
#include "ompi_side.hpp"
#include "scenario.hpp"
#undef main
#include "part.hpp"

#include <dlfcn.h>

namespace {
// the shared library with the distributed program, see units.py
inline void* side(const char* name) {
    static void* h = [] {
        std::string f = std::string(getenv("VERIF_BIN") ? getenv("VERIF_BIN") : ".") + "/" SIDE;
        void* p       = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!p) {
            std::cerr << dlerror() << std::endl;
            abort();
        }
        return p;
    }();
    return dlsym(h, name);
}
inline Modal serial_run(const Scn& s, std::set<uint>* troubled = nullptr, bool* dry = nullptr, bool* mixed = nullptr) {
    Modal r;
    auto S = make<Prob>(s.m, s.c);
    S->prep();
    for (int k = 0; k < s.steps; ++k)
        if (!dry)
            S->step();
#if KIND < 2
        else
            for (uint st = 0; st < S->stepper.GetNumStages(); ++st) {
                Prob::stage_serial(S->d, S->gd, S->stepper);
                S->d.mesh.CallForEachElement([&](auto& e) {
                    auto& q = e.data.state[S->stepper.GetStage()].q;
                    DynMatrix<double> v = e.ComputeLinearUvrtx(e.ProjectBasisToLinear(q));
                    for (int k = 0; k < 3; ++k)
                        if (!(v(0, k) + e.GetShape().nodal_coordinates[k][GlobalCoord::z] > 0))
                            *dry = true;
                });
            }
#endif
    uint nwet = 0, ndry = 0;
    S->d.mesh.CallForEachElement([&](auto& e) {
        ++(e.data.wet_dry_state.wet ? nwet : ndry);
        DynMatrix<double> q = e.data.state[0].q;
        r[e.GetID()]        = q;
        if (troubled && e.data.slope_limit_state.troubled)
            troubled->insert(e.GetID());
    });
    if (mixed)
        *mixed = nwet && ndry;
    return r;
}
}

#if KIND < 2
#define PID P17
#else
#define PID P28
#endif
namespace {
// a clean environment: this process may have started an MPI of its own
inline std::string mpirun_cmd(int np, int seconds) {
    return "env -i PATH=\"$PATH\" HOME=\"$HOME\" LD_LIBRARY_PATH=\"$LD_LIBRARY_PATH\" OMPI_ALLOW_RUN_AS_ROOT=1 "
           "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_mpi_yield_when_idle=1 timeout -k 5 " + std::to_string(seconds) +
           " mpirun --oversubscribe --bind-to none -np " + std::to_string(np) + " ";
}
// mpirun as the environment of the checks allows it; found out once
inline bool mpirun_works() {
    static int w = -1;
    if (w < 0)
        w = system((mpirun_cmd(2, 60) + "true >/dev/null 2>&1").c_str()) == 0;
    return w;
}
inline int launch_status(int np, const RunSpec& r, int seconds) {
    std::ofstream("spec", std::ios::binary).write((const char*)&r, sizeof r);
    for (int k = 0; k < np; ++k)
        std::remove(("out_" + std::to_string(k)).c_str());
    std::string bin = getenv("VERIF_BIN") ? getenv("VERIF_BIN") : ".";
    return system((mpirun_cmd(np, seconds) + bin + "/mpi_run " + bin + "/" SIDE " spec out_ >log 2>&1").c_str());
}
inline void launch_processes(int np, const RunSpec& r) {
    int rc = launch_status(np, r, 40);
    if (rc != 0) {
        std::ifstream f("log");
        std::string l((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        PCHECK(rc == 0, "the run with " << np << " processes ended with status " << rc << ": " << l.substr(0, 1500));
    }
}
inline void run_processes(int np, const RunSpec& r, Modal& B, std::set<uint>& troubled, uint& units) {
    launch_processes(np, r);
    units = 0;
    for (int k = 0; k < np; ++k) {
        std::ifstream f("out_" + std::to_string(k), std::ios::binary);
        PCHECK(f.good(), "no result of process " << k);
        auto get = [&] {
            unsigned v = 0;
            f.read((char*)&v, sizeof v);
            return v;
        };
        units += get();
        unsigned n = get();
        for (unsigned i = 0; i < n; ++i) {
            unsigned id = get(), tr = get(), a = get(), b = get();
            DynMatrix<double> q(a, b);
            for (unsigned x = 0; x < a; ++x)
                for (unsigned y = 0; y < b; ++y) {
                    double v;
                    f.read((char*)&v, sizeof v);
                    q(x, y) = v;
                }
            PCHECK(B.emplace(id, q).second, "element " << id << " twice");
            if (tr)
                troubled.insert(id);
        }
    }
}
inline void same_as_serial(pbt::T& t, bool several);
}
#if KIND == 0
// every message reaches the submesh it is meant for
#if SEL(17)
LAW(P17, messages_arrive, "at least two pairs of submeshes exchange messages", 3000, 60000) {
    reinterpret_cast<decltype(&verif_mpi_start)>(side("verif_mpi_start"))();
    int n = t.i(2, 7), types = t.i(1, 4);
    std::vector<uint> id;  // numbers of the submeshes, of few or of many
    while ((int)id.size() < n) {
        uint hi = t.chance(50) ? 12 : t.chance(50) ? 600 : 32767, k = t.i(0, hi);
        if (t.chance(30) && !id.empty())
            k = (id[t.i(0, (int)id.size() - 1)] ^ (1u << t.i(0, 14)));
        while (std::count(id.begin(), id.end(), k))
            k = (k + 1) % 32768;
        id.push_back(k);
    }
    CommJob j;
    j.submesh.resize(n);
    std::map<std::pair<uint, uint>, std::vector<std::vector<double>>> sent;
    double tag = 0;
    for (int a = 0; a < n; ++a)
        for (int b = a + 1; b < n; ++b)
            if (t.chance(60)) {
                std::vector<int> len;
                for (int c = 0; c < types; ++c)
                    len.push_back(t.i(1, 6));
                for (int s = 0; s < 2; ++s) {
                    CommJob::Edge e;
                    e.in = id[s ? b : a], e.ex = id[s ? a : b];
                    for (int c = 0; c < types; ++c) {
                        e.send.emplace_back();
                        for (int k = 0; k < len[c]; ++k)
                            e.send.back().push_back(++tag);
                    }
                    sent[{e.in, e.ex}] = e.send;
                    auto& v            = j.submesh[s ? b : a];
                    v.insert(v.begin() + t.i(0, (int)v.size()), e);
                }
            }
    auto shuffled = [&] {
        std::vector<uint> o(n);
        for (int k = 0; k < n; ++k)
            o[k] = k;
        for (int k = n - 1; k > 0; --k)
            std::swap(o[k], o[t.i(0, k)]);
        return o;
    };
    PNOTE(n << " submeshes, " << types << " types of messages, " << sent.size() / 2 << " pairs");
    for (auto& x : sent)
        PNOTE(x.first.first << " -> " << x.first.second);
    // like the steps: all receives posted, all sent, all waited for; submeshes in any order (threads)
    for (int c = 0; c < types; ++c)
        for (int what : {0, 1, 2, 3})
            for (uint s : shuffled())
                j.ops.push_back({what, s, (uint)c});
    reinterpret_cast<decltype(&verif_comm_run)>(side("verif_comm_run"))(&j);
    if (sent.size() > 2)
        t.nontrivial();
    for (auto& su : j.submesh)
        for (auto& e : su) {
            auto& want = sent.at({e.ex, e.in});
            PCHECK(e.got == want, "submesh " << e.in << " received " << e.got[0][0] << ".. from submesh " << e.ex << ", which sent " << want[0][0] << "..");
        }
}
#endif
#endif
#if SEL(17) || SEL(28)
LAWX(PID, same_as_serial, PROBTAG, "moving water on a mesh cut into at least two submeshes", KIND < 2 ? 5000 : 2000, KIND < 2 ? 80000 : 30000) {
    same_as_serial(t, false);
}
LAWX(PID, several_processes, PROBTAG, "moving water on a mesh spread over at least two processes", 240, 3000) {
    same_as_serial(t, true);
}
#endif
namespace {
inline void same_as_serial(pbt::T& t, bool several) {
    reset_globals();
    if (!several)
        reinterpret_cast<decltype(&verif_mpi_start)>(side("verif_mpi_start"))();
    else if (!mpirun_works()) {
        t.label("no mpirun");
        t.discard();
    }
    ScnOpt o;
    bool wd = KIND != 2 && t.chance(35), lim = KIND < 3 && t.chance(35), front = lim && t.chance(70);
    if (front)
        o.Dlo = 0.003, o.Dhi = 3, o.nmax = 5;
    if (KIND == 0)
        o.kinds = {mg::LAND, mg::TIDE, mg::FLOW, mg::FUNC}, o.levee = 40;
    else
        o.kinds = {mg::LAND, mg::TIDE, mg::FUNC};
    if (!front)
        o.nmax = 3;
    o.steps = 3;
    if (KIND >= 2)
        o.p_max = 2, o.steps = 2;
    if (KIND == 3)
        o.zlo = t.r(0.6, 1), o.Llo = 8;
    if (wd) {
        o.zlo = -t.r(0.05, 1.0), o.cfl_hi = 0.1, o.p_max = 1, o.kinds = {mg::LAND};
        if (KIND == 3)
            o.steps = 8;
    }
    auto s = scenario(t, o);
    // submesh files hold 15 digits: give both programs the same numbers
    for (auto& q : s.m.x)
        for (auto& v : q) {
            char b[40];
            snprintf(b, 40, "%.15g", v);
            v = strtod(b, nullptr);
        }
    double U = 0, Ux = 0, Uy = 0;
    if (KIND != 0 && !wd) {  // a definite flow through open boundaries, see DESIGN.md
        U         = t.r(0.1, 0.2) * s.low * std::sqrt(s.c.g * s.low);
        double an = t.r(0, 6.28);
        Ux = U * std::cos(an), Uy = U * std::sin(an);
        for (auto& g : s.m.seg)
            if (g.kind == mg::TIDE || g.kind == mg::FUNC)
                for (size_t k = 0; k + 1 < g.n.size(); ++k) {
                    double dx = s.m.x[g.n[k + 1]][0] - s.m.x[g.n[k]][0], dy = s.m.x[g.n[k + 1]][1] - s.m.x[g.n[k]][1];
                    if (std::abs(Ux * dy - Uy * dx) < 0.3 * U * std::hypot(dx, dy))
                        t.discard();
                }
    }
    auto w0 = wd ? wave(t, s, 0.3, 0.2) : KIND == 0 ? wave(t, s, 0.15, 0.3) : wave(t, s, 0.03, 0.02);
    double fx = 0, fy = 0, fp = 0, fa = 0;
    if (front) {  // a jump of the surface along wave fronts
        // Newton's method of the implicit scheme does not cope with large jumps
        fa        = (KIND == 2 ? t.r(0.01, 0.08) : t.r(0.05, 0.5)) * s.low;
        double an = t.r(0, 6.28), k = t.r(1, 6) / s.L;
        fx = k * std::cos(an), fy = k * std::sin(an), fp = t.r(0, 6.28);
        t.label("front");
    }
    for (auto& g : s.m.seg) {
        if (g.kind == mg::TIDE)
            mg::gen_forcing(t, g, KIND == 0 ? std::min(0.03 * s.D, 0.1 * s.low) : 0.01 * s.low, 0.5 / s.c.dt);
        else if (g.kind == mg::FLOW)
            mg::gen_forcing(t, g, 0.1 * s.low * std::sqrt(s.c.g * s.low), 0.5 / s.c.dt);
        else if (g.kind == mg::LEVEE)
            for (size_t k = 0; k < g.n.size(); ++k) {
                g.H[k] = t.s(0.1 * s.D);
                g.Csub[k] = t.r(0.1, 1);
                g.Csup[k] = t.r(0.1, 1);
            }
    }
    double ho = s.D * t.lg(1e-4, 3e-2);
    if (!wd)
        s.c.blocks += friction(t, s);
    else {
        s.c.blocks += "  wetting_drying:\n    h_o: " + rd(ho) + "\n";
        t.label("wetdry");
    }
    if (lim) {
        t.label("limiter");
        s.c.blocks += "  slope_limiting:\n    type: Cockburn-Shu\n    M: " + rd(t.lg(1e-8, 1e-2)) + "\n    nu: " + rd(t.r(1, 2)) + "\n";
    }
    if (t.chance(30))
        s.c.ramp = t.lg(1e-4, 1);
    PNOTE(s.c.blocks);
    Fields F;
    for (int v = 0; v < 3; ++v) {
        F.A[v] = w0.A[v], F.ph[v] = w0.ph[v];
        for (int d = 0; d < 2; ++d)
            F.k[v][d] = w0.k[v][d];
    }
    F.Ux = Ux, F.Uy = Uy, F.fa = fa, F.fx = fx, F.fy = fy, F.fp = fp;
    F.D = s.D, F.L = s.L, F.cs = s.cs, F.low = s.low;
    hook::ic_q() = [&](double, const Point<2>& p) { return F.ic(p); };
    if (t.chance(25)) {
        s.c.blocks += "  function_source: Enable\n";
        F.source         = 1;
        hook::source_q() = [&](double, const Point<2>& p) { return F.src(p); };
        t.label("source");
    }
    // split
    int nparts = t.i(1, 5), mode = t.i(0, 2), threads = t.chance(30) ? t.i(2, 3) : 1;
    std::vector<idx_t> part;
    for (uint k = 0; k < s.m.tri.size(); ++k)
        part.push_back(mode == 0 ? t.i(0, nparts - 1) : mode == 1 ? std::min<idx_t>(nparts - 1, (k * nparts) / s.m.tri.size()) : k % nparts);
    int np = 1;
    std::vector<idx_t> node;  // of submesh
    if (several) {
        np     = t.i(2, 3);
        nparts = std::max(nparts, np);
        nparts = std::min<int>(nparts, part.size());
        if (nparts < np)
            t.discard();
        // every part gets an element, every process a part
        for (uint k = 0; k < part.size(); ++k)
            part[k] = k < (uint)nparts ? k : t.i(0, nparts - 1);
        for (int k = 0; k < nparts; ++k)
            node.push_back(k < np ? k : t.i(0, np - 1));
        if (t.b())
            std::reverse(node.begin(), node.end());
        if (t.b())
            std::reverse(part.begin(), part.end());
    }
    clear(".meta"), clear(".dbmd");
    std::set<uint> trA, trB;
    bool dry = false, mixed = false;
    Modal A  = serial_run(s, &trA, wd && lim ? &dry : nullptr, &mixed);
    if (mixed)
        t.label("wet and dry");
    if (dry)  // the limiter may undo the positive depth, see DESIGN.md
        t.discard();
    double scale[3] = {s.D, s.D * s.cs, s.D * s.cs};
    graphs.clear();
    chooser = [&](int call, idx_t v, idx_t) -> idx_t { return call == 0 ? part.at(v) : several ? node.at(v) : 0; };
    bool ranks = several && t.b();  // processes as nodes, or as ranks of one node
    if (ranks)
        node.assign(node.size(), 0);
    if (ranks)
        run_partitioner({"partitioner", "input.15", std::to_string(nparts), "1", std::to_string(np)});
    else
        run_partitioner({"partitioner", "input.15", std::to_string(nparts), std::to_string(np)});
    uint nsub = files(".meta").size();
    PNOTE("split into " << nsub << " submeshes, " << threads << " threads, " << np << " processes");
    Modal B;
    if (several) {
        RunSpec r;
        memset((void*)&r, 0, sizeof r);
        strcpy(r.input, "input_parallelized.15");
        r.steps   = s.steps;
        r.threads = threads;
        r.f       = F;
        uint units;
        run_processes(np, r, B, trB, units);
        PCHECK(units == nsub, "submeshes found: " << units << " of " << nsub);
        t.label(ranks ? "ranks of a node" : "nodes");
    } else {
        OmpiJob j;
        j.input    = "input_parallelized.15";
        j.steps    = s.steps;
        j.threads  = threads;
        j.ic_q     = hook::ic_q();
        j.source_q = hook::source_q();
        reinterpret_cast<decltype(&verif_ompi_run)>(side("verif_ompi_run"))(&j);
        PCHECK(j.units == nsub, "submeshes found: " << j.units << " of " << nsub);
        trB.insert(j.troubled.begin(), j.troubled.end());
        for (auto& g : j.out)
            PCHECK(B.emplace(g.first, g.second).second, "element " << g.first << " twice");
    }
    PCHECK(A.size() == s.m.tri.size() && B.size() == A.size(), "number of elements");
    auto diff = [&](const Modal& X, const Modal& Y) {
        std::pair<double, uint> m{0, 0};
        for (auto& x : X) {
            auto& y = Y.at(x.first);
            for (int v = 0; v < 3; ++v)
                for (int k = 0; k < (int)x.second.cols(); ++k) {
                    double e = std::abs(x.second(v, k) - y(v, k)) / scale[v];
                    if (!(e <= m.first))
                        m = {e, x.first};
                }
        }
        return m;
    };
    t.label(nsub == 1 ? "one submesh" : "several submeshes");
    if (threads > 1 && nsub > 1)
        t.label("threads");
    if (nsub > 1 && (np > 1 || !several))
        t.nontrivial();
    double tol = KIND == 2 ? 1e-7 : KIND == 3 ? 1e-8 : 1e-10;
    auto e     = diff(A, B);
    if (!(e.first <= tol)) {
        // is the case one where rounding decides (a limiter or wet/dry switch)?
        F.eps  = 1e-14;
        auto C = serial_run(s);
        F.eps  = -1e-14;
        auto D = serial_run(s);
        double sens = std::max(diff(A, C).first, diff(A, D).first);
        if (sens > 0.01 * tol) {
            t.label("sensitive");
            t.discard();
        }
    }
    if (lim && !trA.empty())
        t.label("troubled");
    if (getenv("VERIF_NOTES"))
        for (auto& x : A)
            std::cerr << x.first << "\n serial\n" << x.second << "\n distributed\n" << B.at(x.first) << "\n";
    PCHECK(e.first <= tol, "the distributed solution differs by " << e.first << " in element " << e.second << " from the serial one");
    if (trA != trB) {
        // does rounding decide here?
        std::set<uint> trC, trD;
        for (double x : {1e-13, -1e-13}) {
            F.eps = x;
            serial_run(s, x > 0 ? &trC : &trD);
        }
        if (trC != trA || trD != trA) {
            t.label("sensitive");
            t.discard();
        }
    }
    PCHECK(trA == trB, "the distributed run marks " << trB.size() << " elements as troubled, the serial one " << trA.size());
}
}
