// What the submeshes of a distributed run write, against the serial run's states.
#define VERIF_DISTRIBUTED_OUTPUT
#include "laws_ompi.hpp"
#include "laws_out.hpp"

#if SEL(31)
namespace {
inline void distributed_output(pbt::T& t, bool several);
}
LAWX(P31, distributed_output, PROBTAG, "at least two submeshes, two kinds of output, one of them more than twice", KIND < 2 ? 800 : 240, KIND < 2 ? 20000 : 5000) {
    distributed_output(t, false);
}
LAWX(P31, processes_output, PROBTAG, "at least two processes, two kinds of output, one of them more than twice", 48, 600) {
    distributed_output(t, true);
}
namespace {
inline void distributed_output(pbt::T& t, bool several) {
    reset_globals();
    if (!several)
        reinterpret_cast<decltype(&verif_mpi_start)>(side("verif_mpi_start"))();
    else if (!mpirun_works()) {
        t.label("no mpirun");
        t.discard();
    }
    ScnOpt o;
    o.Dlo = 20, o.Llo = several ? 200 : 60;  // time steps that are not small compared to a second
    o.nmax  = 3;
    o.p_max = 3;
    if (KIND == 0)
        o.kinds = {mg::LAND, mg::TIDE, mg::FLOW};
    else
        o.kinds = {mg::LAND};
    if (KIND >= 2)
        o.p_max = 2;
    if (KIND == 3)
        o.zlo = t.r(0.6, 1);
    auto s  = scenario(t, o);
    if (s.m.tri.size() > 40)
        t.discard();
    for (auto& q : s.m.x)  // submesh files hold 15 digits
        for (auto& v : q) {
            char b[40];
            snprintf(b, 40, "%.15g", v);
            v = strtod(b, nullptr);
        }
    bool odd;
    s.c.dt /= 2;
    int n  = whole_seconds(t, s, several ? 3 : KIND < 2 ? 6 : 4, odd);
    if (several && n > (KIND < 2 ? 15 : 8))  // many short messages between oversubscribed processes
        t.discard();
    auto w = KIND == 0 ? wave(t, s, 0.1, 0.1) : wave(t, s, 0.03, 0.02);
    Fields F;
    for (int v = 0; v < 3; ++v) {
        F.A[v] = w.A[v], F.ph[v] = w.ph[v];
        for (int d = 0; d < 2; ++d)
            F.k[v][d] = w.k[v][d];
    }
    F.D = s.D, F.L = s.L, F.cs = s.cs, F.low = s.low;
    F.T[0] = t.s(1) * s.D, F.T[1] = t.s(1) * s.D * s.cs, F.T[2] = t.s(1) * s.D / s.L;
    hook::ic_q()   = [&](double, const Point<2>& p) { return F.ic(p); };
    hook::true_q() = [&](double time, const Point<2>& p) { return F.truth(time, p); };
    for (auto& g : s.m.seg)
        if (g.kind == mg::TIDE)
            mg::gen_forcing(t, g, std::min(0.03 * s.D, 0.1 * s.low), 0.5 / s.c.dt);
        else if (g.kind == mg::FLOW)
            mg::gen_forcing(t, g, 0.1 * s.low * std::sqrt(s.c.g * s.low), 0.5 / s.c.dt);
    static const char* names[] = {"mesh", "a", "Bay_of_x", "b2"};
    s.m.name = names[t.i(0, 3)];
    static const char* paths[] = {"out", "out/", "./results/", "r.1"};
    std::string path = paths[t.i(0, 3)];
    std::string dir  = path.back() == '/' ? path : path + "/";
    if (system(("rm -rf " + dir).c_str()))
        t.discard();
    std::map<std::string, int> freq;
    std::string out = "output:\n  path: " + path + "\n";
    bool log = t.chance(50);
    if (log)
        out += std::string("  logfile:\n    name: log\n    verbose: ") + (t.b() ? "true" : "false") + "\n";
    for (auto k : {"vtk", "vtu", "modal"})
        if (t.chance(65)) {
            int f   = t.chance(20) ? t.i(1, n + 3) : t.i(1, std::max(1, n / 2));
            freq[k] = f;
            out += std::string("  ") + k + ":\n    frequency: " + rd(f * s.c.dt) + "\n";
        }
    s.c.output = out;
    PNOTE(out << "steps " << n << " duration " << s.c.run_time << " dt " << rd(s.c.dt));
    // serial
    clear(".meta"), clear(".dbmd");
    auto S = make<Prob>(s.m, s.c);
    S->prep();
    std::vector<Cap> caps{capture(*S)};
    for (int k = 1; k <= n; ++k) {
        S->writer = typename Prob::ProblemWriterType();
        S->step();
        caps.push_back(capture(*S));
    }
    long double e2 = 0;
    S->d.mesh.CallForEachElement([&](auto& e) { e2 += Prob::compute_residual_L2(S->stepper, e); });
    // distributed
    int nparts = t.i(1, 5), threads = t.chance(30) ? t.i(2, 3) : 1, np = 1;
    std::vector<idx_t> part, node;
    for (uint k = 0; k < s.m.tri.size(); ++k)
        part.push_back(t.i(0, nparts - 1));
    if (several) {
        np     = t.i(2, 3);
        nparts = std::min<int>(std::max(nparts, np), part.size());
        if (nparts < np)
            t.discard();
        for (uint k = 0; k < part.size(); ++k)  // every part gets an element, every process a part
            part[k] = k < (uint)nparts ? k : t.i(0, nparts - 1);
        for (int k = 0; k < nparts; ++k)
            node.push_back(k < np ? k : t.i(0, np - 1));
    }
    graphs.clear();
    chooser = [&](int call, idx_t v, idx_t) -> idx_t { return call == 0 ? part.at(v) : several ? node.at(v) : 0; };
    run_partitioner({"partitioner", "input.15", std::to_string(nparts), std::to_string(np)});
    uint nsub = files(".meta").size();
    if (system(("rm -rf " + dir).c_str()))
        t.discard();
    ProgramJob j;
    if (several) {
        RunSpec r;
        memset((void*)&r, 0, sizeof r);
        strcpy(r.input, "input_parallelized.15");
        r.threads = threads;
        r.program = 1;
        r.f       = F;
        launch_processes(np, r);
        for (int k = 0; k < np; ++k) {
            std::ifstream f("out_" + std::to_string(k));
            uint u = 0;
            PCHECK((bool)(f >> u), "no result of process " << k);
            std::stringstream ss;
            ss << f.rdbuf();
            j.units += u;
            PCHECK(k == 0 || ss.str().find("L2 error") == std::string::npos, "process " << k << " reports an error too: " << ss.str());
            if (k == 0)
                j.report = ss.str();
        }
    } else {
        j.input    = "input_parallelized.15";
        j.threads  = threads;
        j.ic_q     = hook::ic_q();
        j.source_q = hook::source_q();
        j.true_q   = hook::true_q();
        reinterpret_cast<decltype(&verif_ompi_program)>(side("verif_ompi_program"))(&j);
    }
    PCHECK(j.units == nsub, "submeshes found: " << j.units << " of " << nsub);
    auto at0 = j.report.find("L2 error: ");
    PCHECK(at0 != std::string::npos, "no error reported: " << j.report);
    double got = std::strtod(j.report.c_str() + at0 + 10, nullptr), want = (double)std::sqrt(e2);
    PNEAR(got, want, (KIND < 2 ? 1e-8 : 1e-6) * want, "error reported by the distributed run after " << n << " steps");
    // what may differ between the two runs
    noise = (KIND < 2 ? 1e-9 : 1e-6) * s.D * std::max(1.0, s.cs) * std::max(1.0, 1 / s.low);
    auto eo = s.m.elt_of();
    std::set<uint> all;
    bool thrice = false, any = !freq.empty();
    std::set<std::string> subs;  // locality_submesh, from the mesh files
    for (auto& f : files(".meta")) {
        auto b = f.rfind('_', f.rfind('_') - 1);
        subs.insert(f.substr(b + 1, f.size() - b - 6));
    }
    for (auto& su : subs) {
        if (!any)
            break;
        std::string sd = dir + su + "/", nm;
        auto there = listing(sd);
        std::set<std::string> wanted;
        // the elements of the submesh and the name of its mesh, from its own mesh file
        std::set<uint> ids;
        {
            std::string mf;
            for (auto& f : files("_" + su + ".meta"))
                mf = f;
            MeshMetaData mm(mf);
            nm = mm.mesh_name;
            for (auto& e : mm.elements)
                ids.insert(e.first);
        }
        PCHECK(nm == s.m.name + "_" + su, "submesh " << su << " calls itself " << nm);
        for (auto i : ids)
            PCHECK(all.insert(i).second, "element " << i << " in two submeshes");
        std::vector<Cap> cs;
        for (auto& c : caps) {
            Cap r;
            r.time = c.time;
            for (auto i : ids)
                r.q[i] = c.q.at(i), r.aux[i] = c.aux.at(i), r.wd[i] = c.wd.at(i);
            cs.push_back(r);
        }
        mg::Mesh ms = s.m;
        ms.tri.clear();
        ms.eid.clear();
        for (auto i : ids)
            ms.tri.push_back(s.m.tri[eo.at(i)]), ms.eid.push_back(s.m.eid[eo.at(i)]);
        for (auto& kv : freq) {
            std::set<int> at;
            for (int k = 0; k <= n; k += kv.second)
                at.insert(k);
            thrice |= at.size() >= 3;
            if (kv.first == "modal") {
                static const char* v[] = {"ze", "qx", "qy", "bath"};
                for (int q = 0; q < 4; ++q) {
                    wanted.insert(nm + "_modal_" + v[q] + ".txt");
                    check_modal(sd + nm + "_modal_" + v[q] + ".txt", cs, at, q);
                }
                continue;
            }
            for (int k : at) {
                std::string f = nm + "_data_" + std::to_string(k) + "." + kv.first;
                wanted.insert(f);
                check_grid(sd + f, kv.first == "vtk" ? read_vtk(sd + f) : read_vtu(sd + f), cs[k], *S, ms, s.c.p, kv.first == "vtu", s.cs);
            }
            for (auto& f : there)  // helper files of the same format
                if (f.size() > 4 && f.substr(f.size() - 4) == "." + kv.first && f.find("_data_") == std::string::npos)
                    wanted.insert(f);
                else if (f == nm + "_raw_data." + kv.first)
                    wanted.insert(f);
        }
        if (log) {
            std::string f = "log_" + su + "_0";
            wanted.insert(f);
            std::ifstream lf(sd + f);
            std::stringstream ss;
            ss << lf.rdbuf();
            PCHECK(ss.str().find("p=" + std::to_string(s.c.p) + " ") != std::string::npos && ss.str().find(nm + " mesh") != std::string::npos, "log of submesh " << su << " does not name the run: " << ss.str());
            PCHECK(ss.str().find("Number of elements: " + std::to_string(ids.size()) + "\n") != std::string::npos, "log of submesh " << su << ": " << ss.str());
        }
        for (auto& f : there)
            PCHECK(wanted.count(f), "file " << sd << f << " was not asked for");
    }
    if (any)
        PCHECK(all.size() == s.m.tri.size(), all.size() << " elements of " << s.m.tri.size() << " in the submeshes");
    std::set<std::string> top;
    for (auto& f : listing(dir))
        top.insert(f);
    if (any)
        PCHECK(top == subs, "the output directory holds " << top.size() << " entries for " << subs.size() << " submeshes");
    if (nsub > 1 && freq.size() >= 2 && thrice)
        t.nontrivial();
    if (threads > 1 && nsub > 1)
        t.label("threads");
}
}
#endif

#if SEL(32)
LAWX(P32, breakdown_stops_all, PROBTAG, "a number breaks down in one of several elements", 40, 600) {
    reset_globals();
    if (!mpirun_works()) {
        t.label("no mpirun");
        t.discard();
    }
    ScnOpt o;
    o.Dlo = 20, o.Llo = 200;
    o.nmax = 3, o.p_max = 2;
    auto s = scenario(t, o);
    bool odd;
    s.c.dt /= 2;
    int n = whole_seconds(t, s, 3, odd);
    if (n > 15)
        t.discard();
    auto w = wave(t, s, 0.03, 0.02);
    use_ic(w);
    RunSpec r;
    memset((void*)&r, 0, sizeof r);
    r.f = Fields();
    for (int v = 0; v < 3; ++v) {
        r.f.A[v] = w.A[v], r.f.ph[v] = w.ph[v];
        for (int d = 0; d < 2; ++d)
            r.f.k[v][d] = w.k[v][d];
    }
    s.c.blocks += "  function_source: Enable\n";
    strcpy(r.input, "input_parallelized.15");
    int el    = t.i(0, (int)s.m.tri.size() - 1), at = t.i(0, n - 1);
    bool bad  = !t.chance(20);
    r.f.nv    = bad ? t.i(0, 2) : -1;
    r.f.nt    = (at + (KIND < 2 && s.c.nstages >= 2 && t.chance(50) ? t.r(0.05, 0.45) : -1e-6)) * s.c.dt;
    for (int k = 0; k < 3; ++k)
        for (int d = 0; d < 2; ++d)
            r.f.nx[k][d] = s.m.x[s.m.tri[el][k]][d];
    r.program = 1;
    r.threads = t.chance(30) ? 2 : 1;
    int np = t.i(1, 3), nparts = std::min<int>(np + t.i(0, 2), s.m.tri.size());
    np     = std::min(np, nparts);
    std::vector<idx_t> part;
    for (uint k = 0; k < s.m.tri.size(); ++k)
        part.push_back(k < (uint)nparts ? k : t.i(0, nparts - 1));
    PNOTE(np << " processes, " << nparts << " submeshes, " << (bad ? "variable " : "healthy ") << r.f.nv << " of element " << s.m.eid[el] << ", step " << at << " of " << n);
    clear(".meta"), clear(".dbmd");
    make<Prob>(s.m, s.c);
    graphs.clear();
    chooser = [&](int call, idx_t v, idx_t) -> idx_t { return call == 0 ? part.at(v) : v % np; };
    run_partitioner({"partitioner", "input.15", std::to_string(nparts), std::to_string(np)});
    int rc = launch_status(np, r, 60);
    if (WIFEXITED(rc) && (WEXITSTATUS(rc) == 124 || WEXITSTATUS(rc) == 137)) {
        t.label("slow");
        t.discard();
    }
    t.label(std::to_string(np) + " processes");
    if (!bad)
        PCHECK(rc == 0, "a healthy run ended with status " << rc);
    else {
        PCHECK(rc != 0, "the distributed run ended with status 0 although a number was lost");
        if (s.m.tri.size() > 1)
            t.nontrivial();
    }
}
#endif
