// Laws over complete runs of the serial program class (construction, Run, ComputeL2Residual): files written and error reported.
#include "scenario.hpp"
#include "simulation/serial/simulation.hpp"
#include <dirent.h>

namespace {
struct Cap {  // what the run computed, per element identifier
    std::map<uint, DynMatrix<double>> q, aux;
    std::map<uint, std::pair<bool, bool>> wd;
    double time = 0;
};
template <typename S>
Cap capture(S& s) {
    Cap c;
    c.time = s.stepper.GetTimeAtCurrentStage();
    s.d.mesh.CallForEachElement([&](auto& e) {
        c.q[e.GetID()]   = e.data.state[0].q;
        c.aux[e.GetID()] = e.data.state[0].aux;
        c.wd[e.GetID()]  = {e.data.wet_dry_state.wet, e.data.wet_dry_state.went_completely_dry};
    });
    return c;
}
inline std::set<std::string> listing(const std::string& dir) {
    std::set<std::string> s;
    if (DIR* d = opendir(dir.c_str())) {
        while (dirent* e = readdir(d))
            if (std::string(e->d_name) != "." && std::string(e->d_name) != "..")
                s.insert(e->d_name);
        closedir(d);
    }
    return s;
}
// what a VTK or VTU file holds
struct Grid {
    std::vector<std::array<double, 3>> pt;
    std::vector<std::vector<long>> cell;
    std::vector<int> type;
    std::map<std::string, std::vector<double>> cd, pd;
};
inline Grid read_vtk(const std::string& path) {
    Grid g;
    std::ifstream f(path);
    PCHECK((bool)f, path << " is missing");
    std::string l, w;
    std::getline(f, l);
    PCHECK(l.compare(0, 14, "# vtk DataFile") == 0, path << ": no VTK header: " << l);
    std::getline(f, l);
    std::getline(f, l);
    PCHECK(l == "ASCII", path << ": " << l);
    std::map<std::string, std::vector<double>>* sec = nullptr;
    std::size_t n = 0;
    while (f >> w) {
        if (w == "DATASET") {
            f >> w;
            PCHECK(w == "UNSTRUCTURED_GRID", w);
        } else if (w == "POINTS") {
            f >> n >> w;
            g.pt.resize(n);
            for (auto& p : g.pt)
                f >> p[0] >> p[1] >> p[2];
        } else if (w == "CELLS") {
            std::size_t m, used = 0;
            f >> n >> m;
            g.cell.resize(n);
            for (auto& c : g.cell) {
                std::size_t k;
                f >> k;
                PCHECK(k < 20, path << ": cell of " << k << " points");
                c.resize(k);
                for (auto& v : c)
                    f >> v;
                used += k + 1;
            }
            PCHECK(used == m, path << ": " << used << " cell entries, announced " << m);
        } else if (w == "CELL_TYPES") {
            f >> n;
            g.type.resize(n);
            for (auto& c : g.type)
                f >> c;
        } else if (w == "CELL_DATA" || w == "POINT_DATA") {
            sec = w == "CELL_DATA" ? &g.cd : &g.pd;
            f >> n;
        } else if (w == "SCALARS") {
            std::string name;
            f >> name;
            std::getline(f, l);
            std::getline(f, l);
            PCHECK(l == "LOOKUP_TABLE default", path << ": " << l);
            PCHECK(sec && !sec->count(name), path << ": data " << name << " twice or outside of a section");
            auto& v = (*sec)[name];
            v.resize(n);
            for (auto& x : v) {
                PCHECK((bool)(f >> w), path << " ends inside of " << name);
                x = std::strtod(w.c_str(), nullptr);
            }
        } else
            PCHECK(false, path << ": unexpected " << w);
        PCHECK((bool)f, path << " is incomplete");
    }
    return g;
}
inline Grid read_vtu(const std::string& path) {
    Grid g;
    std::ifstream f(path);
    PCHECK((bool)f, path << " is missing");
    std::stringstream ss;
    ss << f.rdbuf();
    std::string s = ss.str();
    PCHECK(s.compare(0, 14, "<?xml version=") == 0, path << " has no XML header");
    // a minimal XML reader: tags balanced, attributes, text of DataArray
    std::vector<std::string> open;
    std::size_t k = 0, np = 0, nc = 0;
    std::vector<long> conn, off;
    auto attr = [&](const std::string& tag, const std::string& a) {
        auto p = tag.find(" " + a + "=\"");
        if (p == std::string::npos)
            return std::string();
        p += a.size() + 3;
        return tag.substr(p, tag.find('"', p) - p);
    };
    while ((k = s.find('<', k)) != std::string::npos) {
        auto e = s.find('>', k);
        PCHECK(e != std::string::npos, path << ": unfinished tag");
        std::string tag = s.substr(k + 1, e - k - 1);
        k = e + 1;
        if (tag[0] == '?')
            continue;
        if (tag[0] == '/') {
            PCHECK(!open.empty() && open.back() == tag.substr(1), path << ": </" << tag.substr(1) << "> does not close a tag");
            open.pop_back();
            continue;
        }
        std::string name = tag.substr(0, tag.find(' '));
        std::string in   = open.empty() ? "" : open.back();
        open.push_back(name);
        if (name == "Piece") {
            np = std::stoul(attr(tag, "NumberOfPoints"));
            nc = std::stoul(attr(tag, "NumberOfCells"));
        } else if (name == "DataArray") {
            std::stringstream t(s.substr(k, s.find('<', k) - k));
            std::vector<double> v;
            std::string w;
            while (t >> w)
                v.push_back(std::strtod(w.c_str(), nullptr));
            std::string id = attr(tag, "Name");
            if (in == "Points") {
                PCHECK(v.size() == 3 * np, path << ": " << v.size() << " coordinates for " << np << " points");
                for (std::size_t i = 0; i < np; ++i)
                    g.pt.push_back({v[3 * i], v[3 * i + 1], v[3 * i + 2]});
            } else if (in == "Cells") {
                if (id == "connectivity")
                    conn.assign(v.begin(), v.end());
                else if (id == "offsets")
                    off.assign(v.begin(), v.end());
                else if (id == "types")
                    g.type.assign(v.begin(), v.end());
            } else if (in == "PointData" || in == "CellData") {
                auto& sec = in == "CellData" ? g.cd : g.pd;
                PCHECK(!sec.count(id), path << ": " << id << " twice");
                PCHECK(v.size() == (in == "CellData" ? nc : np), path << ": " << v.size() << " values of " << id);
                sec[id] = v;
            }
        }
    }
    PCHECK(open.empty(), path << ": " << open.size() << " tags not closed");
    PCHECK(off.size() == nc && g.type.size() == nc, path << ": numbers of cells");
    long b = 0;
    for (long o : off) {
        PCHECK(o > b && o <= (long)conn.size(), path << ": offsets");
        g.cell.emplace_back(conn.begin() + b, conn.begin() + o);
        b = o;
    }
    PCHECK(b == (long)conn.size(), path << ": connectivity longer than the offsets say");
    return g;
}
double noise = 0;  // by which the run that wrote the files may differ from the captured one
inline bool is(double got, double want, double scale, double rel) { return std::abs(got - want) <= rel * std::abs(want) + 1e-12 * scale + noise + 1e-37; }

template <typename S>
void check_grid(const std::string& path, const Grid& g, const Cap& c, S& sim, const mg::Mesh& m, uint p, bool velocity, double cs) {
    std::size_t E = m.tri.size();
    PCHECK(g.cell.size() % E == 0 && !g.cell.empty(), path << ": " << g.cell.size() << " cells for " << E << " elements");
    std::size_t C = g.cell.size() / E;
    int n = (int)std::lround(std::sqrt((double)C));
    PCHECK((std::size_t)(n * n) == C, path << ": " << C << " cells per element");
    std::size_t NP = (n + 1) * (n + 2) / 2;
    PCHECK(g.pt.size() == NP * E, path << ": " << g.pt.size() << " points");
    for (int t : g.type)
        PCHECK(t == 5, path << ": cell type " << t);
    for (auto nm : {"ze", "qx", "qy", "bath"}) {
        PCHECK(g.cd.count(std::string(nm) + "_cell") && g.cd.at(std::string(nm) + "_cell").size() == g.cell.size(), path << ": " << nm << "_cell");
        PCHECK(g.pd.count(std::string(nm) + "_point") && g.pd.at(std::string(nm) + "_point").size() == g.pt.size(), path << ": " << nm << "_point");
    }
    for (auto nm : {"ID", "wet_dry", "went_completely_dry"})
        PCHECK(g.cd.count(nm) && g.cd.at(nm).size() == g.cell.size(), path << ": " << nm);
    auto eo = m.elt_of();
    auto& L = lattice(n);
    auto phi = phi_at(p, L.z);
    std::map<uint, std::array<std::array<double, 2>, 3>> nodal;
    sim.d.mesh.CallForEachElement([&](auto& e) {
        for (int v = 0; v < 3; ++v)
            nodal[e.GetID()][v] = {e.GetShape().nodal_coordinates[v][0], e.GetShape().nodal_coordinates[v][1]};
    });
    double cmax = 0;
    for (auto& x : m.x)
        cmax = std::max({cmax, std::abs(x[0]), std::abs(x[1])});
    std::set<uint> seen;
    std::vector<int> used(g.pt.size(), 0);
    std::map<uint, std::vector<std::size_t>> cells;
    for (std::size_t k = 0; k < g.cell.size(); ++k)
        cells[(uint)g.cd.at("ID")[k]].push_back(k);
    PCHECK(cells.size() == E, path << ": cells of " << cells.size() << " elements of " << E);
    for (auto& kv : cells) {
        uint id = kv.first;
        PCHECK(eo.count(id), path << ": unknown element " << id);
        PCHECK(kv.second.size() == C, path << ": " << kv.second.size() << " cells of element " << id);
        auto& nc = nodal[id];
        DynMatrix<double> u = c.q.at(id) * phi, a = c.aux.at(id) * phi;
        std::array<double, 3> sc{{0, 0, 0}};
        double asc = 0;
        for (int v = 0; v < 3; ++v)
            for (int i = 0; i < u.cols(); ++i)
                sc[v] = std::max(sc[v], std::abs(u(v, i)));
        for (int v = 0; v < 3; ++v)
            for (int i = 0; i < c.q.at(id).cols(); ++i)
                sc[v] = std::max(sc[v], std::abs(c.q.at(id)(v, i)));
        for (int v = 0; v < 3; ++v)
            asc = std::max(asc, std::abs(m.x[m.tri[eo.at(id)][v]][2]));
        std::set<std::set<int>> seenc;
        for (auto k : kv.second) {
            auto& cl = g.cell[k];
            PCHECK(cl.size() == 3, path << ": cell of " << cl.size() << " points");
            std::set<int> lp;
            std::array<int, 3> wsum{{0, 0, 0}};
            std::array<std::array<int, 3>, 3> w;
            for (int v = 0; v < 3; ++v) {
                long pt = cl[v];
                PCHECK(pt >= 0 && pt < (long)g.pt.size(), path << ": point " << pt);
                // lattice point of the element at this position
                int best = -1;
                double bd = 1e300;
                for (uint i = 0; i < L.w.size(); ++i) {
                    double x = 0, y = 0;
                    for (int q = 0; q < 3; ++q)
                        x += L.w[i][q] * nc[q][0] / n, y += L.w[i][q] * nc[q][1] / n;
                    double d = std::max(std::abs(x - g.pt[pt][0]), std::abs(y - g.pt[pt][1]));
                    if (d < bd)
                        bd = d, best = i;
                }
                PCHECK(bd <= 1e-5 * cmax, path << ": element " << id << " has no point at (" << g.pt[pt][0] << "," << g.pt[pt][1] << ")");
                PCHECK(g.pt[pt][2] == 0, path << ": third coordinate");
                used[pt] = 1;
                lp.insert(best);
                w[v] = L.w[best];
                for (int q = 0; q < 3; ++q)
                    wsum[q] += w[v][q];
                double got[4] = {g.pd.at("ze_point")[pt], g.pd.at("qx_point")[pt], g.pd.at("qy_point")[pt], g.pd.at("bath_point")[pt]};
                for (int q = 0; q < 3; ++q)
                    PCHECK(is(got[q], u(q, best), sc[q], 1e-5), path << ": variable " << q << " at a point of element " << id << ": " << got[q] << ", computed " << u(q, best));
                PCHECK(is(got[3], a(0, best), asc, 1e-5), path << ": bathymetry at a point of element " << id << ": " << got[3] << ", computed " << a(0, best));
                double zb = 0;
                for (int q = 0; q < 3; ++q) {
                    // vertex q of the solver's element, found by its position in the mesh file
                    int bq = -1;
                    double dd = 1e300;
                    for (int r = 0; r < 3; ++r) {
                        auto& X = m.x[m.tri[eo.at(id)][r]];
                        double d = std::hypot(X[0] - nc[q][0], X[1] - nc[q][1]);
                        if (d < dd)
                            dd = d, bq = r;
                    }
                    zb += m.x[m.tri[eo.at(id)][bq]][2] * L.w[best][q] / n;
                }
                PCHECK(is(got[3], zb, 10 * asc, 1e-5), path << ": bathymetry at a point of element " << id << ": " << got[3] << ", mesh file " << zb);
                if (velocity) {
                    PCHECK(g.pd.count("velocity_point"), path << ": no velocity");
                    double h = u(0, best) + a(0, best), want = std::hypot(u(1, best), u(2, best)) / h;
                    if (h > 1e-6 * asc)
                        PCHECK(is(g.pd.at("velocity_point")[pt], want, cs, 1e-5), path << ": velocity " << g.pd.at("velocity_point")[pt] << ", computed " << want);
                }
            }
            PCHECK(lp.size() == 3, path << ": degenerate cell of element " << id);
            int det = (w[1][0] - w[0][0]) * (w[2][1] - w[0][1]) - (w[2][0] - w[0][0]) * (w[1][1] - w[0][1]);
            PCHECK(std::abs(det) == 1, path << ": a cell of element " << id << " covers " << det << " small triangles");
            PCHECK(seenc.insert(lp).second, path << ": cell twice");
            double z1 = 0, z2 = 0;  // centroid
            for (int i : lp)
                z1 += L.z[i][0] / 3, z2 += L.z[i][1] / 3;
            auto ph = phi_at(p, {{{z1, z2}}});
            DynMatrix<double> uc = c.q.at(id) * ph, ac = c.aux.at(id) * ph;
            double got[4] = {g.cd.at("ze_cell")[k], g.cd.at("qx_cell")[k], g.cd.at("qy_cell")[k], g.cd.at("bath_cell")[k]};
            for (int q = 0; q < 3; ++q)
                PCHECK(is(got[q], uc(q, 0), sc[q], 1e-5), path << ": variable " << q << " in a cell of element " << id << ": " << got[q] << ", computed " << uc(q, 0));
            PCHECK(is(got[3], ac(0, 0), asc, 1e-5), path << ": bathymetry in a cell of element " << id << ": " << got[3] << ", computed " << ac(0, 0));
            PCHECK((g.cd.at("wet_dry")[k] != 0) == c.wd.at(id).first, path << ": wet flag of element " << id);
            PCHECK((g.cd.at("went_completely_dry")[k] != 0) == c.wd.at(id).second, path << ": flag of element " << id << " having fallen dry");
        }
    }
    for (int x : used)
        PCHECK(x, path << ": a point belongs to no cell");
}
inline void check_modal(const std::string& path, const std::vector<Cap>& caps, const std::set<int>& at, int var) {
    std::ifstream f(path);
    PCHECK((bool)f, path << " is missing");
    std::string l;
    for (int k : at) {
        auto& c = caps[k];
        PCHECK((bool)std::getline(f, l), path << " ends before step " << k);
        PCHECK(l.find(' ') == std::string::npos && std::abs(std::strtod(l.c_str(), nullptr) - c.time) <= 1e-6 + 1e-9 * c.time, path << ": time '" << l << "', expected " << c.time);
        std::set<uint> seen;
        for (std::size_t e = 0; e < c.q.size(); ++e) {
            uint id = 0;
            uint nd = c.q.begin()->second.cols();
            for (uint dof = 0; dof < nd; ++dof) {
                PCHECK((bool)std::getline(f, l), path << " ends within step " << k);
                std::stringstream s(l);
                uint i;
                std::string w;
                s >> i >> w;
                PCHECK((bool)s, path << ": '" << l << "'");
                if (dof == 0) {
                    id = i;
                    PCHECK(c.q.count(id) && seen.insert(id).second, path << ": element " << id << " unknown or twice");
                }
                PCHECK(i == id, path << ": element " << i << " among the coefficients of " << id);
                double want = var < 3 ? c.q.at(id)(var, dof) : c.aux.at(id)(0, dof), got = std::strtod(w.c_str(), nullptr);
                PCHECK(is(got, want, 0, 1e-6), path << ": step " << k << ", coefficient " << dof << " of element " << id << ": " << got << ", computed " << want);
            }
        }
    }
    PCHECK(!std::getline(f, l), path << ": more than the requested outputs: " << l);
}
// choose time step and duration such that a run of a few steps lasts a whole number of seconds
inline int whole_seconds(pbt::T& t, Scn& s, int nmax, bool& odd) {
    int n0  = t.i(1, nmax);
    long R  = std::max(1L, (long)std::floor(n0 * s.c.dt));
    int n   = (int)std::ceil(R / s.c.dt);
    if (n > 40)
        t.discard();
    odd = t.chance(25) && n > 1;
    double dt = odd ? R / (n - t.r(0.2, 0.8)) : (double)R / n;
    s.c.dt       = dt;
    s.c.run_time = R;
    return n;
}
}

// ---------------------------------------------------------------------------------------------------------
#if SEL(21) && !defined(VERIF_DISTRIBUTED_OUTPUT)
LAWX(P21, output_files, PROBTAG, "at least two kinds of output, one of them more than twice, of at least two elements", KIND >= 2 ? 600 : 2400, KIND >= 2 ? 9000 : 40000) {
    reset_globals();
    ScnOpt o;
    o.Dlo   = 5;
    o.nmax  = 3;
    o.p_max = 3;
    if (KIND == 3)
        o.p_max = 2, o.zlo = t.r(0.6, 1), o.Llo = 8;
    else if (KIND != 2 && t.chance(40))
        o.zlo = -0.5, o.p_max = 1, o.cfl_hi = 0.15;
    auto s = scenario(t, o);
    if (s.m.tri.size() > 40)
        t.discard();
    bool odd;
    s.c.dt /= 2;  // stays stable if the last step is cut short by rounding the duration
    int n = whole_seconds(t, s, 8, odd);
    auto w = wave(t, s, 0.1, 0.1);
    use_ic(w);
    if (o.zlo < 0) {
        s.c.blocks += "  wetting_drying:\n    h_o: " + rd(s.D * 0.01) + "\n";
        t.label("wetting and drying");
    }
    static const char* names[] = {"mesh", "a", "Bay_of_x", "grid-2.v1"};
    s.m.name = names[t.i(0, 3)];
    static const char* paths[] = {"out", "out/", "./results/", "r.1"};
    std::string path = paths[t.i(0, 3)];
    std::string dir  = path.back() == '/' ? path : path + "/";
    int earlier = t.chance(30) ? 1 : 0;  // an earlier run of the same name left its files
    std::vector<Cap> caps;
    for (int run = -earlier; run <= 0; ++run) {
        std::map<std::string, int> freq;
        std::string out = "output:\n  path: " + path + "\n";
        bool log = t.chance(50), verbose = t.b();
        int logn = t.i(0, 2);
        static const char* logs[] = {"log", "run.log", "x"};
        if (log)
            out += std::string("  logfile:\n    name: ") + logs[logn] + "\n    verbose: " + (verbose ? "true" : "false") + "\n";
        for (auto k : {"vtk", "vtu", "modal"})
            if (t.chance(65)) {
                int f = t.chance(20) ? t.i(1, n + 3) : t.i(1, std::max(1, n / 2));
                double v = t.chance(25) ? (f - t.r(0.1, 0.9)) * s.c.dt : f * s.c.dt;
                freq[k] = f;
                out += std::string("  ") + k + ":\n    frequency: " + rd(v) + "\n";
            }
        s.c.output = out;
        PNOTE(out << "steps " << n << " duration " << s.c.run_time << " dt " << rd(s.c.dt));
        std::set<std::string> before = listing(dir);
        auto S = make<Prob>(s.m, s.c);
        {
            Serial::Simulation<Prob> prog("input.15");
            prog.Run();
            prog.Finalize();
        }
        if (run < 0) {
            t.label("earlier run");
            continue;
        }
        S->prep();
        caps.push_back(capture(*S));
        for (int k = 1; k <= n; ++k) {
            S->d.mesh.CallForEachElement([](auto&) {});
            // the capturing run writes nothing
            S->writer = typename Prob::ProblemWriterType();
            S->step();
            caps.push_back(capture(*S));
        }
        std::set<std::string> want = before;
        bool thrice = false;
        for (auto& kv : freq) {
            std::set<int> at;
            for (int k = 0; k <= n; k += kv.second)
                at.insert(k);
            thrice |= at.size() >= 3;
            if (kv.first == "modal") {
                static const char* v[] = {"ze", "qx", "qy", "bath"};
                for (int q = 0; q < 4; ++q) {
                    std::string f = s.m.name + "_modal_" + v[q] + ".txt";
                    want.insert(f);
                    check_modal(dir + f, caps, at, q);
                }
                continue;
            }
            for (int k : at) {
                std::string f = s.m.name + "_data_" + std::to_string(k) + "." + kv.first;
                want.insert(f);
                check_grid(dir + f, kv.first == "vtk" ? read_vtk(dir + f) : read_vtu(dir + f), caps[k], *S, s.m, s.c.p, kv.first == "vtu", s.cs);
            }
            for (auto& f : listing(dir))  // helper files of the same format
                if (f.size() > 4 && f.substr(f.size() - 4) == "." + kv.first && f.find("_data_") == std::string::npos)
                    want.insert(f);
                else if (f == s.m.name + "_raw_data." + kv.first)
                    want.insert(f);
        }
        if (log) {
            std::string f = std::string(logs[logn]) + "_0";
            want.insert(f);
            std::ifstream lf(dir + f);
            std::stringstream ss;
            ss << lf.rdbuf();
            PCHECK(ss.str().find("p=" + std::to_string(s.c.p) + " ") != std::string::npos && ss.str().find(s.m.name + " mesh") != std::string::npos, "log does not name the run: " << ss.str());
            PCHECK(ss.str().find("Number of elements: " + std::to_string(s.m.tri.size()) + "\n") != std::string::npos, "log: " << ss.str());
        }
        for (auto& f : listing(dir))
            PCHECK(want.count(f), "file " << f << " was not asked for");
        if (freq.size() >= 2 && thrice && s.m.tri.size() > 1)
            t.nontrivial();
    }
}
#endif

// ---------------------------------------------------------------------------------------------------------
namespace {
// runs the program class with its report captured
template <typename P>
double reported_error() {
    Serial::Simulation<P> prog("input.15");
    prog.Run();
    std::stringstream ss;
    auto* old = std::cout.rdbuf(ss.rdbuf());
    prog.ComputeL2Residual();
    std::cout.rdbuf(old);
    prog.Finalize();
    std::string r = ss.str();
    auto p = r.find("L2 error: ");
    PCHECK(p != std::string::npos, "no error reported: " << r);
    return std::strtod(r.c_str() + p + 10, nullptr);
}
// the harness' own L2 distance of a captured state to a function, on the generator's mesh
template <typename S, typename F>
double l2err(S& sim, const mg::Mesh& m, uint p, const F& f, uint deg, double wze = 1) {
    std::vector<std::array<double, 2>> pts;
    std::vector<double> w;
    oracle::triangle_rule(deg, pts, w);
    auto phi = phi_at(p, pts);
    auto eo  = m.elt_of();
    long double sum = 0;
    sim.d.mesh.CallForEachElement([&](auto& e) {
        DynMatrix<double> u = e.data.state[0].q * phi;
        auto& nc = e.GetShape().nodal_coordinates;
        double A = m.area(eo.at(e.GetID()));
        for (uint k = 0; k < w.size(); ++k) {
            double l1 = (1 + pts[k][0]) / 2, l2 = (1 + pts[k][1]) / 2, l0 = 1 - l1 - l2;
            auto v = f(l0 * nc[0][0] + l1 * nc[1][0] + l2 * nc[2][0], l0 * nc[0][1] + l1 * nc[1][1] + l2 * nc[2][1]);
            for (int q = 0; q < 3; ++q)
                sum += (long double)(v[q] - u(q, k)) * (v[q] - u(q, k)) * w[k] * A / 2 * (q ? 1 : wze * wze);
        }
    });
    return (double)std::sqrt(sum);
}
// an exact solution: three travelling waves over a linear bottom, kept up by the source
struct Exact {
    double g, Cf, b0, bx, by;
    double A[3], k[3][2], om[3], ph[3], m[3];
    double arg(int v, double t, double x, double y) const { return k[v][0] * x + k[v][1] * y - om[v] * t + ph[v]; }
    std::array<double, 3> u(double t, double x, double y) const {
        std::array<double, 3> r;
        for (int v = 0; v < 3; ++v)
            r[v] = m[v] + A[v] * std::sin(arg(v, t, x, y));
        return r;
    }
    double b(double x, double y) const { return b0 + bx * x + by * y; }
    std::array<double, 3> source(double t, double x, double y) const {
        auto q = u(t, x, y);
        double dt[3], dx[3], dy[3];
        for (int v = 0; v < 3; ++v) {
            double c = A[v] * std::cos(arg(v, t, x, y));
            dt[v] = -om[v] * c;
            dx[v] = k[v][0] * c;
            dy[v] = k[v][1] * c;
        }
        double H = q[0] + b(x, y), Hx = dx[0] + bx, Hy = dy[0] + by;
        std::array<double, 3> s;
        s[0] = dt[0] + dx[1] + dy[2];
        double fr = Cf * std::hypot(q[1], q[2]) / (H * H);
        // d(qx^2/H)/dx + d(qx qy/H)/dy + g H ze_x + friction
        s[1] = dt[1] + 2 * q[1] * dx[1] / H - q[1] * q[1] * Hx / (H * H) + (dy[1] * q[2] + q[1] * dy[2]) / H - q[1] * q[2] * Hy / (H * H) + g * H * dx[0] + fr * q[1];
        s[2] = dt[2] + 2 * q[2] * dy[2] / H - q[2] * q[2] * Hy / (H * H) + (dx[1] * q[2] + q[1] * dx[2]) / H - q[1] * q[2] * Hx / (H * H) + g * H * dy[0] + fr * q[2];
        return s;
    }
};
}

#if SEL(20) && !defined(VERIF_DISTRIBUTED_OUTPUT)
LAWX(P20, reported_error, PROBTAG, "at least two elements and a solution that changes in time", KIND == 2 ? 500 : 2000, KIND == 2 ? 9000 : 40000) {
    reset_globals();
    ScnOpt o;
    o.Dlo  = 5;
    o.nmax = 2;
    auto s = scenario(t, o);
    bool odd;
    s.c.dt /= 2;
    int n  = whole_seconds(t, s, 4, odd);
    auto w = wave(t, s, 0.1, 0.1);
    use_ic(w);
    // a polynomial of degree up to 4, so that every sufficient rule gives the same
    double c[3][15], tc = t.chance(60) ? t.s(1) : 0;
    int deg = t.i(0, 4);
    double xc = s.m.x[0][0], yc = s.m.x[0][1];
    for (int v = 0; v < 3; ++v)
        for (int k = 0; k < 15; ++k)
            c[v][k] = t.s(1) * s.D * (v ? s.cs : 1);
    auto f = [&](double time, double x, double y) {
        std::array<double, 3> r{{0, 0, 0}};
        double X = (x - xc) / s.L, Y = (y - yc) / s.L;
        for (int v = 0; v < 3; ++v) {
            int k = 0;
            for (int a = 0; a <= deg; ++a)
                for (int b = 0; a + b <= deg; ++b)
                    r[v] += c[v][k++] * std::pow(X, a) * std::pow(Y, b) * (1 + tc * time);
        }
        return r;
    };
    hook::true_q() = [&](double time, const Point<2>& p) {
        auto r = f(time, p[0], p[1]);
        return StatVector<double, 3>{r[0], r[1], r[2]};
    };
    auto S = make<Prob>(s.m, s.c);
    double got = reported_error<Prob>();
    S->prep();
    for (int k = 0; k < n; ++k)
        S->step();
    double T = n * s.c.dt;
    double want = l2err(*S, s.m, s.c.p, [&](double x, double y) { return f(T, x, y); }, 12);
    PNEAR(got, want, 1e-8 * want, "reported error after " << n << " steps, time " << T);
    if (s.m.tri.size() > 1 && tc != 0)
        t.nontrivial();
}
#endif

#if SEL(20) && !defined(VERIF_DISTRIBUTED_OUTPUT)
LAWX(P20, convergence, PROBTAG, "always (three nested meshes)", KIND == 2 ? 40 : 160, KIND == 2 ? 700 : 3000) {
    reset_globals();
    ScnOpt o;
    o.Dlo       = 5;
    o.nmax      = 2;
    o.bath      = 0;
    o.numbering = false;
    o.kinds     = {mg::FUNC};
    o.holes     = false;
    o.aspect    = 1.5;
    o.p_max     = KIND == 2 ? 1 : 2;
    auto s = scenario(t, o);
    if (s.m.tri.size() > 8)
        t.discard();
    auto& m = s.m;
    double L = s.L;
    if (KIND == 2)
        s.c.order = 2;
    else
        s.c.order = 3, s.c.nstages = t.i(3, 5);
    Exact ex;
    ex.g  = s.c.g;
    ex.Cf = t.chance(50) ? t.r(0, 0.05) : 0;
    ex.b0 = s.D;
    double th = t.r(0, 6.28), sl = t.r(0, 0.1) * s.D / L;
    double x0 = m.x[0][0], y0 = m.x[0][1];
    ex.bx = sl * std::cos(th), ex.by = sl * std::sin(th);
    ex.b0 -= ex.bx * x0 + ex.by * y0;
    double R = 0;
    for (auto& X : m.x) {
        X[2] = ex.b(X[0], X[1]);
        R = std::max(R, std::hypot(X[0] - x0, X[1] - y0));
    }
    for (int v = 0; v < 3; ++v) {
        double a = t.r(0, 6.28), kk = t.r(0.5, 1.0) * 2 / R;
        ex.A[v] = t.r(0.05, 0.2) * (v ? 0.5 * s.D * s.cs : s.D);
        ex.k[v][0] = kk * std::cos(a), ex.k[v][1] = kk * std::sin(a);
        ex.om[v] = t.s(1) * s.cs / R;
        ex.ph[v] = t.r(0, 6.28);
        ex.ph[v] -= ex.k[v][0] * x0 + ex.k[v][1] * y0;
    }
    ex.m[0] = ex.m[1] = ex.m[2] = 0;
    if (KIND == 2 || t.chance(50)) {  // a mean flow
        double a = t.r(0, 6.28), fr = 0.5 * s.D * s.cs;
        if (KIND == 2) {
            // across every side: where the flow through a boundary vanishes, the trace equations of the implicit scheme
            // leave the tangential flow undetermined and its Newton iteration may fail (see DESIGN.md)
            double best = 0;
            for (int k = 0; k < 64; ++k) {
                double b = k * M_PI / 32, w = 1;
                for (auto& sg : m.seg)
                    for (uint i = 0; i + 1 < sg.n.size(); ++i) {
                        auto &P = m.x[sg.n[i]], &Q = m.x[sg.n[i + 1]];
                        w = std::min(w, std::abs((Q[1] - P[1]) * std::cos(b) - (Q[0] - P[0]) * std::sin(b)) / std::hypot(Q[0] - P[0], Q[1] - P[1]));
                    }
                if (w > best)
                    best = w, a = b;
            }
            if (best < 0.2)
                t.discard();
            for (int v = 1; v < 3; ++v)
                ex.A[v] *= 0.3 * best;
        }
        ex.m[1] = fr * std::cos(a), ex.m[2] = fr * std::sin(a);
    }
    if (ex.Cf > 0)
        s.c.blocks += "  bottom_friction:\n    type: Chezy\n    coefficient: " + rd(ex.Cf) + "\n";
    s.c.blocks += "  function_source: Enable\n";
    auto SV = [](const std::array<double, 3>& r) { return StatVector<double, 3>{r[0], r[1], r[2]}; };
    hook::ic_q()     = [&](double time, const Point<2>& p) { return SV(ex.u(time, p[0], p[1])); };
    hook::source_q() = [&](double time, const Point<2>& p) { return SV(ex.source(time, p[0], p[1])); };
    double T = 0.25 * R / s.cs;
    double e[3];
    mg::Mesh mm = m;
    for (int l = 0; l < 3; ++l) {
        double h  = mm.hmin();
        int steps = KIND == 2 ? 2 << l : (int)std::ceil(T / (0.15 * h / ((2 * s.c.p + 1) * s.cs * 1.5)));
        if (steps > 400)
            t.discard();
        s.c.dt       = T / steps;
        s.c.run_time = std::max(1L, (long)std::ceil(2 * T));
        auto S = make<Prob>(mm, s.c);
        S->prep();
        for (int k = 0; k < steps; ++k)
            S->step();
        e[l] = l2err(*S, mm, s.c.p, [&](double x, double y) { return ex.u(T, x, y); }, 10, s.cs);
        if (l < 2)
            mm = mg::refine(mm);
    }
    double r1 = std::log2(e[0] / e[1]), r2 = std::log2(e[1] / e[2]);
    PNOTE("errors " << e[0] << " " << e[1] << " " << e[2] << ", rates " << r1 << " " << r2 << ", p " << s.c.p);
    if (getenv("VERIF_RATES"))
        std::cerr << "RATE p" << s.c.p << " " << r1 << " " << r2 << "\n";
    PCHECK(r2 > s.c.p + 0.3, "error " << e[1] << " on the mesh, " << e[2] << " on its refinement: order " << r2 << " for polynomials of degree " << s.c.p);
    t.nontrivial();
}
#endif
