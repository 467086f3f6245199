// The quadrilateral mesh generator: what it writes is the mesh asked for, and the solver accepts it.
// Linked with --wrap=main: the program starts in the harness; the generator's main is called for each case.
int harness_main(int, char**) asm("__wrap_main");
int generator_main(int, const char**) asm("__real_main");
#define main harness_main
#include "sim.hpp"
#undef main
#define bathymetry_function verif_bathymetry
#include "mesh_generators/bathymetry.hpp"
#undef bathymetry_function

namespace {
using namespace sim;
struct Quiet {
    std::stringstream s;
    std::streambuf* o;
    Quiet() : o(std::cout.rdbuf(s.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(o); }
};
int generate(const std::string& f) {
    Quiet q;
    const char* a[] = {"quad_mesh_generator", f.c_str(), nullptr};
    return generator_main(2, a);
}
struct Ask {
    std::array<std::array<double, 2>, 4> p;
    uint m, n, pattern;
    std::array<std::string, 4> type;
    std::array<std::array<double, 3>, 4> con;
    std::string name;
    std::vector<std::string> skip;  // keys left out
    std::string bad;                // replaces the type of side 2
    bool three = false;             // only three sides described
    bool named = true;
    void write(const std::string& path, const std::vector<uint>& order) const {
        std::vector<std::string> l;
        auto add = [&](const std::string& k, const std::string& v) {
            if (std::find(skip.begin(), skip.end(), k) == skip.end())
                l.push_back(k + ": " + v + "\n");
        };
        auto num = [](double v) {
            std::ostringstream o;
            o << std::setprecision(17) << v;
            return o.str();
        };
        for (int k = 0; k < 4; ++k) {
            add("x" + std::to_string(k + 1), num(p[k][0]));
            add("y" + std::to_string(k + 1), num(p[k][1]));
        }
        add("num_x_subdivisions", std::to_string(m));
        add("num_y_subdivisions", std::to_string(n));
        add("pattern", std::to_string(pattern));
        std::string b = "\n";
        for (int k = 0; k < (three ? 3 : 4); ++k) {
            std::string ty = k == 2 && !bad.empty() ? bad : type[k];
            b += "  - type: " + ty + "\n";
            if (ty == "tide" || ty == "flow") {
                const char* nm[] = {"frequency", "forcing_factor", "equilibrium_argument"};
                for (int c = 0; c < 3; ++c)
                    if (std::find(skip.begin(), skip.end(), std::string(nm[c]) + std::to_string(k)) == skip.end())
                        b += std::string("    ") + nm[c] + ": " + num(con[k][c]) + "\n";
            }
        }
        add("boundary", b);
        if (named)
            add("mesh_name", name);
        std::ofstream f(path);
        for (uint k = 0; k < l.size(); ++k)
            f << l[order.empty() ? k : order[k] % l.size()];
    }
};
Ask ask(pbt::T& t, bool outflow) {
    Ask a;
    double L  = t.lg(0.1, 1e5), asp = t.lg(0.2, 5), an = t.r(0, 6.283), cx = t.s(3) * L, cy = t.s(3) * L;
    bool rect = t.chance(30);
    static const double X[] = {-1, 1, 1, -1}, Y[] = {-1, -1, 1, 1};
    for (int k = 0; k < 4; ++k) {
        double x = L * (X[k] + (rect ? 0 : t.s(0.4))), y = L * asp * (Y[k] + (rect ? 0 : t.s(0.4)));
        if (rect)
            a.p[k] = {cx + x, cy + y};
        else
            a.p[k] = {cx + std::cos(an) * x - std::sin(an) * y, cy + std::sin(an) * x + std::cos(an) * y};
    }
    a.m = t.i(1, 7), a.n = t.i(1, 7);
    a.pattern = t.i(0, 2);
    for (int k = 0; k < 4; ++k) {
        a.type[k] = t.pick({std::string("land"), std::string("tide"), std::string("flow"), std::string("function"),
                            std::string(outflow ? "outflow" : "land")});
        for (int c = 0; c < 3; ++c)
            a.con[k][c] = t.chance(10) ? 0.0 : t.s(c == 2 ? 360 : 1) * (t.b() ? 1 : 1e-4);
    }
    a.named = t.chance(80);
    a.name  = a.named ? "m" + std::to_string(t.i(0, 99)) : "quad_mesh";
    PNOTE(a.m << " x " << a.n << " pattern " << a.pattern << " sides " << a.type[0] << " " << a.type[1] << " " << a.type[2] << " " << a.type[3]
              << " size " << L);
    return a;
}
struct File14 {
    uint ne, nn;
    std::map<uint, std::array<double, 3>> x;
    std::map<uint, std::array<uint, 3>> e;
    std::vector<std::vector<uint>> open;
    std::vector<std::pair<int, std::vector<uint>>> land;
};
// an independent reader of the ADCIRC mesh format
File14 read14(const std::string& path) {
    std::ifstream f(path);
    PCHECK(f, "file " << path << " was not written");
    std::string l;
    File14 r;
    auto line = [&]() {
        PCHECK(bool(std::getline(f, l)), "the mesh file ends early");
        return std::istringstream(l);
    };
    line();
    PCHECK(bool(line() >> r.ne >> r.nn), "counts");
    for (uint k = 0; k < r.nn; ++k) {
        uint id;
        std::array<double, 3> q;
        PCHECK(bool(line() >> id >> q[0] >> q[1] >> q[2]), "node line " << l);
        PCHECK(r.x.emplace(id, q).second, "node " << id << " twice");
    }
    for (uint k = 0; k < r.ne; ++k) {
        uint id, ty;
        std::array<uint, 3> q;
        PCHECK(bool(line() >> id >> ty >> q[0] >> q[1] >> q[2]) && ty == 3, "element line " << l);
        PCHECK(r.e.emplace(id, q).second, "element " << id << " twice");
    }
    for (int kind = 0; kind < 3; ++kind) {
        uint nb, nt, sum = 0;
        PCHECK(bool(line() >> nb), "number of boundaries");
        PCHECK(bool(line() >> nt), "number of boundary nodes");
        for (uint b = 0; b < nb; ++b) {
            uint n;
            int ty = -1;
            auto s = line();
            PCHECK(bool(s >> n) && (kind != 1 || bool(s >> ty)), "boundary header " << l);
            std::vector<uint> v(n);
            for (auto& q : v)
                PCHECK(bool(line() >> q), "boundary node");
            sum += n;
            if (kind == 0)
                r.open.push_back(v);
            else
                r.land.emplace_back(ty, v);
        }
        PCHECK(sum == nt, "total number of boundary nodes " << nt << " but " << sum << " are listed");
    }
    return r;
}
}

#if SEL(22)
LAW(P22, generated_mesh, "more than one subdivision in each direction", 24000, 400000) {
    reset_globals();
    bool outflow = t.chance(40);
    auto a       = ask(t, outflow);
    std::vector<uint> order;
    if (t.b())
        order = t.perm(12 + a.named);
    a.write("gen.yml", order);
    unlink((a.name + ".14").c_str());
    unlink((a.name + ".bcis").c_str());
    PCHECK(generate("gen.yml") == 0, "exit status");
    if (a.m > 1 && a.n > 1)
        t.nontrivial();
    auto r = read14(a.name + ".14");
    t.label("pattern " + std::to_string(a.pattern));
    PCHECK(r.nn == (a.m + 1) * (a.n + 1) && r.ne == 2 * a.m * a.n, "counts " << r.nn << " " << r.ne);
    // nodes: the bilinear image of the lattice, each lattice point once
    double size = 0;
    for (auto& q : a.p)
        size = std::max({size, std::abs(q[0]), std::abs(q[1])});
    double tol = 1e-12 + 1e-14 * size;
    auto at    = [&](uint i, uint j) {
        double u = double(i) / a.m, v = double(j) / a.n;
        std::array<double, 2> q;
        for (int d = 0; d < 2; ++d)
            q[d] = (1 - u) * (1 - v) * a.p[0][d] + u * (1 - v) * a.p[1][d] + u * v * a.p[2][d] + (1 - u) * v * a.p[3][d];
        return q;
    };
    std::map<uint, std::pair<uint, uint>> ij;  // node to lattice point
    {
        double h = 1e300;
        for (uint i = 0; i < a.m; ++i)
            for (uint j = 0; j < a.n; ++j) {
                auto q = at(i, j), b = at(i + 1, j), c = at(i, j + 1);
                h = std::min({h, std::hypot(q[0] - b[0], q[1] - b[1]), std::hypot(q[0] - c[0], q[1] - c[1])});
            }
        if (h < 1e4 * tol)
            t.discard();
        std::set<std::pair<uint, uint>> used;
        for (auto& q : r.x) {
            double best = 1e300;
            std::pair<uint, uint> w;
            for (uint i = 0; i <= a.m; ++i)
                for (uint j = 0; j <= a.n; ++j) {
                    auto p   = at(i, j);
                    double d = std::max(std::abs(p[0] - q.second[0]), std::abs(p[1] - q.second[1]));
                    if (d < best)
                        best = d, w = {i, j};
                }
            PCHECK(best <= 4 * tol, "node " << q.first << " lies off the lattice by " << best);
            PCHECK(used.insert(w).second, "lattice point twice");
            PCHECK(std::abs(q.second[2] - verif_bathymetry(q.second[0], q.second[1])) <= 1e-11, "bathymetry of node " << q.first);
            ij[q.first] = w;
        }
    }
    // elements: counter-clockwise halves of lattice cells, two per cell, on the diagonal the pattern prescribes
    std::map<std::pair<uint, uint>, std::vector<int>> diag;
    std::map<std::pair<uint, uint>, uint> ed;
    for (auto& e : r.e) {
        std::array<std::array<double, 3>, 3> q;
        uint i0 = ~0u, j0 = ~0u, i1 = 0, j1 = 0;
        for (int k = 0; k < 3; ++k) {
            PCHECK(r.x.count(e.second[k]), "unknown node in element " << e.first);
            q[k]   = r.x.at(e.second[k]);
            auto w = ij[e.second[k]];
            i0 = std::min(i0, w.first), i1 = std::max(i1, w.first), j0 = std::min(j0, w.second), j1 = std::max(j1, w.second);
            PCHECK(ed.emplace(std::make_pair(e.second[k], e.second[(k + 1) % 3]), e.first).second, "an edge is run through twice in the same sense");
        }
        double ar = (q[1][0] - q[0][0]) * (q[2][1] - q[0][1]) - (q[2][0] - q[0][0]) * (q[1][1] - q[0][1]);
        PCHECK(ar > 0, "element " << e.first << " is not counter-clockwise");
        PCHECK(i1 == i0 + 1 && j1 == j0 + 1, "element " << e.first << " is not part of one cell");
        // the hypotenuse joins the two vertices that differ in both indices
        int d = 0;
        for (int k = 0; k < 3; ++k) {
            auto u = ij[e.second[k]], v = ij[e.second[(k + 1) % 3]];
            if (u.first != v.first && u.second != v.second)
                d = (u.first < v.first) == (u.second < v.second) ? 1 : -1;
        }
        diag[{i0, j0}].push_back(d);
    }
    PCHECK(diag.size() == a.m * a.n, "cells left out");
    for (auto& c : diag) {
        PCHECK(c.second.size() == 2 && c.second[0] == c.second[1], "a cell is not cut in two");
        int want = a.pattern == 0 ? 1 : a.pattern == 1 ? (c.first.second % 2 ? -1 : 1) : ((c.first.first + c.first.second) % 2 ? -1 : 1);
        PCHECK(c.second[0] == want, "diagonal of cell " << c.first.first << "," << c.first.second);
    }
    // sides
    std::set<int> left{0, 1, 2, 3};
    auto side = [&](const std::vector<uint>& v, const std::string& ty) {
        for (int s : left)
            if (a.type[s] == ty) {
                bool ok = v.size() == (s % 2 ? a.n : a.m) + 1;
                std::set<uint> pos;
                for (uint k = 0; ok && k < v.size(); ++k) {
                    if (!ij.count(v[k]))
                        ok = false;
                    else {
                        auto w = ij[v[k]];
                        ok     = s == 0 ? w.second == 0 : s == 1 ? w.first == a.m : s == 2 ? w.second == a.n : w.first == 0;
                        uint p = s % 2 ? w.second : w.first;
                        if (k > 0) {
                            auto o = ij[v[k - 1]];
                            ok     = ok && std::abs(int(p) - int(s % 2 ? o.second : o.first)) == 1;
                        }
                        pos.insert(p);
                    }
                }
                if (ok && pos.size() == v.size()) {
                    left.erase(s);
                    return s;
                }
            }
        return -1;
    };
    auto word = [](int ib) { return std::string(ib == 0 ? "land" : ib == 2 ? "flow" : ib == 77 ? "function" : ib == 88 ? "outflow" : "?"); };
    for (auto& v : r.open)
        PCHECK(side(v, "tide") >= 0, "an open boundary is no side asked for as tide");
    for (auto& v : r.land)
        PCHECK(side(v.second, word(v.first)) >= 0, "a boundary of type " << v.first << " is no side asked for as such");
    PCHECK(left.empty(), left.size() << " sides are not described");
    // forcing records
    std::ifstream bc(a.name + ".bcis");
    PCHECK(bool(bc), "no bcis file");
    left = {0, 1, 2, 3};
    int ty;
    while (bc >> ty) {
        uint n, nc;
        double c[3];
        PCHECK(ty == 1 || ty == 2, "record type " << ty);
        PCHECK(bool(bc >> n >> nc) && nc == 1, "record header");
        PCHECK(bool(bc >> c[0] >> c[1] >> c[2]), "constituent");
        std::vector<uint> v(n);
        for (auto& q : v) {
            double am, ph;
            PCHECK(bool(bc >> q >> am >> ph) && am == 1 && ph == 0, "amplitude and phase");
        }
        bool found = false;
        for (int s : std::set<int>(left)) {
            if (a.type[s] != (ty == 1 ? "tide" : "flow"))
                continue;
            bool same = true;
            for (int k = 0; k < 3; ++k)
                same = same && std::abs(a.con[s][k] - c[k]) <= 1e-5 * std::abs(a.con[s][k]);
            auto keep = left;
            left      = {s};
            bool pos  = side(v, a.type[s]) == s;
            left      = keep;
            if (same && pos) {
                left.erase(s);
                found = true;
                break;
            }
        }
        PCHECK(found, "a forcing record fits no side");
    }
    for (int s : left)
        PCHECK(a.type[s] != "tide" && a.type[s] != "flow", "side " << s << " has no forcing record");
    // the solver's readers
    AdcircFormat A(a.name + ".14");
    MeshMetaData M(A);
    PCHECK(M.elements.size() == r.ne && M.nodes.size() == r.nn, "the reader finds other counts");
    static const std::map<std::string, uint> code{{"land", 0}, {"tide", 1}, {"flow", 2}, {"function", 3}, {"outflow", 4}};
    uint nb = 0;
    for (auto& e : M.elements)
        for (int k = 0; k < 3; ++k) {
            uint u = e.second.node_ID[(k + 1) % 3], v = e.second.node_ID[(k + 2) % 3];
            if (e.second.boundary_type[k] == SWE::BoundaryTypes::internal)
                continue;
            ++nb;
            auto p = ij.at(u), q = ij.at(v);
            int s = p.second == 0 && q.second == 0 ? 0 : p.first == a.m && q.first == a.m ? 1 : p.second == a.n && q.second == a.n ? 2 : 3;
            PCHECK(e.second.boundary_type[k] == code.at(a.type[s]), "edge on side " << s << " read as type " << int(e.second.boundary_type[k]));
        }
    PCHECK(nb == 2 * (a.m + a.n), "boundary edges");
}
#endif

#if SEL(22)
LAW(P22, solver_runs_on_the_mesh, "a forced side", 3000, 40000) {
    reset_globals();
    auto a = ask(t, false);
    // forced sides that meet in a corner share a node with two meanings only if their forcing differs, see DESIGN.md
    a.named = true;
    a.name  = "mesh";
    int nf  = 0;
    for (int k = 0; k < 4; ++k) {
        if (a.type[k] == "tide" || a.type[k] == "flow")
            ++nf;
        for (int c = 0; c < 3; ++c)
            a.con[k][c] = c == 0 ? 0.001 : c == 1 ? t.r(0, 0.01) : 0;
        if (k && a.type[k] == a.type[0])
            a.con[k] = a.con[0];
    }
    for (int k = 1; k < 4; ++k)
        for (int q = 0; q < k; ++q)
            if (a.type[k] == a.type[q])
                a.con[k] = a.con[q];
    if (nf)
        t.nontrivial();
    a.write("gen.yml", {});
    PCHECK(generate("gen.yml") == 0, "exit status");
    Cfg c;
    c.p      = t.i(1, 2);
    double h = 1e300;
    {
        AdcircFormat A("mesh.14");
        for (auto& e : A.elements)
            for (int k = 1; k <= 3; ++k) {
                auto &p = A.nodes.at(e.second[k]), &q = A.nodes.at(e.second[k % 3 + 1]);
                h = std::min(h, std::hypot(p[0] - q[0], p[1] - q[1]));
            }
    }
    c.dt       = 0.02 * h / 5;
    c.run_time = std::max(10L, (long)std::ceil(100 * c.dt));
    c.write("input.15");
    auto S = std::make_unique<Sim<SWE::RKDG::Problem>>("input.15");
    S->prep();
    std::map<std::string, uint> want, got;
    for (int k = 0; k < 4; ++k)
        want[a.type[k]] += k % 2 ? a.n : a.m;
    S->d.mesh.CallForEachBoundary([&](auto& b) {
        using B = std::decay_t<decltype(b.boundary_condition)>;
        got[std::is_same<B, SWE::RKDG::BC::Land>::value       ? "land"
            : std::is_same<B, SWE::RKDG::BC::Tide>::value     ? "tide"
            : std::is_same<B, SWE::RKDG::BC::Flow>::value     ? "flow"
            : std::is_same<B, SWE::RKDG::BC::Function>::value ? "function"
                                                              : "?"]++;
    });
    PCHECK(want == got, "boundary conditions of the solver mesh");
    S->step();
    double area = 0, ref = 0;
    S->d.mesh.CallForEachElement([&](auto& e) {
        for (int v = 0; v < 3; ++v)
            PCHECK(std::isfinite(e.data.state[0].q(v, 0)), "state after a step");
        area += e.GetShape().GetArea();
    });
    for (int k = 0; k < 4; ++k)
        ref += 0.5 * (a.p[k][0] * a.p[(k + 1) % 4][1] - a.p[(k + 1) % 4][0] * a.p[k][1]);
    double size = 0;
    for (auto& q : a.p)
        size = std::max({size, std::abs(q[0]), std::abs(q[1])});
    PNEAR(area, ref, 1e-11 * size * size + 1e-10 * size * (a.m + a.n), "area");
}
#endif

#if SEL(22)
LAW(P22, defective_input_is_refused, "always (one defect per case)", 4000, 60000) {
    auto a = ask(t, true);
    t.nontrivial();
    int d = t.i(0, 4);
    if (d == 0) {
        static const char* k[] = {"x1", "y1", "x2", "y2", "x3", "y3", "x4", "y4", "num_x_subdivisions", "num_y_subdivisions", "pattern", "boundary"};
        a.skip.push_back(k[t.i(0, 11)]);
    } else if (d == 1)
        a.pattern = t.i(3, 200);
    else if (d == 2)
        a.three = true;
    else if (d == 3)
        a.bad = t.pick({std::string("wall"), std::string("Land"), std::string("tides"), std::string("1")});
    else {
        int k = t.i(0, 3);
        a.type[k] = t.b() ? "tide" : "flow";
        a.skip.push_back(t.pick({std::string("frequency"), std::string("forcing_factor"), std::string("equilibrium_argument")}) + std::to_string(k));
    }
    t.label("defect " + std::to_string(d));
    a.write("gen.yml", {});
    unlink((a.name + ".14").c_str());
    bool refused = false;
    try {
        generate("gen.yml");
    } catch (const std::exception&) {
        refused = true;
    }
    PCHECK(refused, "accepted");
    PCHECK(!std::ifstream(a.name + ".14"), "a mesh was written");
}
#endif
