// The partitioner: whole program, in process.
int harness_main(int, char**) asm("__wrap_main");
int partitioner_main(int, char**) asm("__real_main");
#define main harness_main
#include "sim.hpp"
#undef main
#include "part.hpp"
namespace {
using namespace pbt;

#if SEL(18)
LAW(P18, split_mesh, "at least two non-empty parts and an edge cut", 9000, 120000) {
    mg::Opts o;
    o.nx_max = 4, o.ny_max = 4;
    o.numbering = true, o.levee = 40, o.holes = 30;
    o.kinds    = {mg::LAND, mg::ISLAND, mg::TIDE, mg::FLOW, mg::FUNC};
    mg::Mesh m = mg::gen(t, o);
    for (auto& s : m.seg)
        if (s.kind == mg::LEVEE)
            for (uint k = 0; k < s.n.size(); ++k)
                s.H.push_back(1), s.Csub.push_back(1), s.Csup.push_back(1);
        else if (s.kind == mg::TIDE || s.kind == mg::FLOW)
            mg::gen_forcing(t, s, 1, 1e-3);
    sim::Cfg c;
    c.p       = t.i(1, 4);
    c.dt      = t.pick({0.5, 1., 0.125});
    c.problem = t.pick<std::string>({"rkdg_swe", "ehdg_swe", "swe", "ihdg_swe"});
    if (t.chance(33))
        c.ramp = t.pick({0.5, 2.});
    bool constant = t.b();
    c.ic          = constant ? "Constant" : "Function";
    c.ze0         = t.r(-1, 3);
    double ho     = t.pick({0.1, 0.5, 2.});
    std::stringstream b;
    b << "  wetting_drying:\n    h_o: " << ho << "\n";
    if (t.b())
        c.blocks = b.str();
    else
        ho = 0.1;
    if (t.chance(33))
        c.output = "output:\n  path: output/\n  logfile:\n    name: log\n    verbose: true\n  vtk:\n    frequency: 2.5\n  modal:\n    frequency: 5\n";
    if (t.chance(25))
        c.coord = "spherical";
    std::string stem = t.pick<std::string>({"mesh", "my.mesh", "a_b"});
    c.mesh           = stem + ".14";
    clear(".meta"), clear(".dbmd"), clear(".15"), clear(".14");
    m.write14(c.mesh);
    m.write_bcis(stem + ".bcis");
    c.write("input.15");
    int nparts = t.i(1, 6), nnodes = t.i(1, 3), rpl = t.i(1, 3);
    int extra = t.i(0, 2);  // optional arguments given
    if (extra == 0)
        rpl = 1;
    bool balanced = extra == 2 && t.b();
    auto mode     = t.i(0, 2);  // 0 random, 1 a part may stay empty (small range), 2 blocks
    std::vector<std::vector<idx_t>> choice(2);
    for (uint k = 0; k < m.tri.size(); ++k)
        choice[0].push_back(mode == 0 ? t.i(0, nparts - 1) : mode == 1 ? t.i(0, std::max(0, nparts - 2)) : (k * nparts) / m.tri.size());
    for (int k = 0; k < nparts; ++k)
        choice[1].push_back(mode == 2 ? k % nnodes : t.i(0, nnodes - 1));
    graphs.clear();
    chooser = [&](int call, idx_t v, idx_t np) { return np == nparts && call == 0 && nparts > 1 && m.tri.size() > 1 ? choice[0].at(v) : choice[1].at(v) % np; };
    sim::reset_globals();
    {
        std::vector<std::string> a{"partitioner", "input.15", std::to_string(nparts), std::to_string(nnodes)};
        if (extra > 0)
            a.push_back(std::to_string(rpl));
        if (extra > 1)
            a.push_back(balanced ? "true" : "false");
        run_partitioner(a);
    }
    PNOTE("parts " << nparts << " nodes " << nnodes << " ranks per locality " << rpl << " elements " << m.tri.size());
    // the original, by its own reader (checked against the generator by other laws)
    MeshMetaData full((AdcircFormat(c.mesh)));
    PCHECK(full.elements.size() == m.tri.size(), "original mesh");
    // submeshes present
    uint R = nnodes * rpl;
    std::map<uint, std::pair<uint, uint>> where;  // element -> (rank, submesh)
    std::map<std::pair<uint, uint>, MeshMetaData> sub;
    auto metas = files(".meta"), dbmds = files(".dbmd");
    std::vector<uint> per_rank(R, 0);
    for (uint r = 0; r < R; ++r)
        for (uint s = 0; s < (uint)nparts; ++s) {
            std::string f = stem + "_" + std::to_string(r) + "_" + std::to_string(s);
            if (!metas.count(f + ".meta"))
                break;
            metas.erase(f + ".meta");
            PCHECK(dbmds.count(f + ".dbmd"), "no list of cut edges for " << f);
            dbmds.erase(f + ".dbmd");
            sub.emplace(std::make_pair(r, s), MeshMetaData(f + ".meta"));
            ++per_rank[r];
        }
    PCHECK(metas.empty() && dbmds.empty(), "files of submeshes that are not numbered consecutively: "
                                               << (metas.empty() ? *dbmds.begin() : *metas.begin()));
    for (auto& s : sub) {
        PCHECK(!s.second.elements.empty(), "submesh without elements");
        for (auto& e : s.second.elements) {
            PCHECK(full.elements.count(e.first), "element " << e.first << " is not in the mesh");
            PCHECK(where.emplace(e.first, s.first).second, "element " << e.first << " is in two submeshes");
        }
    }
    PCHECK(where.size() == full.elements.size(), (full.elements.size() - where.size()) << " elements are in no submesh");
    // the split follows the assignment made
    std::vector<int> sizes(nparts, 0), got;
    if (nparts == 1 || m.tri.size() == 1)
        sizes[0] = m.tri.size();
    else
        for (auto k : choice[0])
            ++sizes[k];
    sizes.erase(std::remove(sizes.begin(), sizes.end(), 0), sizes.end());
    for (auto& s : sub)
        got.push_back(s.second.elements.size());
    std::sort(sizes.begin(), sizes.end());
    std::sort(got.begin(), got.end());
    PCHECK(sizes == got, "sizes of the submeshes differ from those of the parts");
    uint ncut = 0;
    for (auto& e : full.elements)
        for (uint k = 0; k < 3; ++k)
            if (is_internal(e.second.boundary_type[k]))
                ncut += where.at(e.first) != where.at(e.second.neighbor_ID[k]);
    if (nparts > 1 && m.tri.size() > 1) {
        PCHECK(!graphs.empty() && graphs[0].nparts == nparts, "no partition asked for");
        auto& g     = graphs[0];
        uint gcut   = 0;
        double base = 0;
        for (idx_t v = 0; v < g.n; ++v) {
            std::set<idx_t> nb(g.adj[v].begin(), g.adj[v].end());
            PCHECK(nb.size() == g.adj[v].size() && !nb.count(v), "graph of elements has loops or repeated edges");
            for (auto w : nb) {
                PCHECK(w >= 0 && w < g.n && std::count(g.adj[w].begin(), g.adj[w].end(), v) == 1, "graph of elements is not symmetric");
                gcut += g.part[v] != g.part[w];
            }
            PCHECK(g.vw[v * g.ncon] > 0, "element without weight");
            if (v == 0)
                base = g.vw[0];
            PCHECK(g.vw[v * g.ncon] == base, "elements are not equally heavy");
        }
        PCHECK(gcut == ncut, "edges cut in the graph " << gcut << ", in the files " << ncut);
        // node shares
        std::vector<int> want(nnodes, 0), have(nnodes, 0);
        if (graphs.size() > 1) {
            for (auto k : graphs[1].part)
                ++want[k];
        } else
            want[0] = sub.size();
        for (auto& s : sub)
            ++have[s.first.first / rpl];
        PCHECK(want == have, "submeshes are not on the nodes chosen for them");
    }
    for (int n = 0; n < nnodes; ++n) {
        uint lo = 1000, hi = 0;
        for (int r = 0; r < rpl; ++r)
            lo = std::min(lo, per_rank[n * rpl + r]), hi = std::max(hi, per_rank[n * rpl + r]);
        PCHECK(hi - lo <= 1, "submeshes of a node are not spread evenly over its ranks");
    }
    if (ncut > 0 && sub.size() > 1)
        t.nontrivial();
    t.label(sub.size() == 1 ? "one submesh" : ncut == 0 ? "no cut" : "cut");
    // contents
    bool cut_levee = false;
    for (auto& s : sub) {
        std::set<uint> used;
        for (auto& e : s.second.elements) {
            auto& f = full.elements.at(e.first);
            PCHECK(e.second.node_ID == f.node_ID, "vertices of element " << e.first);
            PCHECK(e.second.neighbor_ID == f.neighbor_ID, "neighbours of element " << e.first);
            for (uint k = 0; k < 3; ++k) {
                bool cut = is_internal(f.boundary_type[k]) && where.at(f.neighbor_ID[k]) != s.first;
                cut_levee |= cut && f.boundary_type[k] == SWE::BoundaryTypes::levee;
                PCHECK(e.second.boundary_type[k] == f.boundary_type[k] + (cut ? 64 : 0),
                       "edge " << k << " of element " << e.first << " has type " << (int)e.second.boundary_type[k] << ", was "
                               << (int)f.boundary_type[k] << (cut ? " and is cut" : " and is not cut"));
            }
            used.insert(f.node_ID.begin(), f.node_ID.end());
        }
        std::set<uint> have;
        for (auto& n : s.second.nodes) {
            have.insert(n.first);
            PCHECK(full.nodes.count(n.first), "unknown node");
            for (uint k = 0; k < 3; ++k) {
                double a = full.nodes.at(n.first).coordinates[k], b = n.second.coordinates[k];
                PCHECK(std::abs(a - b) <= 1e-14 * std::abs(a), "coordinate " << k << " of node " << n.first << ": " << b << ", was " << a);
            }
        }
        PCHECK(have == used, "nodes of a submesh are not those of its elements");
    }
    if (cut_levee)
        t.label("levee cut");
    // records of cut edges
    using Rec = std::array<uint, 8>;  // loc, sub, elt, edge of either side
    std::set<Rec> want;
    for (auto& e : full.elements)
        for (uint k = 0; k < 3; ++k)
            if (is_internal(e.second.boundary_type[k])) {
                uint nb = e.second.neighbor_ID[k];
                auto A = where.at(e.first), B = where.at(nb);
                if (A == B)
                    continue;
                uint kk = 9;
                for (uint j = 0; j < 3; ++j)
                    if (full.elements.at(nb).neighbor_ID[j] == e.first && is_internal(full.elements.at(nb).boundary_type[j]))
                        kk = j;
                want.insert({A.first, A.second, e.first, k, B.first, B.second, nb, kk});
            }
    for (auto& s : sub) {
        std::set<Rec> have;
        std::set<std::array<uint, 2>> sections;
        std::ifstream f(stem + "_" + std::to_string(s.first.first) + "_" + std::to_string(s.first.second) + ".dbmd");
        uint la, sa, lb, sb, n;
        while (f >> la >> sa >> lb >> sb >> n) {
            bool first = s.first == std::make_pair(la, sa);
            PCHECK(first || s.first == std::make_pair(lb, sb), "section of other submeshes");
            PCHECK(sections.insert(first ? std::array<uint, 2>{lb, sb} : std::array<uint, 2>{la, sa}).second, "two sections for one neighbour");
            for (uint k = 0; k < n; ++k) {
                uint e1, e2, b1, b2, p;
                f >> e1 >> e2 >> b1 >> b2 >> p;
                PCHECK((bool)f, "record cut short");
                PCHECK(p == c.p, "polynomial order of a cut edge " << p);
                Rec r = first ? Rec{la, sa, e1, b1, lb, sb, e2, b2} : Rec{lb, sb, e2, b2, la, sa, e1, b1};
                PCHECK(have.insert(r).second, "record twice");
                PCHECK(want.count(r), "record of an edge that is not cut: elements " << e1 << " " << e2 << " edges " << b1 << " " << b2);
            }
        }
        uint n_own = 0;
        for (auto& w : want)
            n_own += s.first == std::make_pair(w[0], w[1]);
        PCHECK(have.size() == n_own, "records of cut edges missing: " << have.size() << " of " << n_own);
        if (n_own) {
            // both programs must order the edges of one pair alike: read as the solver does
            DistributedBoundaryMetaData d(stem + "_" + std::to_string(s.first.first) + "_" + std::to_string(s.first.second) + ".dbmd", s.first.first, s.first.second);
            for (auto& g : d.rank_boundary_data) {
                DistributedBoundaryMetaData dd(stem + "_" + std::to_string(g.locality_ex) + "_" + std::to_string(g.submesh_ex) + ".dbmd", g.locality_ex, g.submesh_ex);
                bool found = false;
                for (auto& h : dd.rank_boundary_data)
                    if (h.locality_ex == s.first.first && h.submesh_ex == s.first.second) {
                        found = true;
                        PCHECK(h.elements_in == g.elements_ex && h.elements_ex == g.elements_in && h.bound_ids_in == g.bound_ids_ex &&
                                   h.bound_ids_ex == g.bound_ids_in,
                               "the two sides list their common edges differently");
                    }
                PCHECK(found, "the other side has no section for this one");
            }
        }
    }
    // the rewritten input file
    auto inputs = files("_parallelized.15");
    PCHECK(inputs.size() == 1, "no rewritten input file");
    YAML::Node a = YAML::LoadFile("input.15"), z = YAML::LoadFile(*inputs.begin());
    PCHECK(z["mesh"] && z["mesh"]["format"].as<std::string>() == "Meta" && z["mesh"]["file_name"].as<std::string>() == stem + ".meta",
           "mesh of the rewritten input file");
    for (auto it : a) {
        auto k = it.first.as<std::string>();
        if (k == "mesh")
            PCHECK(z["mesh"]["coordinate_system"].as<std::string>() == c.coord, "coordinate system of the rewritten input file");
        else
            PCHECK(z[k] && same(it.second, z[k]), "section " << k << " of the rewritten input file:\n" << YAML::Dump(z[k]) << "\nwas\n" << YAML::Dump(it.second));
    }
}
#endif
}
