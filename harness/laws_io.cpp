// Mesh and input files: what is read is what was written; connectivity follows from the mesh.
#include "sim.hpp"

namespace {
using namespace sim;

mg::Opts any_mesh(pbt::T& t) {
    mg::Opts o;
    o.nx_max = o.ny_max = t.i(2, 6);
    o.levee  = 40;
    o.kinds  = {mg::LAND, mg::TIDE, mg::FLOW, mg::FUNC};
    o.generic = true;
    o.Lmin = 1e-2, o.Lmax = 1e6;
    o.zlo = -20, o.zhi = 300;
    o.shift = t.pick({0.0, 3.0, 1000.0});
    o.ambiguous = true;
    return o;
}
void levee_data(pbt::T& t, mg::Mesh& m) {
    for (auto& s : m.seg)
        if (s.kind == mg::LEVEE)
            for (uint k = 0; k < s.n.size(); ++k) {
                s.H[k]    = t.s(20);
                s.Csub[k] = t.r(0, 2);
                s.Csup[k] = t.r(0, 2);
            }
}
void name_it(pbt::T& t, mg::Mesh& m) {
    static const char al[] = "abcXYZ019_-.";
    m.name.clear();
    int n = t.i(1, 12);
    for (int k = 0; k < n; ++k)
        m.name += al[t.i(0, 11)];
}
bool near15(double a, double b) { return std::abs(a - b) <= 6e-15 * std::max(std::abs(a), std::abs(b)); }

void compare_format(const AdcircFormat& A, const AdcircFormat& B, bool exact) {
    auto eq = [&](double a, double b) { return exact ? a == b : near15(a, b); };
    PCHECK(A.name == B.name, "mesh name");
    PCHECK(A.nodes.size() == B.nodes.size() && A.elements.size() == B.elements.size(), "numbers of nodes, elements");
    for (auto& n : A.nodes) {
        PCHECK(B.nodes.count(n.first), "node " << n.first << " lost");
        for (int k = 0; k < 3; ++k)
            PCHECK(eq(n.second[k], B.nodes.at(n.first)[k]),
                   "node " << n.first << " coordinate " << k << " " << n.second[k] << " -> " << B.nodes.at(n.first)[k]);
    }
    for (auto& e : A.elements)
        PCHECK(B.elements.count(e.first) && B.elements.at(e.first) == e.second, "element " << e.first);
    PCHECK(A.NOPE == B.NOPE && A.NETA == B.NETA && A.NBDV == B.NBDV, "open boundaries");
    PCHECK(A.NBOU == B.NBOU && A.NVEL == B.NVEL && A.IBTYPE == B.IBTYPE && A.NBVV == B.NBVV, "land boundaries");
    PCHECK(A.IBCONN == B.IBCONN, "back nodes of levees");
    auto maps = [&](const std::map<uint, std::vector<double>>& a, const std::map<uint, std::vector<double>>& b, const char* w) {
        PCHECK(a.size() == b.size(), w);
        for (auto& kv : a) {
            PCHECK(b.count(kv.first) && b.at(kv.first).size() == kv.second.size(), w);
            for (uint k = 0; k < kv.second.size(); ++k)
                PCHECK(eq(kv.second[k], b.at(kv.first)[k]), w << " of segment " << kv.first);
        }
    };
    maps(A.BARINTH, B.BARINTH, "crest heights");
    maps(A.BARINCFSB, B.BARINCFSB, "subcritical coefficients");
    maps(A.BARINCFSP, B.BARINCFSP, "supercritical coefficients");
    PCHECK(A.NGEN == B.NGEN && A.NNGN == B.NNGN && A.NBGN == B.NBGN, "generic boundaries");
}
void compare_mesh(const AdcircFormat& A, const mg::Mesh& m) {
    PCHECK(A.name == m.name, "name read: " << A.name << " written: " << m.name);
    PCHECK(A.nodes.size() == m.x.size() && A.elements.size() == m.tri.size(), "counts");
    for (uint k = 0; k < m.x.size(); ++k)
        for (int c = 0; c < 3; ++c)
            PCHECK(A.nodes.at(m.nid[k])[c] == m.x[k][c], "coordinate read of node " << m.nid[k]);
    for (uint k = 0; k < m.tri.size(); ++k) {
        auto& e = A.elements.at(m.eid[k]);
        PCHECK(e[0] == 3, "element type");
        for (int v = 0; v < 3; ++v)
            PCHECK(e[v + 1] == m.nid[m.tri[k][v]], "vertex read of element " << m.eid[k]);
    }
    uint io = 0, il = 0, ig = 0, no = 0, nl = 0, ng = 0;
    for (auto& s : m.seg) {
        std::vector<uint> ids, bk;
        for (int n : s.n)
            ids.push_back(m.nid[n]);
        for (int n : s.back)
            bk.push_back(m.nid[n]);
        if (s.kind == mg::TIDE) {
            PCHECK(A.NBDV.at(io) == ids, "open boundary " << io);
            ++io, no += ids.size();
        } else if (s.kind == mg::GENERIC) {
            PCHECK(A.NBGN.at(ig) == ids, "generic boundary " << ig);
            ++ig, ng += ids.size();
        } else {
            PCHECK(A.NBVV.at(il) == ids && A.IBTYPE.at(il) == s.ibtype, "land boundary " << il);
            if (s.kind == mg::LEVEE)
                PCHECK(A.IBCONN.at(il) == bk && A.BARINTH.at(il) == s.H && A.BARINCFSB.at(il) == s.Csub && A.BARINCFSP.at(il) == s.Csup,
                       "levee " << il);
            ++il, nl += ids.size();
        }
    }
    PCHECK(A.NOPE == io && A.NETA == no && A.NBOU == il && A.NVEL == nl && A.NGEN == ig && A.NNGN == ng, "counts of boundaries");
}

#if SEL(5)
LAW(P05, adcirc_reading_and_writing, "at least two boundary sections or a levee", 16000, 240000) {
    auto m = mg::gen(t, any_mesh(t));
    levee_data(t, m);
    name_it(t, m);
    if (m.seg.size() > 1)
        t.nontrivial();
    m.write14("a.14", t.i(0, 3));
    AdcircFormat A("a.14");
    compare_mesh(A, m);
    A.write_to("b.14");
    AdcircFormat B("b.14");
    compare_format(A, B, false);
    B.write_to("c.14");
    AdcircFormat C("c.14");
    compare_format(B, C, true);
}
#endif

void compare_meta(const MeshMetaData& A, const MeshMetaData& B, bool exact) {
    PCHECK(A.mesh_name == B.mesh_name, "mesh name");
    PCHECK(A.elements.size() == B.elements.size() && A.nodes.size() == B.nodes.size(), "counts");
    for (auto& e : A.elements) {
        PCHECK(B.elements.count(e.first), "element " << e.first << " lost");
        auto& f = B.elements.at(e.first);
        PCHECK(e.second.node_ID == f.node_ID, "vertices of element " << e.first);
        PCHECK(e.second.neighbor_ID == f.neighbor_ID, "neighbours of element " << e.first);
        PCHECK(e.second.boundary_type == f.boundary_type, "boundary types of element " << e.first);
    }
    for (auto& n : A.nodes) {
        PCHECK(B.nodes.count(n.first), "node " << n.first << " lost");
        for (int k = 0; k < 3; ++k) {
            double a = n.second.coordinates[k], b = B.nodes.at(n.first).coordinates[k];
            PCHECK(exact ? a == b : near15(a, b), "coordinate " << k << " of node " << n.first << ": " << a << " -> " << b);
        }
    }
}
uint type_of(int kind) {
    switch (kind) {
        case mg::TIDE: return 1;
        case mg::FLOW: return 2;
        case mg::FUNC: return 3;
        case mg::OUTFLOW: return 4;
        case mg::LEVEE: return 129;
        default: return 0;
    }
}
constexpr uint NONE = 4294967295u;

#if SEL(5)
LAW(P05, metadata_reading_and_writing, "mesh with a boundary other than land", 16000, 240000) {
    auto m = mg::gen(t, any_mesh(t));
    levee_data(t, m);
    name_it(t, m);
    for (auto& s : m.seg)
        if (type_of(s.kind) != 0)
            t.nontrivial();
    m.write14("a.14");
    MeshMetaData A(AdcircFormat("a.14"));
    // cut edges of submeshes carry the distributed types
    if (t.chance(40)) {
        t.label("distributed");
        for (auto& e : A.elements)
            for (uint k = 0; k < 3; ++k)
                if (e.second.boundary_type[k] >= 128 && t.chance(30))
                    e.second.boundary_type[k] += 64;
    }
    A.write_to("a.meta");
    MeshMetaData B("a.meta");
    compare_meta(A, B, false);
    B.write_to("b.meta");
    MeshMetaData C("b.meta");
    compare_meta(B, C, true);
    for (auto& e : B.elements) {
        auto c = B.get_nodal_coordinates(e.first);
        PCHECK(c.size() == 3, "nodal coordinates");
        for (int k = 0; k < 3; ++k)
            for (int q = 0; q < 3; ++q)
                PCHECK(c[k][q] == B.nodes.at(e.second.node_ID[k]).coordinates[q], "nodal coordinates of element " << e.first);
    }
}
#endif

// the same simulation from both mesh formats
#if SEL(5)
LAW(P05, metadata_describes_the_same_run, "at least two elements and a non-zero state after the step", 1600, 24000) {
    using Prob = SWE::RKDG::Problem;
    reset_globals();
    mg::Opts o;
    o.nx_max = o.ny_max = 4;
    o.kinds  = {mg::LAND, mg::TIDE, mg::FLOW};
    o.levee  = 40;
    o.Lmin = o.Lmax = 100;
    o.zlo = 1, o.zhi = 3;
    auto m = mg::gen(t, o);
    for (auto& s : m.seg) {
        if (s.kind == mg::TIDE || s.kind == mg::FLOW)
            mg::gen_forcing(t, s, 0.1, 1);
        if (s.kind == mg::LEVEE)
            for (uint k = 0; k < s.n.size(); ++k)
                s.H[k] = -0.3, s.Csub[k] = 1, s.Csup[k] = 1;
    }
    m.write14("mesh.14");
    m.write_bcis("mesh.bcis");
    m.write_bcis("meta.bcis");
    MeshMetaData(AdcircFormat("mesh.14")).write_to("meta.meta");
    Cfg c;
    c.p  = t.i(1, 3);
    c.dt = 0.02;
    c.order = c.nstages = 2;
    auto run = [&](const char* format, const char* file) {
        c.format = format, c.mesh = file;
        c.write("input.15");
        hook::ic_q() = [&](double, const Point<2>& p) {
            StatVector<double, 3> q;
            q[0] = 0.2 * std::sin(p[0] / 20 + p[1] / 31);
            q[1] = 0.3 * std::cos(p[0] / 17);
            q[2] = -0.2 * std::sin(p[1] / 13);
            return q;
        };
        Sim<Prob> s("input.15");
        s.prep();
        for (int k = 0; k < 3; ++k)
            s.step();
        return snapshot(s, m);
    };
    auto a = run("Adcirc", "mesh.14"), b = run("Meta", "meta.meta");
    if (m.tri.size() > 1)
        t.nontrivial();
    PCHECK(a.size() == b.size() && a.size() == m.tri.size(), "elements");
    for (auto& e : a)
        for (auto& kv : e.second) {
            auto w = b.at(e.first).at(kv.first);
            for (int v = 0; v < 3; ++v)
                PNEAR(w[v], kv.second[v], 1e-9, "state " << v << " in element " << m.eid[e.first]);
        }
}
#endif

// --- P06 -----------------------------------------------------------------------------------------------------------
mg::Opts topo(pbt::T& t) {
    auto o      = any_mesh(t);
    o.generic   = true;
    o.ambiguous = true;
    return o;
}
#if SEL(6)
LAW(P06, links_and_types, "mesh with an interior edge and at least two kinds of boundary", 24000, 360000) {
    auto m = mg::gen(t, topo(t));
    levee_data(t, m);
    bool outflow = t.chance(20);
    if (outflow)
        for (auto& s : m.seg)
            if (s.kind == mg::FUNC)
                s.kind = mg::OUTFLOW, s.ibtype = 88;
    m.write14("a.14", t.i(0, 3));
    MeshMetaData A(AdcircFormat("a.14"));
    PCHECK(A.elements.size() == m.tri.size() && A.nodes.size() == m.x.size(), "counts");
    auto ed = m.oriented();
    std::set<uint> kinds;
    for (uint e = 0; e < m.tri.size(); ++e) {
        auto& d = A.elements.at(m.eid[e]);
        for (int k = 0; k < 3; ++k) {
            PCHECK(d.node_ID[k] == m.nid[m.tri[e][k]], "vertex");
            int a = m.tri[e][(k + 1) % 3], b = m.tri[e][(k + 2) % 3];
            uint ty, nb = NONE;
            if (ed.count({b, a})) {
                ty = 128;
                nb = m.eid[ed[{b, a}].first];
            } else {
                int q = m.seg_of(a, b);
                ty    = q < 0 ? 0 : type_of(m.seg[q].kind);
                // an edge described twice: open boundaries come first, then land boundaries in their order, then generic ones
                if (q >= 0) {
                    auto has = [&](const mg::Seg& s) {
                        for (int side = 0; side < (s.kind == mg::LEVEE ? 2 : 1); ++side) {
                            auto& v = side ? s.back : s.n;
                            for (uint z = 0; z + 1 < v.size(); ++z)
                                if ((v[z] == a && v[z + 1] == b) || (v[z] == b && v[z + 1] == a))
                                    return true;
                        }
                        return false;
                    };
                    int n = 0;
                    for (auto& s : m.seg)
                        n += has(s);
                    if (n > 1)
                        continue;
                }
                if (ty == 129) {
                    auto& s = m.seg[q];
                    std::map<int, int> op;
                    for (uint z = 0; z < s.n.size(); ++z)
                        op[s.n[z]] = s.back[z], op[s.back[z]] = s.n[z];
                    nb = m.eid[ed.at({op[b], op[a]}).first];
                }
                kinds.insert(q < 0 ? 0 : m.seg[q].kind);
            }
            PCHECK((uint)d.boundary_type[k] == ty, "edge " << k << " of element " << m.eid[e] << " (nodes " << m.nid[a] << ","
                                                              << m.nid[b] << ") has type " << (uint)d.boundary_type[k] << ", not " << ty);
            PCHECK(d.neighbor_ID[k] == nb, "edge " << k << " of element " << m.eid[e] << " has neighbour " << d.neighbor_ID[k]
                                                       << ", not " << nb);
        }
    }
    if (kinds.size() > 1 && ed.size() > 3)
        t.nontrivial();
}
#endif

template <typename F>
bool throws_logic(const F& f) {
    std::ofstream null("/dev/null");
    auto* o = std::cerr.rdbuf(null.rdbuf());
    bool r  = false;
    try {
        f();
    } catch (const std::logic_error&) {
        r = true;
    }
    std::cerr.rdbuf(o);
    return r;
}

#if SEL(6)
LAW(P06, undescribed_boundaries_are_refused, "always (one section is removed or given an unknown code)", 12000, 180000) {
    auto o      = topo(t);
    o.generic   = false;
    o.levee     = 0;
    auto m      = mg::gen(t, o);
    t.nontrivial();
    int mode = t.i(0, 1);
    int w    = t.i(0, m.seg.size() - 1);
    if (mode == 0) {
        // is one of its edges described by no other section?
        auto s = m.seg[w];
        m.seg.erase(m.seg.begin() + w);
        bool missing = false;
        for (uint k = 0; k + 1 < s.n.size(); ++k)
            missing |= m.seg_of(s.n[k], s.n[k + 1]) < 0;
        // an island section left open at its end describes the closing edge as well
        if (!missing)
            t.discard();
        for (auto& q : m.seg)
            if (q.kind == mg::ISLAND)
                for (uint k = 0; k + 1 < s.n.size(); ++k)
                    if ((q.n.front() == s.n[k] && q.n.back() == s.n[k + 1]) || (q.n.front() == s.n[k + 1] && q.n.back() == s.n[k]))
                        t.discard();
        m.write14("a.14");
        PCHECK(throws_logic([] { MeshMetaData A(AdcircFormat("a.14")); }), "a boundary edge without description was accepted");
    } else {
        if (m.seg[w].kind == mg::TIDE)
            t.discard();
        m.seg[w].ibtype = t.pick({3u, 13u, 23u, 5u, 25u, 6u, 18u, 28u, 9u, 7u, 33u, 103u, 105u});
        m.write14("a.14");
        PCHECK(throws_logic([] { AdcircFormat("a.14"); }), "boundary code " << m.seg[w].ibtype << " was accepted");
    }
    PCHECK(throws_logic([] { AdcircFormat("nonexistent.14"); }), "missing file");
    PCHECK(throws_logic([] { MeshMetaData(std::string("nonexistent.meta")); }), "missing file");
}
#endif

// what the solver builds from the metadata
using EdgeKey = std::pair<uint, uint>;  // node ids
struct Built {
    std::map<EdgeKey, std::vector<uint>> type;  // edge -> types (one per object covering it)
    std::map<EdgeKey, std::set<EdgeKey>> partner;
    uint objects = 0;
};
inline EdgeKey key(const std::vector<uint>& n) {
    return {std::min(n[0], n[1]), std::max(n[0], n[1])};
}
template <typename B>
struct is_land : std::false_type {};
template <typename Cond>
uint cond_type() {
    if (std::is_same<Cond, SWE::RKDG::BC::Land>::value || std::is_same<Cond, SWE::EHDG::BC::Land>::value)
        return 0;
    if (std::is_same<Cond, SWE::RKDG::BC::Tide>::value || std::is_same<Cond, SWE::EHDG::BC::Tide>::value)
        return 1;
    if (std::is_same<Cond, SWE::RKDG::BC::Flow>::value || std::is_same<Cond, SWE::EHDG::BC::Flow>::value)
        return 2;
    if (std::is_same<Cond, SWE::RKDG::BC::Function>::value || std::is_same<Cond, SWE::EHDG::BC::Function>::value)
        return 3;
    if (std::is_same<Cond, SWE::RKDG::ISP::Internal>::value || std::is_same<Cond, SWE::EHDG::ISP::Internal>::value)
        return 128;
    if (std::is_same<Cond, SWE::RKDG::ISP::Levee>::value || std::is_same<Cond, SWE::EHDG::ISP::Levee>::value)
        return 129;
    return 999;
}
template <typename SimT>
void check_skeleton(SimT& s, const mg::Mesh& m) {
    auto ed = m.oriented();
    std::map<const void*, uint> id;
    std::map<const void*, std::vector<uint>> nodes;
    s.d.mesh.CallForEachElement([&](auto& elt) {
        id[&elt.data]    = elt.GetID();
        nodes[&elt.data] = elt.GetNodeID();
    });
    PCHECK(id.size() == m.tri.size(), "elements of the solver's mesh");
    auto no = m.node_of();
    auto eo = m.elt_of();
    std::map<std::pair<int, int>, int> covered;  // oriented edge -> times
    auto side = [&](const void* data, uint bid, const std::vector<uint>& nid) {
        PCHECK(id.count(data), "edge object refers to no element");
        PCHECK(bid < 3, "edge number");
        auto& v = nodes.at(data);
        int a = no.at(v[(bid + 1) % 3]), b = no.at(v[(bid + 2) % 3]);
        PCHECK((nid[0] == m.nid[a] && nid[1] == m.nid[b]) || (nid[0] == m.nid[b] && nid[1] == m.nid[a]), "nodes reported for the edge");
        auto it = ed.find({a, b});
        PCHECK(it != ed.end() && m.eid[it->second.first] == id.at(data), "edge belongs to the element");
        ++covered[{a, b}];
        return std::make_pair(a, b);
    };
    s.d.mesh.CallForEachInterface([&](auto& f) {
        using Spec = std::decay_t<decltype(f.specialization)>;
        auto A = side(&f.data_in, f.bound_id_in, f.GetNodeIDIN());
        auto B = side(&f.data_ex, f.bound_id_ex, f.GetNodeIDEX());
        uint ty = cond_type<Spec>();
        if (ty == 128)
            PCHECK(A.first == B.second && A.second == B.first, "interface joins two different edges");
        else {
            PCHECK(ty == 129, "kind of interface");
            int q = m.seg_of(A.first, A.second);
            PCHECK(q >= 0 && m.seg[q].kind == mg::LEVEE, "levee where none is described");
            std::map<int, int> op;
            auto& sg = m.seg[q];
            for (uint z = 0; z < sg.n.size(); ++z)
                op[sg.n[z]] = sg.back[z], op[sg.back[z]] = sg.n[z];
            PCHECK(op.count(A.first) && op[A.first] == B.second && op[A.second] == B.first, "levee joins edges that do not face each other");
        }
    });
    s.d.mesh.CallForEachBoundary([&](auto& f) {
        using Cond = std::decay_t<decltype(f.boundary_condition)>;
        auto A  = side(&f.data, f.bound_id, f.GetNodeID());
        uint ty = cond_type<Cond>();
        PCHECK(!ed.count({A.second, A.first}), "interior edge became a boundary");
        int q     = m.seg_of(A.first, A.second);
        uint want = q < 0 ? 0 : type_of(m.seg[q].kind);
        PCHECK(ty == want, "boundary edge " << m.nid[A.first] << "," << m.nid[A.second] << " of kind " << ty << ", not " << want);
    });
    for (auto& e : ed)
        PCHECK(covered[e.first] == 1, "edge " << m.nid[e.first.first] << "," << m.nid[e.first.second] << " is covered "
                                               << covered[e.first] << " times");
    PCHECK(covered.size() == ed.size(), "spurious edges");
}
#if SEL(6)
LAW(P06, skeleton_of_the_solver_mesh, "mesh with an interior edge", 10000, 120000) {
    reset_globals();
    auto o      = topo(t);
    o.generic   = true;
    o.ambiguous = false;
    o.zlo = 1, o.zhi = 3;
    o.Lmin = o.Lmax = 100;
    bool ehdg = t.b();
    if (ehdg)
        o.levee = 0;
    auto m = mg::gen(t, o);
    levee_data(t, m);
    for (auto& s : m.seg)
        if (s.kind == mg::TIDE || s.kind == mg::FLOW)
            mg::gen_forcing(t, s, 0.1, 1);
    // edges described twice have no single meaning
    {
        std::map<std::pair<int, int>, int> cnt;
        for (auto& s : m.seg)
            for (uint k = 0; k + 1 < s.n.size(); ++k)
                if (++cnt[{std::min(s.n[k], s.n[k + 1]), std::max(s.n[k], s.n[k + 1])}] > 1)
                    t.discard();
    }
    if (t.chance(25)) {
        t.label("clockwise");
        for (uint k = 0; k < m.tri.size(); ++k)
            if (t.b())
                m.cw.insert(k);
    }
    Cfg c;
    c.p = t.i(1, 2);
    if (m.tri.size() > 1)
        t.nontrivial();
    if (ehdg) {
        t.label("ehdg");
        c.problem = "ehdg_swe";
        auto s    = make<SWE::EHDG::Problem>(m, c);
        check_skeleton(*s, m);
        // one edge object per interface and boundary
        std::map<std::pair<int, int>, int> seen;
        auto no = m.node_of();
        uint n  = 0, nb = 0;
        s->d.mesh_skeleton.CallForEachEdgeInterface([&](auto& e) {
            auto v = e.interface.GetNodeIDIN();
            ++seen[{std::min(no.at(v[0]), no.at(v[1])), std::max(no.at(v[0]), no.at(v[1]))}];
            ++n;
        });
        s->d.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) {
            auto v = e.boundary.GetNodeID();
            ++seen[{std::min(no.at(v[0]), no.at(v[1])), std::max(no.at(v[0]), no.at(v[1]))}];
            ++nb;
        });
        auto ed = m.oriented();
        uint ni = 0, nbb = 0;
        for (auto& e : ed) {
            bool in = ed.count({e.first.second, e.first.first});
            if (in && e.first.first < e.first.second)
                ++ni;
            if (!in)
                ++nbb;
            PCHECK((seen[{std::min(e.first.first, e.first.second), std::max(e.first.first, e.first.second)}]) == 1, "edge object count");
        }
        PCHECK(ni == n && nbb == nb, "edge objects " << n << "," << nb << " for " << ni << "," << nbb);
    } else {
        auto s = make<SWE::RKDG::Problem>(m, c);
        check_skeleton(*s, m);
    }
}
#endif

// --- P07 -----------------------------------------------------------------------------------------------------------
long days_civil(long y, int mo, int d) {  // days since 1970-01-01
    y -= mo <= 2;
    long era = (y >= 0 ? y : y - 399) / 400;
    long yoe = y - era * 400, doy = (153 * (mo + (mo > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + doe - 719468;
}
struct Date {
    int y, mo, d, h, mi, s;
    std::string str() const {
        char b[64];
        snprintf(b, 64, "%02d-%02d-%04d %02d:%02d:%02d", d, mo, y, h, mi, s);
        return b;
    }
    long sec() const { return days_civil(y, mo, d) * 86400 + h * 3600 + mi * 60 + s; }
};
Date date(pbt::T& t) {
    Date d;
    d.y  = t.i(1970, 2060);
    d.mo = t.i(1, 12);
    static const int md[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    bool leap = (d.y % 4 == 0 && d.y % 100) || d.y % 400 == 0;
    d.d  = t.i(1, md[d.mo - 1] + (d.mo == 2 && leap));
    d.h  = t.i(0, 23);
    d.mi = t.i(0, 59);
    d.s  = t.i(0, 59);
    return d;
}
std::string num(double v) {
    std::ostringstream o;
    o << std::setprecision(17) << v;
    return o.str();
}
double val(pbt::T& t, double a) { return t.chance(30) ? std::round(t.s(a)) : t.s(a); }
std::string word(pbt::T& t) {
    static const char* w[] = {"run", "a_b", "Case-7", "x.y", "results", "log.txt"};
    return w[t.i(0, 5)];
}
struct Opt {
    std::string name = "rkdg_swe", format, file, coord;
    uint p, order, nstages;
    Date s, e;
    double dt;
    bool has_ramp, has_g, has_ra, has_rw, sph, ic, fs, bf, meteo, tide, cor, wd, sl, out, lb, log, vtk, vtu, modal;
    double ramp, g, ra, rw, lon, lat, R, ze, qx, qy, cf, mfreq, ho, M, nu, lbf, fv, fu, fm;
    int ict, bft;
    bool verbose;
    std::string mann, mt, mraw, min, path, logname, lbname;
    long step_v, step_u, step_m;
};
Opt options(pbt::T& t) {
    Opt o;
    o.format = t.pick({"Adcirc", "Meta"});
    o.file   = t.pick({"mesh.14", "dir.x/my.mesh.14", "/abs/path/m.grd", "./rel/a.b.meta"});
    o.coord  = t.pick({"cartesian", "polar", "spherical"});
    o.p      = t.i(1, 9);
    o.order = t.i(1, 4), o.nstages = t.i(1, 5);
    o.s = date(t), o.e = date(t);
    if (o.e.sec() < o.s.sec())
        std::swap(o.s, o.e);
    o.dt       = t.pick({0.1, 0.25, 0.3, 0.7, 1.0, 5.0, 60.0});
    o.has_ramp = t.b(), o.ramp = t.r(0, 10);
    o.has_g = t.b(), o.has_ra = t.b(), o.has_rw = t.b();
    o.g = t.r(1, 20), o.ra = t.r(0.5, 2), o.rw = t.r(900, 1100);
    o.sph = t.b(), o.lon = val(t, 180), o.lat = val(t, 80), o.R = t.r(1e6, 1e7);
    o.ic = t.b(), o.ict = t.i(0, 1), o.ze = val(t, 5), o.qx = val(t, 5), o.qy = val(t, 5);
    o.fs = t.b();
    o.bf = t.b(), o.bft = t.i(0, 1), o.cf = t.r(0, 0.1), o.mann = word(t);
    o.meteo = t.b(), o.mt = word(t), o.mraw = word(t), o.min = word(t), o.mfreq = t.r(1, 1e4);
    o.tide = t.b(), o.cor = t.b();
    o.wd = t.b(), o.ho = t.r(0.001, 1);
    o.sl = t.b(), o.M = t.lg(1e-9, 1e3), o.nu = t.r(1, 2);
    o.out = t.b();
    o.path = t.pick({"output", "output/", "a/b/c", "./o/"});
    o.log = t.b(), o.verbose = t.b(), o.logname = word(t);
    o.vtk = t.b(), o.vtu = t.b(), o.modal = t.b();
    o.lb = t.b(), o.lbname = word(t), o.lbf = t.r(1, 100);
    auto freq = [&](double& f, long& n) {
        n = t.i(1, 5000);
        if (t.chance(60)) {  // a whole number of steps, as a user writes it
            char b[64];
            snprintf(b, 64, "%.10g", n * o.dt);
            f = atof(b);
        } else
            f = (n - t.r(0.05, 0.95)) * o.dt;  // between two steps: the next one
    };
    freq(o.fv, o.step_v), freq(o.fu, o.step_u), freq(o.fm, o.step_m);
    return o;
}
// blocks of the file; each entry can be left out or put in any order
std::vector<std::pair<std::string, std::string>> blocks(const Opt& o, pbt::T& t) {
    auto mapping = [&](std::vector<std::pair<std::string, std::string>> kv, int indent) {
        auto p = t.perm(kv.size());
        std::string s;
        if (indent > 1 && t.chance(30)) {  // flow style
            s = " {";
            for (uint k = 0; k < kv.size(); ++k)
                s += (k ? ", " : "") + kv[p[k]].first + ": " + kv[p[k]].second;
            return s + "}\n";
        }
        s = "\n";
        for (uint k : p)
            s += std::string(2 * indent, ' ') + kv[k].first + ": " + kv[k].second + (t.chance(10) ? "   # comment" : "") + "\n";
        return s;
    };
    auto nest = [&](std::vector<std::pair<std::string, std::string>> kv) {  // values carry their own line ends
        auto p = t.perm(kv.size());
        std::string s = "\n";
        for (uint k : p)
            s += "  " + kv[k].first + ":" + kv[k].second;
        return s;
    };
    std::vector<std::pair<std::string, std::string>> b;
    b.push_back({"polynomial_order", " " + std::to_string(o.p) + "\n"});
    b.push_back({"mesh", mapping({{"format", o.format}, {"file_name", o.file}, {"coordinate_system", o.coord}}, 1)});
    std::vector<std::pair<std::string, std::string>> ts{{"start_time", o.s.str()}, {"end_time", o.e.str()}, {"dt", num(o.dt)},
                                                        {"order", std::to_string(o.order)}, {"nstages", std::to_string(o.nstages)}};
    if (o.has_ramp)
        ts.push_back({"ramp_duration", num(o.ramp)});
    b.push_back({"timestepping", mapping(ts, 1)});
    std::vector<std::pair<std::string, std::string>> pr{{"name", " " + o.name + "\n"}};
    if (o.has_g)
        pr.push_back({"gravity", " " + num(o.g) + "\n"});
    if (o.has_ra)
        pr.push_back({"density_air", " " + num(o.ra) + "\n"});
    if (o.has_rw)
        pr.push_back({"density_water", " " + num(o.rw) + "\n"});
    if (o.sph)
        pr.push_back({"spherical_projection", mapping({{"longitude_o", num(o.lon)}, {"latitude_o", num(o.lat)}, {"R", num(o.R)}}, 2)});
    if (o.ic) {
        if (o.ict)
            pr.push_back({"initial_conditions", mapping({{"type", "Constant"}, {"initial_surface_height", num(o.ze)},
                                                         {"initial_momentum_x", num(o.qx)}, {"initial_momentum_y", num(o.qy)}}, 2)});
        else
            pr.push_back({"initial_conditions", mapping({{"type", "Function"}}, 2)});
    }
    if (o.fs)
        pr.push_back({"function_source", " Enable\n"});
    if (o.bf) {
        if (o.bft)
            pr.push_back({"bottom_friction", mapping({{"type", "Chezy"}, {"coefficient", num(o.cf)}}, 2)});
        else
            pr.push_back({"bottom_friction", mapping({{"type", "Manning"}, {"coefficient", num(o.cf)}, {"input_file", o.mann}}, 2)});
    }
    if (o.meteo)
        pr.push_back({"meteo_forcing", mapping({{"type", o.mt}, {"raw_input_file", o.mraw}, {"input_file", o.min}, {"frequency", num(o.mfreq)}}, 2)});
    if (o.tide)
        pr.push_back({"tide_potential", mapping({{"type", "Test"}}, 2)});
    if (o.cor)
        pr.push_back({"coriolis", " Enable\n"});
    if (o.wd)
        pr.push_back({"wetting_drying", mapping({{"h_o", num(o.ho)}}, 2)});
    if (o.sl)
        pr.push_back({"slope_limiting", mapping({{"type", "Cockburn-Shu"}, {"M", num(o.M)}, {"nu", num(o.nu)}}, 2)});
    b.push_back({"problem", nest(pr)});
    if (o.lb)
        b.push_back({"load_balancer", mapping({{"name", o.lbname}, {"rebalance_frequency", num(o.lbf)}}, 1)});
    if (o.out) {
        std::vector<std::pair<std::string, std::string>> w{{"path", " " + o.path + "\n"}};
        if (o.log)
            w.push_back({"logfile", mapping({{"name", o.logname}, {"verbose", o.verbose ? "true" : "false"}}, 2)});
        if (o.vtk)
            w.push_back({"vtk", mapping({{"frequency", num(o.fv)}}, 2)});
        if (o.vtu)
            w.push_back({"vtu", mapping({{"frequency", num(o.fu)}}, 2)});
        if (o.modal)
            w.push_back({"modal", mapping({{"frequency", num(o.fm)}}, 2)});
        b.push_back({"output", nest(w)});
    }
    return b;
}
void put(const std::vector<std::pair<std::string, std::string>>& b, const std::vector<uint>& order, const std::string& f) {
    std::ofstream o(f);
    o << "# input\n";
    for (uint k : order)
        o << b[k].first << ":" << b[k].second << "\n";
}
struct Quiet {
    std::ofstream null{"/dev/null"};
    std::streambuf* o;
    Quiet() { o = std::cerr.rdbuf(null.rdbuf()); }
    ~Quiet() { std::cerr.rdbuf(o); }
};
template <typename I>
void check_common(const Opt& o, const InputParameters<I>& in, const char* who) {
    PCHECK(in.polynomial_order == o.p, who << " polynomial order");
    auto& mi = in.mesh_input;
    PCHECK(mi.mesh_format == o.format && mi.mesh_file_name == o.file, who << " mesh");
    std::string stem = o.file.substr(0, o.file.rfind('.'));
    PCHECK(mi.bc_is_file_name == stem + ".bcis" && mi.db_file_name == stem + ".dbmd", who << " derived file names");
    PCHECK(mi.mesh_coordinate_sys == (o.coord == "cartesian" ? CoordinateSystem::cartesian
                                                             : o.coord == "polar" ? CoordinateSystem::polar : CoordinateSystem::spherical),
           who << " coordinate system");
    auto& s = in.stepper_input;
    PCHECK(s.run_time == double(o.e.sec() - o.s.sec()), who << " run time " << s.run_time << " for " << o.s.str() << " - " << o.e.str());
    PCHECK(s.dt == o.dt && s.order == o.order && s.nstages == o.nstages, who << " time stepping");
    PCHECK(s.ramp_duration == (o.has_ramp ? o.ramp : 0.0), who << " ramp");
    auto& l = in.load_balancer_input;
    PCHECK(l.use_load_balancer == o.lb && (!o.lb || (l.name == o.lbname && l.rebalance_frequency == o.lbf)), who << " load balancer");
    auto& w = in.writer_input;
    PCHECK(w.writing_output == o.out, who << " output");
    if (o.out) {
        PCHECK(w.output_path == o.path + (o.path.back() == '/' ? "" : "/"), who << " output path " << w.output_path);
        PCHECK(w.writing_log_file == o.log && (!o.log || (w.log_file_name == o.logname && w.verbose_log_file == o.verbose)), who << " log");
        PCHECK(w.writing_vtk_output == o.vtk && (!o.vtk || (w.vtk_output_frequency == o.fv && w.vtk_output_freq_step == o.step_v)),
               who << " vtk output: every " << w.vtk_output_freq_step << " steps, not " << o.step_v);
        PCHECK(w.writing_vtu_output == o.vtu && (!o.vtu || (w.vtu_output_frequency == o.fu && w.vtu_output_freq_step == o.step_u)),
               who << " vtu output: every " << w.vtu_output_freq_step << " steps, not " << o.step_u);
        PCHECK(w.writing_modal_output == o.modal && (!o.modal || (w.modal_output_frequency == o.fm && w.modal_output_freq_step == o.step_m)),
               who << " modal output: every " << w.modal_output_freq_step << " steps, not " << o.step_m);
    } else
        PCHECK(!w.writing_log_file && !w.writing_vtk_output && !w.writing_vtu_output && !w.writing_modal_output, who << " no output");
}
void check_problem(const Opt& o, const SWE::Inputs& p, const char* who) {
    PCHECK(p.name == o.name, who << " problem name");
    PCHECK(p.g == (o.has_g ? o.g : 9.81) && p.rho_air == (o.has_ra ? o.ra : 1.225) && p.rho_water == (o.has_rw ? o.rw : 1000.0),
           who << " gravity and densities");
    auto& s = p.spherical_projection;
    PCHECK((s.type == SWE::SphericalProjectionType::Enable) == o.sph, who << " spherical projection");
    if (o.sph)
        PCHECK(s.longitude_o == o.lon && s.latitude_o == o.lat && s.R == o.R, who << " spherical projection");
    else
        PCHECK(s.R == 6378200.0 && s.longitude_o == 0 && s.latitude_o == 0, who << " default projection");
    auto& i = p.initial_conditions;
    if (!o.ic)
        PCHECK(i.type == SWE::InitialConditionsType::Default && i.ze_initial == 0 && i.qx_initial == 0 && i.qy_initial == 0, who << " default ic");
    else if (o.ict)
        PCHECK(i.type == SWE::InitialConditionsType::Constant && i.ze_initial == o.ze && i.qx_initial == o.qx && i.qy_initial == o.qy, who << " ic");
    else
        PCHECK(i.type == SWE::InitialConditionsType::Function, who << " ic");
    PCHECK((p.function_source.type == SWE::FunctionSourceType::Enable) == o.fs, who << " function source");
    auto& b = p.bottom_friction;
    if (!o.bf)
        PCHECK(b.type == SWE::BottomFrictionType::None, who << " friction");
    else
        PCHECK(b.type == (o.bft ? SWE::BottomFrictionType::Chezy : SWE::BottomFrictionType::Manning) && b.coefficient == o.cf &&
                   (o.bft || b.manning_data_file == o.mann),
               who << " friction");
    auto& m = p.meteo_forcing;
    PCHECK((m.type == SWE::MeteoForcingType::Enable) == o.meteo, who << " meteo");
    if (o.meteo)
        PCHECK(m.meteo_data_type == o.mt && m.raw_meteo_data_file == o.mraw && m.meteo_data_file == o.min && m.frequency == o.mfreq, who << " meteo");
    PCHECK((p.tide_potential.type == SWE::TidePotentialType::Test) == o.tide, who << " tide potential");
    PCHECK((p.coriolis.type == SWE::CoriolisType::Enable) == o.cor, who << " coriolis");
    PCHECK((p.wet_dry.type == SWE::WettingDryingType::Enable) == o.wd && p.wet_dry.h_o == (o.wd ? o.ho : 0.1), who << " wetting and drying");
    auto& l = p.slope_limit;
    PCHECK((l.type == SWE::SlopeLimitingType::CockburnShu) == o.sl, who << " slope limiting");
    if (o.sl)
        PCHECK(l.M == o.M && l.nu == o.nu && l.slope_limiting_type == "Cockburn-Shu", who << " slope limiting");
}
#if SEL(7)
LAW(P07, every_option_is_taken_over, "at least four optional sections", 24000, 360000) {
    Quiet q;
    reset_globals();
    auto o = options(t);
    bool gn = t.chance(25);
    o.name  = gn ? "ehdg_gn" : t.pick({"rkdg_swe", "ehdg_swe", "ihdg_swe"});
    auto b = blocks(o, t);
    put(b, t.perm(b.size()), "in.15");
    if (o.sph + o.ic + o.fs + o.bf + o.meteo + o.wd + o.sl + o.out + o.lb >= 4)
        t.nontrivial();
    InputParameters<> y("in.15");
    check_common(o, y, "generic reading,");
    PCHECK(y.problem_input.node["name"].as<std::string>() == o.name, "problem name");
    auto specific = [&](auto in) {
        check_common(o, in, "reading,");
        check_problem(o, in.problem_input, "reading,");
        in.write_to("out.15");
        decltype(in) again("out.15");
        Opt w = o;
        if (w.out && w.path.back() != '/')
            w.path += '/';
        check_common(w, again, "reading what was written,");
        check_problem(w, again.problem_input, "reading what was written,");
        y.write_to("out2.15");
        decltype(in) third("out2.15");
        check_common(w, third, "reading what was written generically,");
        check_problem(w, third.problem_input, "reading what was written generically,");
        SWE::initialize_problem_parameters(in.problem_input);
    };
    if (gn)
        specific(InputParameters<GN::Inputs>("in.15"));
    else
        specific(InputParameters<SWE::Inputs>("in.15"));
    // what the solver works with
    PCHECK(SWE::Global::g == (o.has_g ? o.g : 9.81) && SWE::Global::rho_air == (o.has_ra ? o.ra : 1.225) &&
               SWE::Global::rho_water == (o.has_rw ? o.rw : 1000.0),
           "gravity and densities in effect");
    PCHECK(SWE::SourceTerms::function_source == o.fs && SWE::SourceTerms::bottom_friction == o.bf && SWE::SourceTerms::meteo_forcing == o.meteo &&
               SWE::SourceTerms::tide_potential == o.tide && SWE::SourceTerms::coriolis == o.cor,
           "source terms in effect");
    if (o.bf)
        PCHECK(SWE::SourceTerms::Cf == o.cf, "friction coefficient in effect");
    PCHECK(SWE::PostProcessing::wetting_drying == o.wd && SWE::PostProcessing::slope_limiting == o.sl, "postprocessing in effect");
    if (o.wd)
        PCHECK(SWE::PostProcessing::h_o == o.ho && SWE::PostProcessing::h_o_threshold > 0 && SWE::PostProcessing::h_o_threshold < 1e-6 * o.ho,
               "wetting-drying depths in effect");
    if (o.sl)
        PCHECK(SWE::PostProcessing::M == o.M && SWE::PostProcessing::nu == o.nu, "limiter parameters in effect");
    // names of the files of a submesh
    uint loc = t.i(0, 30), sub = t.i(0, 30);
    InputParameters<> part("in.15", loc, sub);
    auto ins = [&](std::string s) {
        return s.insert(s.rfind('.'), "_" + std::to_string(loc) + "_" + std::to_string(sub));
    };
    PCHECK(part.mesh_input.mesh_file_name == ins(o.file), "mesh of submesh: " << part.mesh_input.mesh_file_name);
    PCHECK(part.mesh_input.db_file_name == ins(y.mesh_input.db_file_name), "dbmd of submesh");
    PCHECK(part.mesh_input.bc_is_file_name == y.mesh_input.bc_is_file_name, "bcis of submesh");
}
#endif

#if SEL(7)
LAW(P07, incomplete_or_unknown_input_is_refused, "always (one defect per case)", 12000, 180000) {
    Quiet q;
    auto o = options(t);
    o.out = true, o.log = true, o.vtk = true, o.vtu = true, o.modal = true, o.lb = true;
    o.bf = true;
    t.nontrivial();
    int kind = t.i(0, 11);
    t.label("kind" + std::to_string(kind));
    std::string drop;
    Opt w = o;
    switch (kind) {
        case 0: w.format = t.pick({"ADCIRC", "adcirc", "meta", "Gmsh", "Adcirc2"}); break;
        case 1: w.coord = t.pick({"Cartesian", "utm", "geographic", "sphere"}); break;
        case 2: w.name = t.pick({"rkdg", "swe", "rkdg_gn", "RKDG_SWE", "ehdg_gn"}); break;
        case 3: w.cf = -t.r(1e-3, 1); break;
        default: break;
    }
    auto b = blocks(w, t);
    auto erase_block = [&](const std::string& n) {
        for (uint k = 0; k < b.size(); ++k)
            if (b[k].first == n) {
                b.erase(b.begin() + k);
                return;
            }
    };
    auto erase_key = [&](const std::string& blk, const std::string& kname) {
        for (auto& e : b)
            if (e.first == blk) {
                std::string r;
                std::istringstream s(e.second);
                std::string l;
                while (std::getline(s, l)) {
                    auto c = l.find_first_not_of(' ');
                    if (c != std::string::npos && l.compare(c, kname.size() + 1, kname + ":") == 0 &&
                        (c <= 2 || blk == "output"))
                        continue;
                    r += l + "\n";
                }
                e.second = r;
            }
    };
    switch (kind) {
        case 4: erase_block("polynomial_order"); break;
        case 5: erase_block("mesh"); break;
        case 6: erase_block("timestepping"); break;
        case 7: erase_block("problem"); break;
        case 8: drop = t.pick({"format", "file_name", "coordinate_system"}); erase_key("mesh", drop); break;
        case 9: drop = t.pick({"start_time", "end_time", "dt", "order", "nstages"}); erase_key("timestepping", drop); break;
        case 10: erase_key("output", "path"); break;
        case 11: drop = t.pick({"name", "rebalance_frequency"}); erase_key("load_balancer", drop); break;
        default: break;
    }
    put(b, t.perm(b.size()), "in.15");
    PCHECK(throws_logic([] { InputParameters<SWE::Inputs> in("in.15"); }), "input with defect " << kind << " " << drop << " was accepted");
    if (kind != 2 && kind != 3 && kind != 7)
        PCHECK(throws_logic([] { InputParameters<> in("in.15"); }), "generic reading of input with defect " << kind << " " << drop << " succeeded");
}
#endif

#if SEL(7)
LAW(P07, boundary_condition_records, "at least two records", 24000, 360000) {
    struct Rec {
        int type;
        std::vector<uint> n;
        std::vector<mg::Con> con;
        std::vector<uint> back;
        std::vector<std::array<double, 3>> lev;
    };
    std::vector<Rec> recs;
    int nr = t.i(1, 6);
    std::ofstream f("x.bcis");
    f << std::setprecision(17);
    auto eol = [&]() {
        if (t.chance(20))
            f << "   ! remark";
        f << (t.chance(3) ? " \n" : "\n");
    };
    uint next = 1;
    for (int r = 0; r < nr; ++r) {
        Rec q;
        q.type = t.pick({1, 2, 129});
        uint nn = t.i(1, 6);
        for (uint k = 0; k < nn; ++k)
            q.n.push_back(next += t.i(1, 1000));
        if (t.b())
            std::reverse(q.n.begin(), q.n.end());
        f << q.type << " " << nn;
        eol();
        if (q.type == 129) {
            for (uint k = 0; k < nn; ++k) {
                q.back.push_back(next += t.i(1, 1000));
                q.lev.push_back({t.s(10), t.r(0, 2), t.r(0, 2)});
                f << q.n[k] << " " << q.back[k] << " " << q.lev[k][0] << "   " << q.lev[k][1] << " " << q.lev[k][2];
                eol();
            }
        } else {
            int nc = t.i(0, 4);
            f << nc;
            eol();
            for (int c = 0; c < nc; ++c) {
                mg::Con a;
                a.freq = t.lg(1e-8, 1), a.ff = t.r(0, 2), a.eq = t.s(360);
                f << a.freq << " " << a.ff << " " << a.eq;
                eol();
                for (uint k = 0; k < nn; ++k) {
                    a.amp.push_back(t.s(3));
                    a.phase.push_back(t.s(360));
                    f << q.n[k] << "\t" << a.amp[k] << " " << a.phase[k];
                    eol();
                }
                q.con.push_back(a);
            }
        }
        if (t.chance(15))
            f << (t.b() ? "\n" : "   \n");
        recs.push_back(q);
    }
    f.close();
    if (nr > 1)
        t.nontrivial();
    SWE::Inputs in;
    in.read_bcis("x.bcis");
    uint it = 0, iff = 0, nl = 0;
    auto forced = [&](const auto& nodes, const Rec& q) {
        PCHECK(nodes.size() == (q.con.empty() ? 0 : q.n.size()), "nodes of the record");
        if (q.con.empty())
            return;
        for (uint k = 0; k < q.n.size(); ++k) {
            PCHECK(nodes.count(q.n[k]), "node " << q.n[k] << " missing");
            auto& d = nodes.at(q.n[k]);
            PCHECK(d.frequency.size() == q.con.size() && d.forcing_fact.size() == q.con.size() && d.equilib_arg.size() == q.con.size() &&
                       d.amplitude.size() == q.con.size() && d.phase.size() == q.con.size(),
                   "number of constituents");
            for (uint c = 0; c < q.con.size(); ++c)
                PCHECK(d.frequency[c] == q.con[c].freq && d.forcing_fact[c] == q.con[c].ff && d.equilib_arg[c] == q.con[c].eq &&
                           d.amplitude[c] == q.con[c].amp[k] && d.phase[c] == q.con[c].phase[k],
                       "constituent " << c << " at node " << q.n[k]);
        }
    };
    for (auto& q : recs) {
        if (q.type == 1) {
            PCHECK(it < in.tide_bc_data.size(), "tide record lost");
            forced(in.tide_bc_data[it++].tide_nodes, q);
        } else if (q.type == 2) {
            PCHECK(iff < in.flow_bc_data.size(), "flow record lost");
            forced(in.flow_bc_data[iff++].flow_nodes, q);
        } else
            for (uint k = 0; k < q.n.size(); ++k) {
                ++nl;
                auto f2 = in.levee_is_data.find({q.n[k], q.back[k]});
                PCHECK(f2 != in.levee_is_data.end(), "levee pair lost");
                PCHECK(f2->second.H_barrier == q.lev[k][0] && f2->second.C_subcritical == q.lev[k][1] && f2->second.C_supercritical == q.lev[k][2],
                       "levee data");
            }
    }
    PCHECK(it == in.tide_bc_data.size() && iff == in.flow_bc_data.size() && nl == in.levee_is_data.size(), "records not written");
    // data for an edge: both nodes of one record, in the order asked for
    for (uint r = 0, ti = 0; r < recs.size(); ++r)
        if (recs[r].type == 1) {
            auto& q = recs[r];
            if (q.n.size() > 1 && !q.con.empty()) {
                uint a = t.i(0, q.n.size() - 1), b = t.i(0, q.n.size() - 1);
                std::vector<SWE::TideNode> d;
                PCHECK(in.tide_bc_data[ti].get_tide_data({q.n[a], q.n[b]}, d) && d.size() == 2, "tide data of an edge");
                PCHECK(d[0].amplitude[0] == q.con[0].amp[a] && d[1].amplitude[0] == q.con[0].amp[b], "tide data of an edge in order");
                d.clear();
                PCHECK(!in.tide_bc_data[ti].get_tide_data({q.n[a], next + 5}, d) && d.empty(), "tide data of a foreign edge");
            }
            ++ti;
        }
}
#endif
// records of edges cut by a partition
#if SEL(18)
LAW(P18, cut_edge_records, "at least two edges", 16000, 240000) {
    int nb = t.i(0, 4);
    uint la = t.i(0, 20), sa = t.i(0, 20);
    struct Row {
        uint e1, e2, b1, b2, p;
    };
    struct Sec {
        bool first;
        uint lo, so;
        std::vector<Row> r;
    };
    std::vector<Sec> secs;
    std::ofstream f("x.dbmd");
    uint total = 0;
    for (int k = 0; k < nb; ++k) {
        Sec s;
        s.first = t.b();
        do {
            s.lo = t.i(0, 20), s.so = t.i(0, 20);
        } while (s.lo == la && s.so == sa);
        int n = t.i(1, 6);
        if (s.first)
            f << la << " " << sa << " " << s.lo << " " << s.so;
        else
            f << s.lo << " " << s.so << " " << la << " " << sa;
        f << " " << n << "\n";
        for (int j = 0; j < n; ++j) {
            Row r{(uint)t.i(0, 100000), (uint)t.i(0, 100000), (uint)t.i(0, 2), (uint)t.i(0, 2), (uint)t.i(1, 5)};
            f << r.e1 << " " << r.e2 << " " << r.b1 << " " << r.b2 << " " << r.p << "\n";
            s.r.push_back(r);
            ++total;
        }
        secs.push_back(s);
    }
    f.close();
    if (total > 1)
        t.nontrivial();
    DistributedBoundaryMetaData d("x.dbmd", la, sa);
    PCHECK(d.rank_boundary_data.size() == secs.size(), "neighbourhoods");
    for (uint k = 0; k < secs.size(); ++k) {
        auto& g = d.rank_boundary_data[k];
        auto& s = secs[k];
        PCHECK(g.locality_in == la && g.submesh_in == sa && g.locality_ex == s.lo && g.submesh_ex == s.so, "ends of neighbourhood " << k);
        PCHECK(g.elements_in.size() == s.r.size() && g.elements_ex.size() == s.r.size() && g.bound_ids_in.size() == s.r.size() &&
                   g.bound_ids_ex.size() == s.r.size() && g.p.size() == s.r.size(),
               "edges of neighbourhood " << k);
        for (uint j = 0; j < s.r.size(); ++j) {
            auto& r = s.r[j];
            bool o  = s.first;
            PCHECK(g.elements_in[j] == (o ? r.e1 : r.e2) && g.elements_ex[j] == (o ? r.e2 : r.e1) && g.bound_ids_in[j] == (o ? r.b1 : r.b2) &&
                       g.bound_ids_ex[j] == (o ? r.b2 : r.b1) && g.p[j] == r.p,
                   "edge " << j << " of neighbourhood " << k);
        }
    }
    if (nb > 0)
        PCHECK(throws_logic([&] { DistributedBoundaryMetaData("x.dbmd", la + 50, sa); }), "records of another submesh were accepted");
    PCHECK(throws_logic([&] { DistributedBoundaryMetaData("none.dbmd", la, sa); }), "missing file was accepted");
}
#endif
}
