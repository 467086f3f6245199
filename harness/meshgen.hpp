// Generator of triangulations with ADCIRC boundary descriptions (no repository code).
#ifndef VERIF_MESHGEN_HPP
#define VERIF_MESHGEN_HPP
#include "pbt.hpp"
#include <array>

namespace mg {
using uint = unsigned;
enum Kind { LAND = 0, ISLAND = 1, FLOW = 2, LEVEE = 4, FUNC = 77, OUTFLOW = 88, TIDE = 1000, GENERIC = 1001 };

struct Con {  // one forcing constituent of a tide/flow segment
    double freq, ff, eq;
    std::vector<double> amp, phase;  // per node
};
struct Seg {
    int kind;
    uint ibtype = 0;
    std::vector<int> n;     // node indices
    std::vector<int> back;  // levee only
    std::vector<double> H, Csub, Csup;
    std::vector<Con> con;
};
struct Mesh {
    std::string name = "mesh";
    std::vector<std::array<double, 3>> x;
    std::vector<std::array<int, 3>> tri;  // counter-clockwise node indices
    std::vector<Seg> seg;
    std::vector<uint> nid, eid;
    double scale = 1;  // typical length

    // edge (a,b) as oriented in its element -> element, local edge k (opposite vertex k)
    std::map<std::pair<int, int>, std::pair<int, int>> oriented() const {
        std::map<std::pair<int, int>, std::pair<int, int>> m;
        for (int e = 0; e < (int)tri.size(); ++e)
            for (int k = 0; k < 3; ++k)
                m[{tri[e][(k + 1) % 3], tri[e][(k + 2) % 3]}] = {e, k};
        return m;
    }
    double area(int e) const {
        auto &a = x[tri[e][0]], &b = x[tri[e][1]], &c = x[tri[e][2]];
        return 0.5 * ((b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1]));
    }
    double area() const {
        double s = 0;
        for (int e = 0; e < (int)tri.size(); ++e)
            s += area(e);
        return s;
    }
    double len(int a, int b) const { return std::hypot(x[a][0] - x[b][0], x[a][1] - x[b][1]); }
    double hmin() const {  // smallest inscribed-circle diameter
        double h = 1e300;
        for (int e = 0; e < (int)tri.size(); ++e) {
            double p = len(tri[e][0], tri[e][1]) + len(tri[e][1], tri[e][2]) + len(tri[e][2], tri[e][0]);
            h        = std::min(h, 4 * area(e) / p);
        }
        return h;
    }
    std::map<uint, int> node_of() const {
        std::map<uint, int> m;
        for (int k = 0; k < (int)nid.size(); ++k)
            m[nid[k]] = k;
        return m;
    }
    std::map<uint, int> elt_of() const {
        std::map<uint, int> m;
        for (int k = 0; k < (int)eid.size(); ++k)
            m[eid[k]] = k;
        return m;
    }
    // order in which nodes / elements are listed
    std::vector<uint> norder, eorder;
    // elements whose vertices the mesh file lists clockwise
    std::set<uint> cw;

    void write14(const std::string& path, int style = 0) const {
        std::ofstream f(path);
        f << std::setprecision(17);
        f << name << (style & 1 ? "  some comment on the title line" : "") << "\n";
        f << tri.size() << "    " << x.size() << (style & 1 ? " ! elements, nodes" : "") << "\n";
        for (uint kk = 0; kk < x.size(); ++kk) {
            uint k = norder.empty() ? kk : norder[kk];
            f << nid[k] << " " << x[k][0] << " " << x[k][1] << " " << x[k][2] << "\n";
        }
        for (uint kk = 0; kk < tri.size(); ++kk) {
            uint k = eorder.empty() ? kk : eorder[kk];
            bool r = cw.count(k);
            f << eid[k] << " 3 " << nid[tri[k][r ? 2 : 0]] << " " << nid[tri[k][1]] << " " << nid[tri[k][r ? 0 : 2]] << "\n";
        }
        auto cnt = [&](int what) {
            uint nb = 0, nn = 0;
            for (auto& s : seg) {
                int w = s.kind == TIDE ? 0 : s.kind == GENERIC ? 2 : 1;
                if (w == what) {
                    ++nb;
                    nn += s.n.size();
                }
            }
            return std::make_pair(nb, nn);
        };
        f << cnt(0).first << " = Number of open boundaries\n" << cnt(0).second << " = Total number of open boundary nodes\n";
        for (auto& s : seg)
            if (s.kind == TIDE) {
                f << s.n.size() << " = Number of nodes for open boundary\n";
                for (int k : s.n)
                    f << nid[k] << "\n";
            }
        f << cnt(1).first << " = Number of land boundaries\n" << cnt(1).second << " = Total number of land boundary nodes\n";
        for (auto& s : seg)
            if (s.kind != TIDE && s.kind != GENERIC) {
                f << s.n.size() << " " << s.ibtype << " = Number of nodes for land boundary\n";
                for (uint k = 0; k < s.n.size(); ++k) {
                    f << nid[s.n[k]];
                    if (s.kind == LEVEE)
                        f << " " << nid[s.back[k]] << " " << s.H[k] << " " << s.Csub[k] << " " << s.Csup[k];
                    f << "\n";
                }
            }
        if (cnt(2).first || (style & 2)) {
            f << cnt(2).first << " = Number of generic boundaries\n" << cnt(2).second << " = Total number of generic boundary nodes\n";
            for (auto& s : seg)
                if (s.kind == GENERIC) {
                    f << s.n.size() << " = Number of nodes for generic boundary\n";
                    for (int k : s.n)
                        f << nid[k] << "\n";
                }
        }
    }
    void write_bcis(const std::string& path, int style = 0) const {
        std::ofstream f(path);
        f << std::setprecision(17);
        for (auto& s : seg) {
            if (s.kind == TIDE || s.kind == FLOW) {
                f << (s.kind == TIDE ? 1 : 2) << " " << s.n.size() << "\n" << s.con.size() << "\n";
                for (auto& c : s.con) {
                    f << c.freq << " " << c.ff << " " << c.eq << "\n";
                    for (uint k = 0; k < s.n.size(); ++k)
                        f << nid[s.n[k]] << " " << c.amp[k] << " " << c.phase[k] << "\n";
                }
            } else if (s.kind == LEVEE) {
                f << "129 " << s.n.size() << "\n";
                for (uint k = 0; k < s.n.size(); ++k) {
                    bool sw = style & 1;
                    f << nid[sw ? s.back[k] : s.n[k]] << " " << nid[sw ? s.n[k] : s.back[k]] << " " << s.H[k] << " " << s.Csub[k]
                      << " " << s.Csup[k] << "\n";
                }
            }
        }
    }
    // kind prescribed for the boundary edge {a,b}: returns the segment and position, or -1
    int seg_of(int a, int b) const {
        for (int q = 0; q < (int)seg.size(); ++q)
            for (int side = 0; side < (seg[q].kind == LEVEE ? 2 : 1); ++side) {
                auto& v = side ? seg[q].back : seg[q].n;
                for (uint k = 0; k + 1 < v.size(); ++k)
                    if ((v[k] == a && v[k + 1] == b) || (v[k] == b && v[k + 1] == a))
                        return q;
            }
        return -1;
    }
};

struct Opts {
    int nx_max = 4, ny_max = 4;
    int nx_min = 1, ny_min = 1;
    bool holes = true, perturb = true, numbering = true, affine = true;
    int levee = 0;  // percent
    std::vector<int> kinds{LAND};  // kinds to choose from for outer segments
    bool island_code = true;       // holes may be described with island codes
    bool generic     = false;
    double Lmin = 1, Lmax = 1;     // size of the domain
    double zlo = 1, zhi = 1;       // bathymetry range
    int bath = 3;                  // max kind: 0 constant, 1 linear, 2 smooth, 3 random per node
    double aspect = 3;
    int split_segments = 60;       // percent: split loops into several segments
    bool contiguous_ids = false;
    bool rotate = true, translate = true;
    bool ambiguous = false;        // allow forcing sections that share both ends of an edge
    double shift = 3;              // translation in units of L
};

inline void renumber(pbt::T& t, Mesh& m, const Opts& o) {
    uint N = m.x.size(), E = m.tri.size();
    m.nid.resize(N);
    m.eid.resize(E);
    int st = o.numbering ? t.i(0, o.contiguous_ids ? 1 : 2) : 0;
    for (int w = 0; w < 2; ++w) {
        auto& v = w ? m.eid : m.nid;
        auto p  = st ? t.perm(v.size()) : std::vector<uint>();
        uint gap = 0;
        std::vector<uint> ids(v.size());
        for (uint k = 0; k < ids.size(); ++k) {
            if (st == 2)
                gap += t.i(0, t.chance(10) ? 100000 : 3);
            ids[k] = (w && st == 2 ? 0 : 1) + k + gap;
        }
        for (uint k = 0; k < v.size(); ++k)
            v[k] = ids[st ? p[k] : k];
    }
    if (st) {
        m.norder = t.perm(N);
        m.eorder = t.perm(E);
        for (auto& e : m.tri) {
            int r = t.i(0, 2);
            std::rotate(e.begin(), e.begin() + r, e.end());
        }
    }
}

// boundary loops as oriented node lists (domain on the left)
inline bool loops(const Mesh& m, std::vector<std::vector<int>>& out) {
    auto ed = m.oriented();
    std::map<int, int> next;
    for (auto& kv : ed)
        if (!ed.count({kv.first.second, kv.first.first})) {
            if (next.count(kv.first.first))
                return false;
            next[kv.first.first] = kv.first.second;
        }
    out.clear();
    while (!next.empty()) {
        std::vector<int> l;
        int a = next.begin()->first;
        while (next.count(a)) {
            l.push_back(a);
            int b = next[a];
            next.erase(a);
            a = b;
        }
        if (a != l[0])
            return false;
        out.push_back(l);
    }
    return true;
}
inline double loop_area(const Mesh& m, const std::vector<int>& l) {
    double s = 0;
    for (uint k = 0; k < l.size(); ++k) {
        auto &a = m.x[l[k]], &b = m.x[l[(k + 1) % l.size()]];
        s += 0.5 * (a[0] * b[1] - a[1] * b[0]);
    }
    return s;
}

inline void gen_forcing(pbt::T& t, Seg& s, double amp, double wmax) {
    int nc = t.i(1, 3);
    s.con.clear();
    for (int c = 0; c < nc; ++c) {
        Con q;
        q.freq = t.chance(80) ? t.r(0, wmax) : 0.0;
        q.ff   = t.r(0.5, 1.5);
        q.eq   = t.s(360);
        for (uint k = 0; k < s.n.size(); ++k) {
            q.amp.push_back(t.s(amp));
            q.phase.push_back(t.s(360));
        }
        s.con.push_back(q);
    }
    // closed segments list a node twice: not representable node-wise
}

inline Mesh gen(pbt::T& t, const Opts& o) {
    Mesh m;
    int nx = t.i(o.nx_min, o.nx_max), ny = t.i(o.ny_min, o.ny_max);
    // levee column: cell column lc, rows j0..j1-1 removed
    int lc = -1, j0 = 0, j1 = 0;
    bool levee = o.levee && t.chance(o.levee);
    if (levee) {
        nx = std::max(nx, 3);
        lc = t.i(1, nx - 2);
        switch (ny >= 3 ? t.i(0, 3) : ny == 2 ? t.i(0, 2) : 0) {
            case 0: j0 = 0, j1 = ny; break;
            case 1: j0 = 0, j1 = t.i(1, ny - 1); break;
            case 2: j0 = t.i(1, ny - 1), j1 = ny; break;
            case 3: j0 = t.i(1, ny - 2), j1 = t.i(j0 + 1, ny - 1); break;
        }
    }
    auto id = [&](int i, int j) { return j * (nx + 1) + i; };
    for (int j = 0; j <= ny; ++j)
        for (int i = 0; i <= nx; ++i)
            m.x.push_back({double(i), double(j), 0});
    struct Cell {
        std::vector<std::array<int, 3>> t;
    };
    std::vector<Cell> cells;
    std::vector<int> centers;
    for (int j = 0; j < ny; ++j)
        for (int i = 0; i < nx; ++i) {
            if (lc == i && j >= j0 && j < j1)
                continue;
            Cell c;
            int a = id(i, j), b = id(i + 1, j), d = id(i + 1, j + 1), e = id(i, j + 1);
            int pat = o.numbering ? t.i(0, 3) : 0;
            if (pat == 3) {
                int q = m.x.size();
                m.x.push_back({i + 0.5, j + 0.5, 0});
                c.t = {{a, b, q}, {b, d, q}, {d, e, q}, {e, a, q}};
            } else if (pat == 1)
                c.t = {{a, b, d}, {a, d, e}};
            else
                c.t = {{a, b, e}, {b, d, e}};
            cells.push_back(c);
        }
    auto build = [&](const std::vector<Cell>& cs) {
        m.tri.clear();
        for (auto& c : cs)
            for (auto& q : c.t)
                m.tri.push_back(q);
    };
    build(cells);
    std::vector<std::vector<int>> lp;
    if (o.holes && cells.size() > 3) {
        int tries = t.i(0, 3);
        for (int q = 0; q < tries && cells.size() > 2; ++q) {
            auto sv = cells;
            int w   = t.i(0, cells.size() - 1);
            // keep levee neighbours
            bool near = false;
            if (levee)
                for (auto& tr : cells[w].t)
                    for (int n : tr)
                        if (n < (nx + 1) * (ny + 1) && (n % (nx + 1) == lc || n % (nx + 1) == lc + 1))
                            near = true;
            if (near)
                continue;
            if (t.b() || cells[w].t.size() == 1)
                cells.erase(cells.begin() + w);
            else
                cells[w].t.erase(cells[w].t.begin() + t.i(0, cells[w].t.size() - 1));
            build(cells);
            if (!loops(m, lp)) {
                cells = sv;
                build(cells);
            }
        }
    }
    // drop unused nodes
    {
        std::vector<int> map(m.x.size(), -1);
        std::vector<std::array<double, 3>> nxs;
        for (auto& e : m.tri)
            for (int& n : e) {
                if (map[n] < 0) {
                    map[n] = nxs.size();
                    nxs.push_back(m.x[n]);
                }
                n = map[n];
            }
        m.x = nxs;
    }
    std::map<std::pair<long, long>, int> at;  // original integer position (doubled) -> node
    for (int k = 0; k < (int)m.x.size(); ++k)
        at[{std::lround(2 * m.x[k][0]), std::lround(2 * m.x[k][1])}] = k;
    loops(m, lp);
    // levee segment
    std::set<std::pair<int, int>> levee_edges;
    if (levee) {
        Seg s;
        s.kind   = LEVEE;
        s.ibtype = t.pick({4u, 24u});
        for (int j = j0; j <= j1; ++j) {
            s.n.push_back(at.at({2 * lc, 2 * j}));
            s.back.push_back(at.at({2 * lc + 2, 2 * j}));
            s.H.push_back(0);
            s.Csub.push_back(0);
            s.Csup.push_back(0);
        }
        if (t.b()) {
            std::reverse(s.n.begin(), s.n.end());
            std::reverse(s.back.begin(), s.back.end());
        }
        if (t.b())
            std::swap(s.n, s.back);
        for (auto* v : {&s.n, &s.back})
            for (uint k = 0; k + 1 < v->size(); ++k) {
                levee_edges.insert({(*v)[k], (*v)[k + 1]});
                levee_edges.insert({(*v)[k + 1], (*v)[k]});
            }
        m.seg.push_back(s);
        t.label("levee");
    }
    // perturb
    if (o.perturb && t.chance(80)) {
        double amp = t.r(0.0, 0.32);
        auto orig  = m.x;
        for (auto& p : m.x) {
            p[0] += t.s(amp);
            p[1] += t.s(amp);
        }
        if (levee)  // facing edges stay parallel and equally long
            for (uint k = 0; k < m.seg[0].n.size(); ++k) {
                int a = m.seg[0].n[k], b = m.seg[0].back[k];
                double dx = orig[b][0] - orig[a][0];
                m.x[b][0] = m.x[a][0] + dx;
                m.x[b][1] = m.x[a][1];
            }
        for (int e = 0; e < (int)m.tri.size(); ++e)
            if (m.area(e) < 0.04) {
                m.x = orig;
                break;
            }
    }
    if (levee && j0 == 0 && j1 == ny && t.b()) {  // coincident sides
        t.label("coincident-levee");
        double dx = m.x[at.at({2 * lc + 2, 0})][0] - m.x[at.at({2 * lc, 0})][0];
        std::set<int> right;
        for (auto& kv : at)
            if (kv.first.first >= 2 * lc + 2)
                right.insert(kv.second);
        for (int k : right)
            m.x[k][0] -= dx;
    }
    // bathymetry on the unit frame
    int bk = t.i(0, o.bath);
    {
        double c = t.r(o.zlo, o.zhi), gx = t.s(1), gy = t.s(1), k1 = t.r(0, 2), k2 = t.r(0, 2), ph = t.r(0, 6.3);
        double D = std::abs(gx) * nx + std::abs(gy) * ny + 1e-30;
        for (auto& p : m.x) {
            if (bk == 0)
                p[2] = c;
            else if (bk == 1)
                p[2] = 0.5 * (o.zlo + o.zhi) + 0.5 * (o.zhi - o.zlo) * ((gx * (p[0] - nx / 2.) + gy * (p[1] - ny / 2.)) * 2 / D) * 0.9;
            else if (bk == 2)
                p[2] = 0.5 * (o.zlo + o.zhi) + 0.5 * (o.zhi - o.zlo) * std::sin(k1 * p[0] + k2 * p[1] + ph);
            else
                p[2] = t.r(o.zlo, o.zhi);
        }
        t.label(std::string("bath") + char('0' + bk));
    }
    // affine map
    double L = t.lg(o.Lmin, o.Lmax);
    m.scale  = L;
    double sx = L / nx, sy = L / ny, th = 0, tx = 0, ty = 0;
    if (o.affine) {
        double as = t.lg(1.0, o.aspect);
        (t.b() ? sx : sy) *= 1 / as;
        if (o.rotate && t.chance(70))
            th = t.r(0, 6.283185307179586);
        if (o.translate && t.chance(70)) {
            tx = t.s(o.shift) * L;
            ty = t.s(o.shift) * L;
        }
    }
    for (auto& p : m.x) {
        double X = p[0] * sx, Y = p[1] * sy;
        p[0] = std::cos(th) * X - std::sin(th) * Y + tx;
        p[1] = std::sin(th) * X + std::cos(th) * Y + ty;
    }
    // boundary segments
    for (auto& l : lp) {
        bool outer = loop_area(m, l) > 0;
        // rotate the loop's start
        uint r = t.i(0, l.size() - 1);
        if (levee) {
            // start at a change of levee/non-levee if there is one
            for (uint k = 0; k < l.size(); ++k) {
                uint q = (r + k) % l.size();
                if (levee_edges.count({l[q], l[(q + 1) % l.size()]}) == 0 &&
                    levee_edges.count({l[(q + l.size() - 1) % l.size()], l[q]})) {
                    r = q;
                    break;
                }
            }
        }
        std::rotate(l.begin(), l.begin() + r, l.end());
        std::vector<int> cur;
        int ne     = l.size();
        auto flush = [&]() {
            if (cur.size() < 2) {
                cur.clear();
                return;
            }
            // levee end edges need no description of their own
            if (cur.size() == 2 && levee) {
                auto& s = m.seg[0];
                auto is_end = [&](uint q) { return (s.n[q] == cur[0] && s.back[q] == cur[1]) || (s.n[q] == cur[1] && s.back[q] == cur[0]); };
                if (is_end(0) || is_end(s.n.size() - 1)) {
                    t.label("levee-end");
                    cur.clear();
                    return;
                }
            }
            Seg s;
            s.n  = cur;
            bool closed = cur.front() == cur.back();
            if (!outer && o.island_code && closed) {
                s.kind   = t.chance(70) ? ISLAND : LAND;
                s.ibtype = (s.kind == ISLAND ? 1 : 0) + 10 * t.i(0, 2);
                t.label("island");
            } else {
                s.kind = o.kinds[t.i(0, o.kinds.size() - 1)];
                if (closed && (s.kind == TIDE || s.kind == FLOW))
                    s.kind = LAND;
                if (s.kind == LAND)
                    s.ibtype = 10 * t.i(0, 2);
                else if (s.kind == FLOW)
                    s.ibtype = 2 + 10 * t.i(0, 2);
                else if (s.kind == FUNC)
                    s.ibtype = 77;
                else if (s.kind == OUTFLOW)
                    s.ibtype = 88;
                if (s.kind == LAND && o.generic && t.chance(30))
                    s.kind = GENERIC;
            }
            if (t.b())
                std::reverse(s.n.begin(), s.n.end());
            m.seg.push_back(s);
            cur.clear();
        };
        bool split = t.chance(o.split_segments) && (outer || t.chance(30));
        for (int k = 0; k < ne; ++k) {
            int a = l[k], b = l[(k + 1) % ne];
            if (levee_edges.count({a, b})) {
                flush();
                continue;
            }
            if (cur.empty())
                cur.push_back(a);
            cur.push_back(b);
            if (split && t.chance(30))
                flush();
        }
        flush();
    }
    // Forcing is given per node and section; an edge whose two ends also lie in another section of the kind would be
    // described twice (see DESIGN.md, ambiguous forcing sections), so such sections become land.
    for (uint a = 0; a < m.seg.size(); ++a)
        for (uint b = 0; b < m.seg.size(); ++b)
            if (!o.ambiguous && a != b && (m.seg[a].kind == TIDE || m.seg[a].kind == FLOW) && m.seg[b].kind == m.seg[a].kind) {
                std::set<int> in(m.seg[b].n.begin(), m.seg[b].n.end());
                bool amb = false;
                for (uint k = 0; k + 1 < m.seg[a].n.size(); ++k)
                    amb |= in.count(m.seg[a].n[k]) && in.count(m.seg[a].n[k + 1]);
                if (amb) {
                    m.seg[a].kind   = LAND;
                    m.seg[a].ibtype = 0;
                }
            }
    // order of the segments
    if (o.numbering) {
        auto p  = t.perm(m.seg.size());
        auto sv = m.seg;
        for (uint k = 0; k < p.size(); ++k)
            m.seg[k] = sv[p[k]];
    }
    renumber(t, m, o);
    return m;
}
// every triangle split into four
inline Mesh refine(const Mesh& m) {
    Mesh r;
    r.name = m.name;
    r.scale = m.scale;
    r.x = m.x;
    std::map<std::pair<int, int>, int> mid;
    auto M = [&](int a, int b) {
        auto key = std::minmax(a, b);
        auto it = mid.find(key);
        if (it != mid.end())
            return it->second;
        r.x.push_back({(m.x[a][0] + m.x[b][0]) / 2, (m.x[a][1] + m.x[b][1]) / 2, (m.x[a][2] + m.x[b][2]) / 2});
        return mid[key] = (int)r.x.size() - 1;
    };
    for (auto& e : m.tri) {
        int a = e[0], b = e[1], c = e[2], ab = M(a, b), bc = M(b, c), ca = M(c, a);
        r.tri.push_back({a, ab, ca});
        r.tri.push_back({ab, b, bc});
        r.tri.push_back({ca, bc, c});
        r.tri.push_back({ab, bc, ca});
    }
    for (auto sg : m.seg) {
        std::vector<int> n;
        for (unsigned k = 0; k + 1 < sg.n.size(); ++k) {
            n.push_back(sg.n[k]);
            n.push_back(M(sg.n[k], sg.n[k + 1]));
        }
        n.push_back(sg.n.back());
        sg.n = n;
        r.seg.push_back(sg);
    }
    for (unsigned k = 0; k < r.x.size(); ++k)
        r.nid.push_back(k + 1);
    for (unsigned k = 0; k < r.tri.size(); ++k)
        r.eid.push_back(k + 1);
    return r;
}
}
#endif
