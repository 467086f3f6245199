// The partitioner program, callable in process, with the graph partitioning library replaced by the test case's choice.
// Linked with --wrap=main: the program starts in the harness, and the partitioner's main is called for each case.
#include "pbt.hpp"
#include "metis.h"
#include <dirent.h>

namespace {
struct Graph {
    idx_t n = 0, nparts = 0, ncon = 0;
    std::vector<std::vector<idx_t>> adj;
    std::vector<idx_t> vw, ew;
    std::vector<idx_t> part;
};
std::function<idx_t(int call, idx_t vertex, idx_t nparts)> chooser;
std::vector<Graph> graphs;
}
extern "C" int METIS_SetDefaultOptions(idx_t* o) {
    for (int k = 0; k < METIS_NOPTIONS; ++k)
        o[k] = -1;
    return 1;
}
extern "C" int METIS_PartGraphKway(idx_t* nvtxs, idx_t* ncon, idx_t* xadj, idx_t* adjncy, idx_t* vwgt, idx_t*, idx_t* adjwgt, idx_t* nparts,
                                   real_t*, real_t*, idx_t*, idx_t* objval, idx_t* part) {
    Graph g;
    g.n      = *nvtxs;
    g.nparts = *nparts;
    g.ncon   = *ncon;
    for (idx_t k = 0; k < g.n; ++k) {
        g.adj.emplace_back(adjncy + xadj[k], adjncy + xadj[k + 1]);
        for (idx_t c = 0; c < g.ncon; ++c)
            g.vw.push_back(vwgt[k * g.ncon + c]);
    }
    for (idx_t k = 0; k < xadj[g.n]; ++k)
        g.ew.push_back(adjwgt[k]);
    for (idx_t k = 0; k < g.n; ++k) {
        part[k] = chooser(graphs.size(), k, g.nparts);
        g.part.push_back(part[k]);
    }
    *objval = 0;
    graphs.push_back(g);
    return 1;
}

namespace {
struct Silent {
    std::stringstream s;
    std::streambuf* o;
    Silent() : o(std::cout.rdbuf(s.rdbuf())) {}
    ~Silent() { std::cout.rdbuf(o); }
};
std::set<std::string> files(const std::string& suffix) {
    std::set<std::string> r;
    DIR* d = opendir(".");
    while (auto* e = readdir(d)) {
        std::string n = e->d_name;
        if (n.size() > suffix.size() && n.substr(n.size() - suffix.size()) == suffix)
            r.insert(n);
    }
    closedir(d);
    return r;
}
void clear(const std::string& suffix) {
    for (auto& f : files(suffix))
        std::remove(f.c_str());
}
bool same(const YAML::Node& a, const YAML::Node& b) {
    if (a.IsMap() && b.IsMap()) {
        for (auto it : a) {
            auto k = it.first.as<std::string>();
            if (!b[k] || !same(it.second, b[k]))
                return false;
        }
        return true;
    }
    if (a.IsSequence() && b.IsSequence()) {
        if (a.size() != b.size())
            return false;
        for (uint k = 0; k < a.size(); ++k)
            if (!same(a[k], b[k]))
                return false;
        return true;
    }
    if (a.IsScalar() && b.IsScalar()) {
        auto x = a.as<std::string>(), y = b.as<std::string>();
        if (x == y)
            return true;
        char *ex, *ey;
        double u = strtod(x.c_str(), &ex), v = strtod(y.c_str(), &ey);
        return !*ex && !*ey && std::abs(u - v) <= 1e-12 * std::abs(u);
    }
    return a.Type() == b.Type();
}

inline void run_partitioner(std::vector<std::string> a) {
    Silent s;
    std::vector<char*> av;
    for (auto& x : a)
        av.push_back(&x[0]);
    partitioner_main(av.size(), av.data());
}
}
