// Drives the repository's solvers in-process exactly as Serial::Simulation does, on generated input.
#ifndef VERIF_SIM_HPP
#define VERIF_SIM_HPP
#include "general_definitions.hpp"
#include "preprocessor/input_parameters.hpp"
#include "simulation/serial/simulation_base.hpp"
#include "problem/definitions.hpp"
#include "problem/serial_functions.hpp"
#include "pbt.hpp"
#include "oracle.hpp"
#include "meshgen.hpp"

namespace sim {
using uint = unsigned;

inline void reset_globals() {
    SWE::Global::g                    = 9.81;
    SWE::Global::rho_air              = 1.225;
    SWE::Global::rho_water            = 1000.0;
    SWE::SourceTerms::function_source = SWE::SourceTerms::bottom_friction = SWE::SourceTerms::meteo_forcing =
        SWE::SourceTerms::tide_potential = SWE::SourceTerms::coriolis = false;
    SWE::SourceTerms::Cf                = 0.0;
    SWE::PostProcessing::wetting_drying = SWE::PostProcessing::slope_limiting = false;
    SWE::PostProcessing::h_o           = 0.1;
    SWE::PostProcessing::h_o_threshold = 1.0e-6;
    SWE::PostProcessing::M             = 1.0e-8;
    SWE::PostProcessing::nu            = 1.5;
    hook::ic_q()                       = nullptr;
    hook::source_q()                   = nullptr;
    hook::true_q()                     = nullptr;
}

struct Cfg {
    std::string problem = "rkdg_swe";
    uint p              = 1;
    double dt           = 1;
    long run_time       = 1000;  // seconds
    uint order = 2, nstages = 2;
    double ramp = 0;  // days
    double g    = 9.81;
    std::string blocks;               // further lines of the problem block, indented by two
    std::string coord = "cartesian";
    std::string format = "Adcirc", mesh = "mesh.14";
    std::string output;               // whole output block, or empty

    std::string ic = "Function";
    double ze0 = 0, qx0 = 0, qy0 = 0;

    void write(const std::string& path) const {
        std::ofstream f(path);
        f << std::setprecision(17);
        f << "polynomial_order: " << p << "\n";
        f << "mesh:\n  format: " << format << "\n  file_name: " << mesh << "\n  coordinate_system: " << coord << "\n";
        char buf[64];
        time_t te = 1000000000 + run_time, ts = 1000000000;
        f << "timestepping:\n";
        strftime(buf, 64, "%d-%m-%Y %H:%M:%S", gmtime(&ts));
        f << "  start_time: " << buf << "\n";
        strftime(buf, 64, "%d-%m-%Y %H:%M:%S", gmtime(&te));
        f << "  end_time: " << buf << "\n";
        f << "  dt: " << dt << "\n  order: " << order << "\n  nstages: " << nstages << "\n";
        if (ramp > 0)
            f << "  ramp_duration: " << ramp << "\n";
        f << "problem:\n  name: " << problem << "\n  gravity: " << g << "\n";
        if (ic == "Function")
            f << "  initial_conditions:\n    type: Function\n";
        else if (ic == "Constant")
            f << "  initial_conditions:\n    type: Constant\n    initial_surface_height: " << ze0
              << "\n    initial_momentum_x: " << qx0 << "\n    initial_momentum_y: " << qy0 << "\n";
        f << blocks;
        f << output;
    }
};

template <typename P>
struct Sim {
    InputParameters<typename P::ProblemInputType> input;
    typename P::ProblemDiscretizationType d;
    typename P::ProblemGlobalDataType gd;
    typename P::ProblemStepperType stepper;
    typename P::ProblemWriterType writer;
    typename P::ProblemParserType parser;
    typename P::ProblemInputType problem_input;
    long n_steps = 0;

    explicit Sim(const std::string& file) : input(file) {
        P::initialize_problem_parameters(input.problem_input);
        input.read_mesh();
        input.read_bcis();
        P::preprocess_mesh_data(input);
        n_steps       = (uint)std::ceil(input.stepper_input.run_time / input.stepper_input.dt);
        d.mesh        = typename P::ProblemMeshType(input.polynomial_order);
        stepper       = typename P::ProblemStepperType(input.stepper_input);
        writer        = typename P::ProblemWriterType(input.writer_input);
        parser        = typename P::ProblemParserType(input);
        problem_input = input.problem_input;
        d.initialize(input, writer);
    }
    void prep() { P::preprocessor_serial(d, gd, stepper, problem_input); }
    void first_output() {
        if (writer.WritingOutput())
            writer.WriteFirstStep(stepper, d.mesh);
    }
    void step() { P::step_serial(d, gd, stepper, writer, parser); }
};

// writes mesh.14, mesh.bcis, input.15 in the case's scratch directory and builds the simulation
template <typename P>
std::unique_ptr<Sim<P>> make(const mg::Mesh& m, const Cfg& c) {
    m.write14("mesh.14");
    m.write_bcis("mesh.bcis");
    c.write("input.15");
    if (getenv("VERIF_KEEP"))  // debugging aid: keep the generated input
        if (system((std::string("mkdir -p ") + getenv("VERIF_KEEP") + " && cp mesh.14 mesh.bcis input.15 " + getenv("VERIF_KEEP")).c_str()))
            std::cerr << "could not keep the input\n";
    return std::unique_ptr<Sim<P>>(new Sim<P>("input.15"));
}

inline DynMatrix<double> phi_at(uint p, const std::vector<std::array<double, 2>>& z) {
    AlignedVector<Point<2>> pts(z.size());
    for (uint k = 0; k < z.size(); ++k) {
        pts[k][0] = z[k][0];
        pts[k][1] = z[k][1];
    }
    Basis::Dubiner_2D b;
    return b.GetPhi(p, pts);  // dof x point
}
// barycentric lattice of the reference triangle; weights w.r.t. vertices 0,1,2
struct Lattice {
    std::vector<std::array<double, 2>> z;
    std::vector<std::array<int, 3>> w;
    int n;
};
inline const Lattice& lattice(int n) {
    static std::map<int, Lattice> c;
    auto it = c.find(n);
    if (it != c.end())
        return it->second;
    Lattice l;
    l.n = n;
    for (int a = 0; a <= n; ++a)
        for (int b = 0; a + b <= n; ++b) {
            int d = n - a - b;
            // vertices (-1,-1), (1,-1), (-1,1)
            double r = (-a + b - d) / double(n), s = (-a - b + d) / double(n);
            l.z.push_back({r, s});
            l.w.push_back({a, b, d});
        }
    return c[n] = l;
}
// physical solution, addressed by generator element index and node indices: key (weights on nodes)
using PointKey = std::array<std::pair<int, int>, 3>;  // (node index, weight) sorted
using Snapshot = std::map<int, std::map<PointKey, std::array<double, 3>>>;

template <typename SimT>
Snapshot snapshot(SimT& s, const mg::Mesh& m, int n = 0) {
    uint p = s.input.polynomial_order;
    if (!n)
        n = p + 1;
    auto& L  = lattice(n);
    auto phi = phi_at(p, L.z);
    auto no  = m.node_of();
    auto eo  = m.elt_of();
    Snapshot out;
    s.d.mesh.CallForEachElement([&](auto& elt) {
        DynMatrix<double> u = elt.data.state[0].q * phi;
        int e               = eo.at(elt.GetID());
        auto& nid           = elt.GetNodeID();
        for (uint k = 0; k < L.z.size(); ++k) {
            PointKey key;
            for (int v = 0; v < 3; ++v)
                key[v] = {no.at(nid[v]), L.w[k][v]};
            std::sort(key.begin(), key.end());
            out[e][key] = {u(0, k), u(1, k), u(2, k)};
        }
    });
    return out;
}
struct Norms {
    double ze = 0, q = 0, maxabs = 0;
};
// integral of the surface elevation and of the discharges, areas taken from the generator's mesh
template <typename SimT>
std::array<long double, 3> totals(SimT& s, const mg::Mesh& m) {
    auto eo = m.elt_of();
    std::array<long double, 3> v{{0, 0, 0}};
    uint p   = s.input.polynomial_order;
    // independent of the modal normalisation: integrate with an own rule
    static std::map<uint, std::pair<DynMatrix<double>, std::vector<double>>> cache;
    if (!cache.count(p)) {
        std::vector<std::array<double, 2>> pts;
        std::vector<double> w;
        oracle::triangle_rule(p, pts, w);
        cache[p] = std::make_pair(phi_at(p, pts), w);
    }
    auto& c = cache[p];
    s.d.mesh.CallForEachElement([&](auto& elt) {
        DynMatrix<double> u = elt.data.state[0].q * c.first;
        double A            = m.area(eo.at(elt.GetID()));
        for (uint k = 0; k < c.second.size(); ++k)
            for (int q = 0; q < 3; ++q)
                v[q] += (long double)u(q, k) * c.second[k] * A / 2;
    });
    return v;
}
// maximum over elements and lattice points
template <typename SimT>
std::array<double, 3> maxabs(SimT& s) {
    std::array<double, 3> v{{0, 0, 0}};
    uint p   = s.input.polynomial_order;
    auto phi = phi_at(p, lattice(p + 2).z);
    s.d.mesh.CallForEachElement([&](auto& elt) {
        DynMatrix<double> u = elt.data.state[0].q * phi;
        for (int k = 0; k < u.cols(); ++k)
            for (int q = 0; q < 3; ++q) {
                double a = std::abs(u(q, k));
                if (!(a <= v[q]))
                    v[q] = a;
            }
    });
    return v;
}
// set an element's state to the projection of f(x,y) -> (ze,qx,qy) given per element with the harness' own projection
template <typename Elt, typename F>
void set_state(Elt& elt, uint p, const F& f, uint istate = 0) {
    static std::map<uint, std::tuple<DynMatrix<double>, std::vector<double>, std::vector<std::array<double, 2>>, std::vector<double>>> cache;
    if (!cache.count(p)) {
        std::vector<std::array<double, 2>> pts;
        std::vector<double> w;
        oracle::triangle_rule(2 * p + 4, pts, w);
        auto phi = phi_at(p, pts);
        std::vector<double> mass(phi.rows(), 0.0);
        for (int i = 0; i < phi.rows(); ++i)
            for (uint k = 0; k < w.size(); ++k)
                mass[i] += phi(i, k) * phi(i, k) * w[k];
        cache[p] = std::make_tuple(phi, w, pts, mass);
    }
    auto& c   = cache[p];
    auto& phi = std::get<0>(c);
    auto& w   = std::get<1>(c);
    auto& pts = std::get<2>(c);
    auto& nc  = elt.GetShape().nodal_coordinates;
    auto& q   = elt.data.state[istate].q;
    for (int i = 0; i < phi.rows(); ++i)
        for (int v = 0; v < 3; ++v)
            q(v, i) = 0;
    for (uint k = 0; k < w.size(); ++k) {
        double l1 = (1 + pts[k][0]) / 2, l2 = (1 + pts[k][1]) / 2, l0 = 1 - l1 - l2;
        double X = l0 * nc[0][0] + l1 * nc[1][0] + l2 * nc[2][0], Y = l0 * nc[0][1] + l1 * nc[1][1] + l2 * nc[2][1];
        std::array<double, 3> u = f(X, Y);
        for (int i = 0; i < phi.rows(); ++i)
            for (int v = 0; v < 3; ++v)
                q(v, i) += u[v] * phi(i, k) * w[k] / std::get<3>(c)[i];
    }
}
}
#endif
