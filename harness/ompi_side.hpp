// The distributed program, built as a shared library of its own: its headers and global settings stay apart from the
// serial program's.
#ifndef VERIF_OMPI_SIDE_HPP
#define VERIF_OMPI_SIDE_HPP
#include "general_definitions.hpp"
using Modal = std::map<unsigned, DynMatrix<double>>;
// The generated fields, as plain numbers: they are handed to other processes too.
struct Fields {
    double A[3] = {}, k[3][2] = {}, ph[3] = {};  // waves
    double Ux = 0, Uy = 0;                       // mean flow
    double fa = 0, fx = 0, fy = 0, fp = 0;       // jumps of the surface along wave fronts
    double eps = 0;                              // relative disturbance
    double D = 1, L = 1, cs = 1, low = 1;
    int source = 0;
    int nv = -1;                                 // variable whose source is no number in a triangle from a time on
    double nt = 0, nx[3][2] = {};
    double T[3] = {};                            // "true" solution the error is reported against
    StatVector<double, 3> truth(double t, const Point<2>& p) const { return StatVector<double, 3>{T[0] + T[2] * p[0], T[1] * (1 + t), T[1] - T[2] * p[1]}; }
    StatVector<double, 3> ic(const Point<2>& p) const {
        double u[3];
        for (int v = 0; v < 3; ++v)
            u[v] = A[v] * std::sin(k[v][0] * p[0] + k[v][1] * p[1] + ph[v]);
        double e = eps * std::sin(7 * p[0] / L + 5 * p[1] / L + 1);
        if (fa && std::sin(fx * p[0] + fy * p[1] + fp) > 0)
            u[0] += fa;
        return StatVector<double, 3>{u[0] + e * D, u[1] + Ux + e * D * cs, u[2] + Uy - e * D * cs};
    }
    StatVector<double, 3> bad(double t, const Point<2>& p) const {
        StatVector<double, 3> r{0, 0, 0};
        bool in   = nv >= 0 && t >= nt;
        double ar = (nx[1][0] - nx[0][0]) * (nx[2][1] - nx[0][1]) - (nx[1][1] - nx[0][1]) * (nx[2][0] - nx[0][0]);
        for (int k = 0; k < 3; ++k) {
            auto &a = nx[k], &b = nx[(k + 1) % 3];
            in &= (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]) > 1e-9 * ar;
        }
        if (in)
            r[nv] = std::nan("");
        return r;
    }
    StatVector<double, 3> src(const Point<2>& p) const {
        return StatVector<double, 3>{0.0, 0.1 * low * cs * cs / L * std::cos(p[1] / L),
                                     0.1 * low * cs * cs / L * std::sin((p[0] - p[1]) / L)};
    }
};
// one run in several processes: what the processes are told
struct RunSpec {
    char input[64];
    unsigned steps;
    int threads;
    int program;  // the whole program, with its report
    Fields f;
};
struct OmpiJob {
    using F = std::function<StatVector<double, 3>(double, const Point<2>&)>;
    std::string input;
    unsigned steps = 1;
    int threads    = 1;
    F ic_q, source_q, true_q;
    unsigned units = 0;  // submeshes found
    std::vector<std::pair<unsigned, DynMatrix<double>>> out;  // all elements' states after the steps
    std::set<unsigned> troubled;  // elements the discontinuity detector marked last
};
// the whole program, with its own number of steps and its report of the error
struct ProgramJob {
    std::string input;
    int threads = 1;
    OmpiJob::F ic_q, source_q, true_q;
    unsigned units = 0;
    std::string report;
};
// messages between the submeshes of this process
struct CommJob {
    struct Edge {
        unsigned in, ex;                         // submeshes (sender, receiver)
        std::vector<std::vector<double>> send;   // per type of message
        std::vector<std::vector<double>> got;
    };
    std::vector<std::vector<Edge>> submesh;      // the edges of each submesh
    struct Op {
        int what;                                // 0 post receives, 1 send, 2 wait for receives, 3 wait for sends
        unsigned submesh, type;
    };
    std::vector<Op> ops;
};
extern "C" {
void verif_comm_run(CommJob*);
void verif_mpi_start();
void verif_ompi_run(OmpiJob*);
void verif_ompi_program(ProgramJob*);
}
#endif
