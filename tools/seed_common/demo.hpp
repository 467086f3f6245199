// Common helpers of the demonstrations: a small rectangle mesh, an input file, a serial simulation in this process.
#pragma once
#include "general_definitions.hpp"
#include "preprocessor/input_parameters.hpp"
#include "simulation/serial/simulation_base.hpp"
#include "problem/definitions.hpp"
#include "problem/serial_functions.hpp"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <sys/stat.h>
#include <unistd.h>

namespace demo {
// nx x ny cells of two triangles on [0,Lx]x[0,Ly]; sides: bottom, right, top, left; 0 land, 10 open, 22 flow, 77 function
struct Rect {
    int nx = 2, ny = 2;
    double Lx = 2, Ly = 2;
    std::function<double(double, double)> z = [](double, double) { return 1.0; };
    int side[4] = {0, 0, 0, 0};
    int id(int i, int j) const { return j * (nx + 1) + i + 1; }
    std::vector<int> nodes(int s) const {
        std::vector<int> v;
        if (s == 0)
            for (int i = 0; i <= nx; ++i)
                v.push_back(id(i, 0));
        if (s == 1)
            for (int j = 0; j <= ny; ++j)
                v.push_back(id(nx, j));
        if (s == 2)
            for (int i = nx; i >= 0; --i)
                v.push_back(id(i, ny));
        if (s == 3)
            for (int j = ny; j >= 0; --j)
                v.push_back(id(0, j));
        return v;
    }
    void write(const char* f) const {
        std::ofstream o(f);
        o << std::setprecision(17);
        o << "demo\n" << 2 * nx * ny << " " << (nx + 1) * (ny + 1) << "\n";
        for (int j = 0; j <= ny; ++j)
            for (int i = 0; i <= nx; ++i) {
                double x = Lx * i / nx, y = Ly * j / ny;
                o << id(i, j) << " " << x << " " << y << " " << z(x, y) << "\n";
            }
        int e = 1;
        for (int j = 0; j < ny; ++j)
            for (int i = 0; i < nx; ++i) {
                o << e++ << " 3 " << id(i, j) << " " << id(i + 1, j) << " " << id(i + 1, j + 1) << "\n";
                o << e++ << " 3 " << id(i, j) << " " << id(i + 1, j + 1) << " " << id(i, j + 1) << "\n";
            }
        for (int open = 1; open >= 0; --open) {
            int nb = 0, nn = 0;
            for (int s = 0; s < 4; ++s)
                if ((side[s] == 10) == open)
                    ++nb, nn += nodes(s).size();
            o << nb << " = boundaries\n" << nn << " = boundary nodes\n";
            for (int s = 0; s < 4; ++s)
                if ((side[s] == 10) == open) {
                    auto v = nodes(s);
                    o << v.size();
                    if (!open)
                        o << " " << side[s];
                    o << "\n";
                    for (int k : v)
                        o << k << "\n";
                }
        }
    }
};
struct Input {
    std::string problem = "rkdg_swe", coord = "cartesian", blocks;
    int p = 1, order = 1, nstages = 1;
    double dt = 0.001;
    void write(const char* f) const {
        std::ofstream o(f);
        o << "polynomial_order: " << p << "\nmesh:\n  format: Adcirc\n  file_name: d.14\n  coordinate_system: " << coord
          << "\ntimestepping:\n  start_time: 01-01-2001 00:00:00\n  end_time: 01-01-2001 01:00:00\n  dt: " << dt << "\n  order: " << order
          << "\n  nstages: " << nstages << "\nproblem:\n  name: " << problem << "\n  gravity: 9.81\n" << blocks;
    }
};
template <typename P>
struct Sim {
    InputParameters<typename P::ProblemInputType> input;
    typename P::ProblemDiscretizationType d;
    typename P::ProblemGlobalDataType gd;
    typename P::ProblemStepperType stepper;
    typename P::ProblemWriterType writer;
    typename P::ProblemParserType parser;
    typename P::ProblemInputType pi;
    Sim() : input("d.15") {
        P::initialize_problem_parameters(input.problem_input);
        input.read_mesh();
        input.read_bcis();
        P::preprocess_mesh_data(input);
        d.mesh  = typename P::ProblemMeshType(input.polynomial_order);
        stepper = typename P::ProblemStepperType(input.stepper_input);
        writer  = typename P::ProblemWriterType(input.writer_input);
        parser  = typename P::ProblemParserType(input);
        pi      = input.problem_input;
        d.initialize(input, writer);
        P::preprocessor_serial(d, gd, stepper, pi);
    }
    void step() { P::step_serial(d, gd, stepper, writer, parser); }
    // integral of variable v: the zeroth coefficient of the orthogonal basis is the mean
    long double total(int v) {
        long double s = 0;
        d.mesh.CallForEachElement([&](auto& e) {
            auto& c = e.GetShape().nodal_coordinates;
            s += (long double)e.data.state[0].q(v, 0) * 0.5 *
                 ((c[1][0] - c[0][0]) * (c[2][1] - c[0][1]) - (c[2][0] - c[0][0]) * (c[1][1] - c[0][1]));
        });
        return s;
    }
};
inline int verdict(bool ok, const char* what) {
    std::printf("%s: %s\n", ok ? "ok" : "BROKEN", what);
    std::fflush(stdout);
    return ok ? 0 : 1;
}
}
