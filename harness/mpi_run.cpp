// One process of a distributed run of several processes: mpirun ... mpi_run SIDE SPEC OUT
#include <mpi.h>
#include <dlfcn.h>
#include "ompi_side.hpp"

int main(int argc, char** argv) {
    void* h = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL);
    if (!h) {
        std::cerr << dlerror() << std::endl;
        return 3;
    }
    RunSpec r;
    std::ifstream(argv[2], std::ios::binary).read((char*)&r, sizeof r);
    reinterpret_cast<decltype(&verif_mpi_start)>(dlsym(h, "verif_mpi_start"))();
    if (r.program) {
        ProgramJob j;
        j.input   = r.input;
        j.threads = r.threads;
        j.ic_q    = [&](double, const Point<2>& p) { return r.f.ic(p); };
        j.source_q = [&](double t, const Point<2>& p) { return r.f.bad(t, p); };
        j.true_q  = [&](double t, const Point<2>& p) { return r.f.truth(t, p); };
        reinterpret_cast<decltype(&verif_ompi_program)>(dlsym(h, "verif_ompi_program"))(&j);
        int rank;
        MPI_Comm_rank(MPI_COMM_WORLD, &rank);
        std::ofstream(argv[3] + std::to_string(rank)) << j.units << " " << j.report;
        MPI_Barrier(MPI_COMM_WORLD);
        MPI_Finalize();
        return 0;
    }
    OmpiJob j;
    j.input   = r.input;
    j.steps   = r.steps;
    j.threads = r.threads;
    j.ic_q    = [&](double, const Point<2>& p) { return r.f.ic(p); };
    if (r.f.source)
        j.source_q = [&](double, const Point<2>& p) { return r.f.src(p); };
    reinterpret_cast<decltype(&verif_ompi_run)>(dlsym(h, "verif_ompi_run"))(&j);
    int rank;
    MPI_Comm_rank(MPI_COMM_WORLD, &rank);
    {
        std::ofstream o(argv[3] + std::to_string(rank), std::ios::binary);
        auto put = [&](unsigned v) { o.write((char*)&v, sizeof v); };
        put(j.units);
        put(j.out.size());
        for (auto& e : j.out) {
            put(e.first);
            put(j.troubled.count(e.first));
            put(e.second.rows());
            put(e.second.cols());
            for (int a = 0; a < (int)e.second.rows(); ++a)
                for (int b = 0; b < (int)e.second.cols(); ++b) {
                    double v = e.second(a, b);
                    o.write((char*)&v, sizeof v);
                }
        }
    }
    MPI_Barrier(MPI_COMM_WORLD);
    MPI_Finalize();
    return 0;
}
