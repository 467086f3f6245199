#include <mpi.h>
#include <omp.h>
#ifdef HAS_PETSC
#include <petscksp.h>
#include <petsclog.h>
// The iterative solver's default tolerance would hide differences.
static PetscErrorCode tight_solve(KSP k, Vec b, Vec x) {
    KSPSetTolerances(k, 1e-14, 1e-50, 1e5, 10000);
    return KSPSolve(k, b, x);
}
#define KSPSolve tight_solve
#endif
#include "ompi_side.hpp"
#include "preprocessor/input_parameters.hpp"
#include "utilities/file_exists.hpp"
#include "problem/definitions.hpp"
#include "problem/ompi_functions.hpp"
#include "communication/ompi_communicator.hpp"
#include "simulation/ompi/simulation_ompi_base.hpp"
#include "simulation/ompi/sim_unit_ompi.hpp"
#define private public
#include "simulation/ompi/simulation_ompi.hpp"
#undef private

void verif_mpi_start() {
    int done = 0;
    MPI_Initialized(&done);
    if (!done) {
        if (!getenv("OMPI_COMM_WORLD_SIZE")) {
            setenv("OMPI_MCA_ess_singleton_isolated", "1", 1);
            setenv("OMPI_MCA_btl", "self", 1);
        }
        int provided;
        MPI_Init_thread(nullptr, nullptr, MPI_THREAD_MULTIPLE, &provided);
    }
}
static void fresh_globals() {
    // the state of a program that has just started
    SWE::SourceTerms::function_source = SWE::SourceTerms::bottom_friction = SWE::SourceTerms::meteo_forcing =
        SWE::SourceTerms::tide_potential = SWE::SourceTerms::coriolis = false;
    SWE::PostProcessing::wetting_drying = SWE::PostProcessing::slope_limiting = false;
}
void verif_ompi_run(OmpiJob* j) {
    fresh_globals();
    hook::ic_q()     = j->ic_q;
    hook::source_q() = j->source_q;
    hook::true_q()   = j->true_q;
    omp_set_num_threads(j->threads);
#ifdef HAS_PETSC
    PetscInitialize(nullptr, nullptr, nullptr, nullptr);
#endif
    OMPISimulation<PROB> d(j->input);
    d.n_steps = j->steps;
    d.Run();
    for (auto& u : d.sim_units)
        u->discretization.mesh.CallForEachElement([&](auto& e) {
            DynMatrix<double> q = e.data.state[0].q;
            j->out.emplace_back(e.GetID(), q);
            if (e.data.slope_limit_state.troubled)
                j->troubled.insert(e.GetID());
        });
    j->units = d.sim_units.size();
    d.Finalize();
#ifdef HAS_PETSC
    PetscFinalize();
#endif
}
void verif_ompi_program(ProgramJob* j) {
    fresh_globals();
    hook::ic_q()     = j->ic_q;
    hook::source_q() = j->source_q;
    hook::true_q()   = j->true_q;
    omp_set_num_threads(j->threads);
#ifdef HAS_PETSC
    PetscInitialize(nullptr, nullptr, nullptr, nullptr);
#endif
    {
        OMPISimulation<PROB> d(j->input);
        j->units = d.sim_units.size();
        d.Run();
        std::stringstream ss;
        auto* old = std::cout.rdbuf(ss.rdbuf());
        d.ComputeL2Residual();
        std::cout.rdbuf(old);
        j->report = ss.str();
        d.Finalize();
    }
#ifdef HAS_PETSC
    PetscFinalize();
#endif
}
void verif_comm_run(CommJob* j) {
    std::vector<std::unique_ptr<OMPICommunicator>> c;
    for (auto& su : j->submesh) {
        DistributedBoundaryMetaData md;
        for (auto& e : su) {
            RankBoundaryMetaData r;
            r.locality_in = r.locality_ex = 0;
            r.submesh_in = e.in, r.submesh_ex = e.ex;
            md.rank_boundary_data.push_back(r);
        }
        c.emplace_back(new OMPICommunicator(md));
        for (unsigned k = 0; k < su.size(); ++k) {
            auto& b          = c.back()->GetRankBoundary(k);
            b.send_buffer    = su[k].send;
            b.receive_buffer = su[k].send;
            for (auto& v : b.receive_buffer)
                std::fill(v.begin(), v.end(), -1.0);
        }
        c.back()->InitializeCommunication();
    }
    for (auto& o : j->ops) {
        auto& x = *c[o.submesh];
        o.what == 0 ? x.ReceiveAll(o.type, 0) : o.what == 1 ? x.SendAll(o.type, 0) : o.what == 2 ? x.WaitAllReceives(o.type, 0) : x.WaitAllSends(o.type, 0);
    }
    for (unsigned s = 0; s < c.size(); ++s)
        for (unsigned k = 0; k < j->submesh[s].size(); ++k)
            j->submesh[s][k].got = c[s]->GetRankBoundary(k).receive_buffer;
}
