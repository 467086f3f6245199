// Stand-in for METIS: the assignment of vertices to parts is chosen by the test case.
#ifndef VERIF_METIS_H
#define VERIF_METIS_H
#include <cstdint>
typedef std::int64_t idx_t;
typedef double real_t;
#define METIS_NOPTIONS 40
extern "C" {
int METIS_SetDefaultOptions(idx_t*);
int METIS_PartGraphKway(idx_t* nvtxs, idx_t* ncon, idx_t* xadj, idx_t* adjncy, idx_t* vwgt, idx_t* vsize, idx_t* adjwgt, idx_t* nparts,
                        real_t* tpwgts, real_t* ubvec, idx_t* options, idx_t* objval, idx_t* part);
}
#endif
