#define PROB SWE::IHDG::Problem
#define PROBNAME "ihdg_swe"
#define PROBTAG ihdg_ompi
#define KIND 2
#include "laws_ompi_out.hpp"
