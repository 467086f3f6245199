#define PROB GN::EHDG::Problem
#define PROBNAME "ehdg_gn"
#define PROBTAG gn_ompi
#define KIND 3
#include "laws_ompi_out.hpp"
