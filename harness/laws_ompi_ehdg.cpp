#define PROB SWE::EHDG::Problem
#define PROBNAME "ehdg_swe"
#define PROBTAG ehdg_ompi
#define KIND 1
#include "laws_ompi.hpp"
