#include "pbt.hpp"
#define PROB SWE::EHDG::Problem
#define PROBNAME "ehdg_swe"
#define PROBTAG ehdg
#define KIND 1
#include "laws_out.hpp"
