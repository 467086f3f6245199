#include "pbt.hpp"
#define PROB SWE::IHDG::Problem
#define PROBNAME "ihdg_swe"
#define PROBTAG ihdg
#define KIND 2
#include "laws_run.hpp"

