#include "pbt.hpp"
#define PROB GN::EHDG::Problem
#define PROBNAME "ehdg_gn"
#define PROBTAG gn
#define KIND 3
#include "laws_out.hpp"
