#define PROB SWE::RKDG::Problem
#define PROBNAME "rkdg_swe"
#define PROBTAG rkdg_ompi
#define KIND 0
#include "laws_ompi_out.hpp"
