#include "pbt.hpp"
#define PROB SWE::RKDG::Problem
#define PROBNAME "rkdg_swe"
#define PROBTAG rkdg
#define KIND 0
#include "laws_run.hpp"

