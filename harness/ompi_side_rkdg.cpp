#define PROB SWE::RKDG::Problem
#include "ompi_side.inl"
