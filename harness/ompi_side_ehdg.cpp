#define PROB SWE::EHDG::Problem
#include "ompi_side.inl"
