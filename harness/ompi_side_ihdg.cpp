#define PROB SWE::IHDG::Problem
#include "ompi_side.inl"
