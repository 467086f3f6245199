#define PROB GN::EHDG::Problem
#include "ompi_side.inl"
