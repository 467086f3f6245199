#!/bin/bash
# builds demo.cpp against the sources in the current directory (the repository) and runs it in a scratch directory
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'cd /; rm -r "$tmp"' EXIT
F="-std=c++14 -O0 -w -include stdexcept -DUSE_EIGEN -DSWE_SUPPORT -DGN_SUPPORT -DRKDG_SUPPORT -DEHDG_SUPPORT -DIHDG_SUPPORT -I$repo/source -I$repo -I/usr/include/eigen3 -I$here"
pids=()
objs=("$tmp/demo.o")
g++ $F -c "$here/demo.cpp" -o "$tmp/demo.o" & pids+=($!)
for s in basis/bases_1D/basis_legendre_1D basis/bases_2D/basis_dubiner_2D basis/polynomials/basis_polynomials \
         integration/integrations_1D/integration_gausslegendre_1D integration/integrations_2D/integration_dunavant_2D \
         preprocessor/ADCIRC_reader/adcirc_format preprocessor/mesh_metadata problem/SWE/problem_input/swe_inputs \
         shape/shapes_2D/shape_straighttriangle simulation/stepper/explicit_ssp_rk_stepper; do
    g++ $F -c "$repo/source/$s.cpp" -o "$tmp/$(basename $s).o" & pids+=($!)
    objs+=("$tmp/$(basename $s).o")
done
for p in "${pids[@]}"; do wait $p || { echo "demo did not build"; exit 2; }; done
g++ "${objs[@]}" -lyaml-cpp -o "$tmp/demo" || exit 2
cd "$tmp" && timeout 200 ./demo
