"""Which harness binaries decide which property, and how they are built."""
import os, pathlib, re

REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))


def _common():
    txt = (REPO / "CMakeLists.txt").read_text()
    out = []
    for m in re.finditer(r"list\s*\(\s*APPEND\s+SOURCES(.*?)\n\s*\)", txt, re.S):
        out += re.findall(r"(source/[\w\-./]+\.cpp)", m.group(1))
    return sorted(set(out))


COMMON_SOURCES = _common()
P = ["-DSWE_SUPPORT", "-DGN_SUPPORT", "-DRKDG_SUPPORT", "-DEHDG_SUPPORT", "-DIHDG_SUPPORT"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr,alignment,float-divide-by-zero,float-cast-overflow"]
UNITS = {
    "core": dict(src=["H/laws_core.cpp"]),
    "rkdg": dict(src=["H/laws_rkdg.cpp"], defs=P),
    "ehdg": dict(src=["H/laws_ehdg.cpp"], defs=P),
    "rkdgk": dict(src=["H/laws_rkdg_k.cpp"], defs=P),
    "ehdgk": dict(src=["H/laws_ehdg_k.cpp"], defs=P),
    "flux": dict(src=["H/laws_flux.cpp"], defs=P),
    "io": dict(src=["H/laws_io.cpp"], defs=P),
    "ops": dict(src=["H/laws_ops.cpp"], defs=P),
    "ihdgk": dict(src=["H/laws_ihdg_k.cpp"], defs=P),
    "ihdg": dict(src=["H/laws_ihdg.cpp"], defs=P),
    "la": dict(src=["H/laws_la.cpp"], defs=P),
    "gn": dict(src=["H/laws_gn.cpp"], defs=P),
    "gnk": dict(src=["H/laws_gn_k.cpp"], defs=P),
}
PART = ["partitioner/partitioner.cpp", "partitioner/partition.cpp", "partitioner/write_distributed_interfaces.cpp",
        "partitioner/problem/swe_partitioner_inputs.cpp", "partitioner/problem/default_partitioner_inputs.cpp"]
UNITS["part"] = dict(src=["H/laws_part.cpp"] + PART, defs=P + [f"-I{pathlib.Path(__file__).resolve().parent}/harness/metis"], ld=["-Wl,--wrap=main"])
METIS = [f"-I{pathlib.Path(__file__).resolve().parent}/harness/metis"]
UNITS["gen"] = dict(src=["H/laws_gen.cpp", "mesh_generators/quad_mesh_generator.cpp"], defs=P, ld=["-Wl,--wrap=main"])
HD = str(pathlib.Path(__file__).resolve().parent / "harness")
EXES = {}
SIDES = {"rkdg": "SWE RKDG EHDG", "ehdg": "SWE RKDG EHDG", "ihdg": "SWE RKDG EHDG IHDG", "gn": "SWE GN RKDG EHDG"}
for k in SIDES:
    # the distributed program lives in a shared library, loaded by the harness that holds the serial one
    EXES[f"side_{k}.so"] = dict(src=[f"H/ompi_side_{k}.cpp", "source/communication/ompi_communicator.cpp"], san=["-fPIC"],
                                defs=[f"-D{d}_SUPPORT" for d in SIDES[k].split()], mpi=True, petsc=k in ("ihdg", "gn"),
                                ld=["-shared", "-Wl,-Bsymbolic", f"-Wl,--version-script={HD}/ompi_side.map"])
    UNITS["ompi_out_" + k] = dict(src=[f"H/laws_ompi_out_{k}.cpp"] + PART, defs=P + METIS + [f'-DSIDE="side_{k}.so"'],
                                  ld=["-Wl,--wrap=main", "-Wl,--no-as-needed"], mpi=True)
    UNITS["ompi_" + k] = dict(src=[f"H/laws_ompi_{k}.cpp"] + PART, defs=P + METIS + [f'-DSIDE="side_{k}.so"'],
                              ld=["-Wl,--wrap=main", "-Wl,--no-as-needed"], mpi=True)
EXES["mpi_run"] = dict(src=["H/mpi_run.cpp"], defs=P, mpi=True, common=False)
for k in ("rkdg", "ehdg", "ihdg", "gn"):
    UNITS["out_" + k] = dict(src=[f"H/laws_out_{k}.cpp"], defs=P)
CHECKS = {
    "P20": dict(units=["out_rkdg", "out_ehdg", "out_ihdg"]),
    "P21": dict(units=["out_rkdg", "out_ehdg", "out_ihdg", "out_gn"]),
    "P31": dict(units=["ompi_out_rkdg", "ompi_out_ehdg", "ompi_out_ihdg", "ompi_out_gn"],
                exes=["side_rkdg.so", "side_ehdg.so", "side_ihdg.so", "side_gn.so", "mpi_run"]),
    "P10": dict(units=["rkdgk", "ehdgk"]),
    "P09": dict(units=["rkdgk", "ehdgk", "flux"]),
    "P11": dict(units=["rkdgk", "ehdgk"]),
    "P14": dict(units=["rkdgk"]),
    "P15": dict(units=["rkdgk"]),
    "P16": dict(units=["rkdgk"]),
    "P23": dict(units=["rkdgk", "ehdgk"]),
    "P24": dict(units=["ihdgk"]),
    "P25": dict(units=["gnk", "gn"]),
    "P27": dict(units=["la"]),
    "P26": dict(units=["rkdgk"]),
    "P01": dict(units=["core"]),
    "P02": dict(units=["core"]),
    "P03": dict(units=["core"]),
    "P08": dict(units=["core"]),
    "P04": dict(units=["ops"]),
    "P05": dict(units=["io"]),
    "P06": dict(units=["io"]),
    "P07": dict(units=["io"]),
    "P17": dict(units=["ompi_rkdg", "ompi_ehdg"], exes=["side_rkdg.so", "side_ehdg.so", "mpi_run"]),
    "P28": dict(units=["ompi_ihdg", "ompi_gn"], exes=["side_ihdg.so", "side_gn.so", "mpi_run"]),
    "P18": dict(units=["part", "io"]),
    "P22": dict(units=["gen"]),
    "P32": dict(units=["rkdg", "ehdg", "ihdg", "gn", "ompi_out_rkdg", "ompi_out_ehdg", "ompi_out_ihdg"],
                exes=["side_rkdg.so", "side_ehdg.so", "side_ihdg.so", "mpi_run"]),
    "P12": dict(units=["rkdg", "ehdg", "ihdg", "gn"]),
    "P13": dict(units=["rkdg", "ehdg", "ihdg", "gn"]),
    "P19": dict(units=["rkdg", "ehdg", "ihdg", "gn"]),
    "P29": dict(units=["rkdg", "ehdg", "ihdg"]),
    "P30": dict(units=["rkdg", "ehdg", "ihdg", "gn"]),
}
