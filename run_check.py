#!/usr/bin/env python3
"""Build the harnesses of one property against /repo's working tree, run them, write the evidence.

usage: run_check.py PROPERTY [--replay FILE]     (VERIF_SEED, VERIF_TIER in the environment)
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; anything else: the check failed.
"""
import concurrent.futures as cf, hashlib, json, os, pathlib, re, shutil, subprocess, sys, tempfile, time

VERIF = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
H = VERIF / "harness"
sys.path.insert(0, str(VERIF))
from units import UNITS, CHECKS, COMMON_SOURCES, EXES  # noqa

CXX = "g++"
BASE = ["-std=c++14", "-O1", "-g0", "-w", "-include", "stdexcept", "-DUSE_EIGEN", "-D_GLIBCXX_ASSERTIONS", f"-I{H}/shadow", f"-I{REPO}/source",
        f"-I{REPO}", f"-I{REPO}/test", "-I/usr/include/eigen3", f"-I{H}"]
PROBLEMS = ["-DSWE_SUPPORT", "-DGN_SUPPORT", "-DRKDG_SUPPORT", "-DEHDG_SUPPORT", "-DIHDG_SUPPORT"]
PETSC = "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real"


def mpi_flags(kind):
    try:
        return subprocess.check_output(["mpicxx", f"--showme:{kind}"], text=True).split()
    except Exception:
        return []


def launcher():
    cc = shutil.which("ccache")
    return [cc] if cc and os.environ.get("VERIF_CCACHE") else []


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def compile_one(job):
    src, obj, flags = job
    r = run(launcher() + [CXX] + flags + ["-c", str(src), "-o", str(obj)])
    return (src, r.returncode, r.stdout)


def collect_jobs(names, bld, pid=""):
    """names: harness units and executables to build, with the laws of property pid only. Returns (compile jobs, link jobs)."""
    jobs, links = {}, []

    def add(src, flags, tag):
        key = (str(src), tuple(flags))
        if key not in jobs:
            h = hashlib.sha1(repr(key).encode()).hexdigest()[:10]
            jobs[key] = (src, bld / f"{pathlib.Path(src).stem}_{h}.o", flags)
        return jobs[key][1]

    for n in names:
        u = UNITS.get(n) or EXES[n]
        fl = BASE + list(u.get("defs", []))
        san = list(u.get("san", []))
        ld = list(u.get("ld", []))
        if u.get("mpi"):
            # the distributed code takes &v.front() of vectors that are empty on some submeshes, without using the address
            fl = fl + mpi_flags("compile") + ["-fopenmp", "-U_GLIBCXX_ASSERTIONS"]
            ld = ld + mpi_flags("link") + ["-fopenmp"]
        if u.get("petsc"):
            fl = fl + ["-DHAS_PETSC", f"-I{PETSC}/include"]
            ld = ld + [f"-L{PETSC}/lib", "-lpetsc_real"]
        objs = []
        for s in u["src"]:
            p = H / s[2:] if s.startswith("H/") else REPO / s
            only = [f"-DONLY={int(pid[1:])}"] if pid and s.startswith("H/laws_") else []
            objs.append(add(p, fl + san + only, n))
        if u.get("common", True):
            for s in COMMON_SOURCES:
                objs.append(add(REPO / s, BASE + san, n))
        links.append((n, objs, san + ld))
    return list(jobs.values()), links


def build(names, bld, pid=""):
    jobs, links = collect_jobs(names, bld, pid)
    # heavy translation units first
    jobs.sort(key=lambda j: 0 if any(str(j[0]).endswith(s) for s in COMMON_SOURCES) else 1, reverse=True)
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        for src, rc, out in ex.map(compile_one, jobs):
            if rc:
                print(f"build of {src} failed:\n{out[:3000]}")
                sys.exit(2)

        def link(l):
            n, objs, ld = l
            return n, run([CXX] + [str(o) for o in objs] + ["-o", str(bld / n)] + ld + ["-lyaml-cpp"])

        for n, r in ex.map(link, links):
            if r.returncode:
                print(f"link of {n} failed:\n{r.stdout[:3000]}")
                sys.exit(2)


def known_findings(pid):
    f = VERIF / "known_findings.json"
    if not f.exists():
        return []
    return [k for k in json.loads(f.read_text()).get("findings", []) if k["property"] == pid and k.get("status") == "known"]


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    chk = CHECKS[pid]
    t0 = time.time()
    keep = os.environ.get("VERIF_BUILD")
    bld = pathlib.Path(keep) if keep else pathlib.Path(tempfile.mkdtemp(prefix="verif-build-", dir="/tmp"))
    bld.mkdir(parents=True, exist_ok=True)
    try:
        return go(pid, tier, seed, chk, bld, t0)
    finally:
        if not keep:
            shutil.rmtree(bld, ignore_errors=True)


def go(pid, tier, seed, chk, bld, t0):
    units, exes = chk["units"], chk.get("exes", [])
    env = dict(os.environ, VERIF_BIN=str(bld), VERIF_REPO=str(REPO), OMP_NUM_THREADS=os.environ.get("OMP_NUM_THREADS", "1"),
               OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", ASAN_OPTIONS="detect_leaks=0",
               UBSAN_OPTIONS="halt_on_error=1")
    replay = None
    if "--replay" in sys.argv:
        replay = json.loads(pathlib.Path(sys.argv[sys.argv.index("--replay") + 1]).read_text())
        env["VERIF_NOTES"] = "1"
        build([replay["unit"]] + exes, bld, pid)
        r = subprocess.run([str(bld / replay["unit"]), "--prop", pid, "--tier", replay.get("tier", tier), "--loud",
                            "--replay", replay["law"], ",".join(map(str, replay["choices"]))], env=env)
        return r.returncode
    build(units + exes, bld, pid)
    t_build = time.time() - t0

    findings = known_findings(pid)
    known_hit = []
    laws, failures, lost = [], [], 0
    quick_end = t0 + float(os.environ.get("VERIF_QUICK_S", "600"))  # a quick run has to answer within 900 s, on a slow machine too
    for n, u in enumerate(units):
        if tier == "quick" and any(f["stable"] for f in failures) and time.time() > t0 + 300:
            print(f"  {u}: not run any more (violations found, time used up)")
            break
        out = bld / f"{u}.json"
        out.unlink(missing_ok=True)
        cmd = [str(bld / u), "--prop", pid, "--seed", str(seed), "--tier", tier, "--out", str(out), "--workers",
               str(chk.get("workers", os.cpu_count() or 8))]
        if tier == "quick":
            cmd += ["--cpu", "60", "--deadline", str(time.time() + max(20, (quick_end - time.time()) / (len(units) - n)))]
        if os.environ.get("VERIF_SCALE"):
            cmd += ["--scale", os.environ["VERIF_SCALE"]]
        r = run(cmd, env=env, errors="replace")
        if not out.exists():
            print(f"harness {u} gave no result (rc {r.returncode}):\n{r.stdout[-3000:]}")
            sys.exit(2)
        j = json.loads(out.read_text())
        lost += j["lost_workers"]
        for l in j["laws"]:
            l["unit"] = u
            laws.append(l)
        for f in j["failures"]:
            f["unit"] = u
            failures.append(f)
    # replay the listed findings
    for k in findings:
        r = run([str(bld / k["unit"]), "--prop", k.get("tag", pid), "--tier", tier, "--replay", k["law"],
                 ",".join(map(str, k["choices"]))], env=env, errors="replace")
        if r.returncode == 1:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
            known_hit.append(k["what"])
    unstable = [f for f in failures if not f["stable"]]
    stable = [f for f in failures if f["stable"]]
    ev = sum(l["evaluations"] for l in laws)
    dn = sum(l["distinct_nontrivial"] for l in laws)
    samples = []
    for l in laws:
        for s in l["samples"][:2]:
            samples.append({"law": l["law"], "case": s[:900]})
    rule = "; ".join(f"{l['law']}: {l['rule']}" for l in laws)
    evid = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": dn,
            "rule": "every case is a generated choice sequence; distinct = distinct choice sequences; non-trivial per law: " + rule,
            "samples": samples[:24],
            "laws": [{k: l[k] for k in ("unit", "law", "evaluations", "discarded", "nontrivial", "distinct_nontrivial", "max_cpu_s", "labels")}
                     for l in laws],
            "known_findings_replayed": known_hit,
            "unstable_failures": [{"law": f["law"], "message": f["message"][:500]} for f in unstable],
        },
        "assumptions": chk.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(stable),
    }
    evdir = VERIF / "evidence"
    evdir.mkdir(exist_ok=True)
    (evdir / f"{pid}.json").write_text(json.dumps(evid, indent=1))
    print(f"{pid} {tier} seed={seed}: {ev} cases, {dn} distinct non-trivial, build {t_build:.1f}s, total {time.time()-t0:.1f}s")
    for l in laws:
        print(f"  {l['unit']}/{l['law']}: {l['evaluations']} cases, {l['distinct_nontrivial']} non-trivial, "
              f"{l['discarded']} discarded {json.dumps(l['labels'])}")
    for f in unstable:
        print(f"  UNSTABLE (not reported): {f['law']}: {f['message'][:300]}")
    if stable:
        rp = evdir / "replays"
        rp.mkdir(exist_ok=True)
        for f in stable:
            body = json.dumps({"property": pid, "unit": f["unit"], "law": f["law"], "tier": tier, "seed": seed,
                               "message": f["message"], "case": f["case"], "choices": f["choices"]}, indent=1)
            p = rp / f"{pid}-{f['law']}-{hashlib.sha1(body.encode()).hexdigest()[:8]}.json"
            p.write_text(body)
            print(f"  {f['law']}: {f['message'][:1500]}")
            if f["case"]:
                print("    case: " + f["case"][:2500].replace("\n", "\n          "))
            print(f"VIOLATION property={pid} replay={p}")
        return 1
    if lost:
        print("a worker was lost outside a case")
        return 2
    # a check that generates (almost) nothing must not pass silently
    for l in laws:
        if l["distinct_nontrivial"] == 0 or l["evaluations"] < l["discarded"]:
            print(f"law {l['law']} explored too little")
            return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
