"""Runs MPI harnesses under ASan+UBSan and collects the logs of their ranks."""
import glob, os, re
import vrt

ENV = dict(OMPI_MCA_btl="vader,self", OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_mpi_yield_when_idle="1",
           OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_rmaps_base_oversubscribe="1",
           OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_btl_base_warn_component_unused="0", OMPI_MCA_orte_base_help_aggregate="1")


def build(c, what, std, hetero, pie=True):
    out = os.path.join(c.work, "%s-%s%s%s" % (what, std.replace("+", "x"), "-het" if hetero else "", "" if pie else "-nopie"))
    srcs = [os.path.join(vrt.VERIF, "harness", what + ".cc")] + ([c.src + "/xdr_pack.cc"] if hetero else [])
    base = [f for f in vrt.BASE if f != "-DXDR_PACK"] + (["-DXDR_PACK", "-DHETERO"] if hetero else [])
    ok = c.compile_or_violate("%s:%s%s" % (what, std, ":hetero" if hetero else ""), out, srcs, std=std, base=base, cxx="mpicxx",
                              flags=["-fno-sanitize-recover=undefined"] + ([] if pie else ["-no-pie"]), libs=("-ltirpc",) if hetero else ())
    return out if ok else None


def run(c, exe, n, seed, size, limit, tag):
    """(ok, logs by rank as lists of split lines); crashes and hangs are reported"""
    d = os.path.join(c.work, "run-" + tag)
    os.makedirs(d)
    env = dict(ENV, ASAN_OPTIONS=vrt.ENV["ASAN_OPTIONS"] + ":detect_leaks=0")
    r = c.sh(["mpirun", "-n", str(n), exe, d, str(seed), str(size), str(limit)], timeout=limit + 60, env=env)
    logs = {}
    for f in glob.glob(d + "/rank*.log"):
        logs[int(re.search(r"(\d+)\.log", f).group(1))] = [l.split("\t") for l in open(f, errors="replace").read().splitlines()]
    if not logs:
        if "ERROR: AddressSanitizer" not in r.err and "runtime error" not in r.err:
            raise vrt.Inconclusive("mpirun: rc %s %s" % (r.rc, r.err[-800:]))
    return r, logs, d
