#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt


def body(c):
    c.prepare()
    h = os.path.join(vrt.VERIF, "harness")
    d = os.path.join(c.work, "b")
    os.makedirs(d)
    r = c.sh([os.path.join(c.src, "classdesc"), "-nodef", "-onbase", "-i", os.path.join(h, "g07", "graph.h"), "pack", "unpack"])
    if r.rc:
        c.violation("processor-failed", r.err)
        return
    open(os.path.join(d, "gen.cd"), "w").write(r.out)
    exes = {}

    def build(std):
        exe = os.path.join(d, "g" + std)
        if c.compile_or_violate("graph", exe, [os.path.join(h, "c07.cc"), os.path.join(c.src, "xdr_pack.cc")], std=std, incs=[d, os.path.join(h, "g07")]):
            exes[std] = exe
    c.pmap(build, ["gnu++98", "gnu++11", "gnu++17"])
    big = os.path.join(d, "big")
    if c.compile_or_violate("graph-plain", big, [os.path.join(h, "c07.cc"), os.path.join(c.src, "xdr_pack.cc")], std="gnu++11", incs=[d, os.path.join(h, "g07")], san=False):
        for m in ("ptr", "ref", "fault"):
            c.run_harness(big, [c.seed + 50, c.scale(80, 800), 0, m, "big"], timeout=120)
    n = c.scale(160, 2500)
    jobs = [(s, m, k) for s in sorted(exes) for m, w in (("ptr", 2), ("fault", 1), ("ref", 1)) for k in range(w)]
    jobs += [("gnu++11", m, 0) for m in ("hetero", "overlimit") if "gnu++11" in exes]

    def run(j):
        s, m, k = j
        seed = c.seed * 100 + k + {"gnu++98": 0, "gnu++11": 10, "gnu++17": 20}[s]
        it = 20 if m == "hetero" else 1 if m == "overlimit" else n
        c.run_harness(exes[s], [seed, it, 0, m], key="" if m != "overlimit" else "overlimit", timeout=100, max_restarts=0 if m == "overlimit" else 6,
                      restart=lambda p: [seed, it, int(p.split("|")[1]) + 1, m] if "|" in p else None)
    c.pmap(run, jobs)
    c.assumptions.append("nodes of one link type; links of several mutually referring types and container-held links beyond the recursion limit are known findings")


vrt.main("C07", body, "random/chain/ring/star/dense/tree/dag/comb graphs of up to 20000 nodes x recursion limits 2..501 x pragma/ptr_flag/ref links; breadth-first canonical form, visit and allocation counts compared; failures injected in the middle of packing and unpacking followed by further operations")
