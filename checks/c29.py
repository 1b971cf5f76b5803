#!/usr/bin/env python3
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt, mpirt


def body(c):
    c.prepare()
    exes = {}

    def bld(j):
        e = mpirt.build(c, "c29", *j)
        if e:
            exes[j] = e
    variants = [("gnu++98", False), ("gnu++17", False), ("gnu++11", True)]
    c.pmap(bld, variants)
    jobs = []
    k = 0
    for v in variants:
        for n in c.scale([1, 2, 3, 4, 5], [1, 2, 3, 4, 5, 6, 7, 8]):
            for rep in range(c.scale(1 if n == 1 else 2, 12)):
                k += 1
                jobs.append((v, n, c.seed * 1000 + k))
    # those with many processes first: three at a time
    jobs.sort(key=lambda j: -j[1])
    ops = c.scale(250, 800)

    def one(j):
        v, n, seed = j
        if v not in exes:
            return
        limit = c.scale(120, 300)
        r, logs, d = mpirt.run(c, exes[v], n, seed, 40 if n == 1 else ops, limit, "%s-%d-%d" % (v[0][-2:] + str(v[1]), n, seed))
        fs = [os.path.join(d, f) for f in os.listdir(d)]
        what = "%d processes, seed %d, -std=%s%s" % (n, seed, v[0], " HETERO" if v[1] else "")
        done = 0
        for k, ls in sorted(logs.items()):
            for l in ls:
                if l[0] == "V":
                    c.violation(l[1], "%s: %s" % (what, l[2]), files=fs)
                elif l[0] == "HANG":
                    c.violation("hang:" + l[1], "%s: no progress in %s on rank %d" % (what, l[1], k), files=fs)
                elif l[0] == "N":
                    c.count(l[1], int(l[2]))
                    if l[1].startswith("op_"):
                        c.distinct("%s %d %d %s" % (l[1], n, seed, v))
                elif l[0] == "DONE":
                    done += 1
        if "ERROR: AddressSanitizer" in r.err or "runtime error" in r.err:
            c.violation(vrt.crash_key(r.rc, r.err, c.src), what + "\n" + r.err[:4000], files=fs)
        elif done < n or r.rc:
            if not any(l[0] in ("V", "HANG") for ls in logs.values() for l in ls):
                if r.timeout:
                    raise vrt.Inconclusive("mpirun did not end: " + what)
                c.violation("ended:%s" % r.rc, "%s: mpirun ended with %s, %d of %d ranks finished\n%s" % (what, r.rc, done, n, r.err[:3000]), files=fs)
        c.count("runs")
    c.pmap(one, jobs, workers=3)


vrt.main("C29", body, "random programs of MPIbuf operations (blocking, asynchronous and grouped messages, exchanges, broadcasts, gathers, scatters, probes, copies) over world, duplicated, reordered and split communicators run under mpirun with ASan+UBSan; every rank knows the program and checks contents, source, tag, order and multiplicity of what it receives; distinct counts kinds of operation by run")
