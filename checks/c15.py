#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt, hdrcheck


def body(c):
    c.prepare()
    n = c.scale(30, 400)
    jobs = [(i, s) for i in range(n) for s in ("98", "11", "17")]

    def one(j):
        i, std = j
        h = hdrcheck.Header(c, "h%d-%s" % (i, std), std, "%d:%d:%s" % (c.seed, i, std), nclass=3 + i % 6)
        for f in set(h.g.uses):
            c.count("feature:" + f)
        if not h.valid():
            return
        opts = ["-nodef"] + (["-onbase"] if i % 3 == 1 else []) + (["-typeName"] if i % 4 == 2 else [])
        if h.describe(opts) is None:
            return
        src = h.write("main.cc", h.main(opts=[o[1:] for o in opts]))
        if h.build_run(src, "describe"):
            c.count("headers")
    c.pmap(one, jobs)
    if c.counts.get("generator_rejects", 0) * 4 > len(jobs):
        raise vrt.Inconclusive("the header generator produced too many invalid headers")


vrt.main("C15", body, "random headers described by the real processor; the visits a recording descriptor makes (name, type, address or member pointer, dimensions, kind, order; const and non-const object) compared with those the generator expects; distinct = distinct expected visit lists", evaluations="visits")
