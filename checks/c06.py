#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt


def body(c):
    c.prepare()
    iters = c.scale(4000, 100000)

    def one(std):
        exe = os.path.join(c.work, "t" + std)
        src = os.path.join(vrt.VERIF, "harness", "c06.cc")
        if not c.compile_or_violate("c06-" + std, exe, [src, os.path.join(c.src, "xdr_pack.cc")], std="c++" + std):
            return
        shards = 2 if std != "98" else 1

        def run(s):
            d = os.path.join(c.work, "%s-%d" % (std, s)); os.makedirs(d)
            c.run_harness(exe, [c.seed * 100 + s, iters, 0], cwd=d, key="", timeout=c.scale(200, 3000),
                          restart=lambda p: [c.seed * 100 + s, iters, int(p.split("|")[1]) + 1])
        c.pmap(run, range(shards))
    c.pmap(one, ["98", "11", "17", "20"])


vrt.main("C06", body, "random sequences of streamed PODs, arrays and (nested) containers mixed with packed objects over native, XDR, templated and file-backed buffers: every value, boundary and end-of-data refusal compared; ASan+UBSan; distinct = distinct values")
