#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt


def body(c):
    c.prepare()
    iters = c.scale(2500, 60000)

    def one(std):
        exe = os.path.join(c.work, "t" + std)
        src = os.path.join(vrt.VERIF, "harness", "c02.cc")
        if not c.compile_or_violate("c02-" + std, exe, [src, os.path.join(c.src, "xdr_pack.cc")], std="c++" + std):
            return
        shards = 2 if std != "98" else 1

        def run(s):
            c.run_harness(exe, [c.seed * 100 + s, iters, 0], key="", timeout=c.scale(200, 3000),
                          restart=lambda p: [c.seed * 100 + s, iters, int(p.split("|")[1]) + 1])
        c.pmap(run, range(shards))
    c.pmap(one, ["98", "11", "17", "20"])


vrt.main("C02", body, "random histories over four buffers compared with a plain byte-queue model after every operation (size, position, contents, comparison operators, exceptions); ASan+UBSan watch every access; distinct = distinct (contents, history prefix) hashes")
