#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt, models


def body(c):
    c.prepare()
    iters = c.scale(1200, 30000)

    def one(std):
        exe = os.path.join(c.work, "t" + std)
        src = os.path.join(vrt.VERIF, "harness", "c05.cc")
        if not c.compile_or_violate("c05-" + std, exe, [src, os.path.join(c.src, "xdr_pack.cc")], std="c++" + std):
            return
        shards = 2 if std != "98" else 1

        def run(s):
            c.run_harness(exe, [c.seed * 100 + s, iters, 0], key="", timeout=c.scale(200, 3000),
                          restart=lambda p: [c.seed * 100 + s, iters, max(1, int(p.split("|")[1]))])
        c.pmap(run, range(shards))

    def objects(j):
        i, std = j
        b = models.Bundle(c, i, std, "pack", ["pack", "unpack"], nclass=5, deny=["longdouble", "wchar"])
        if not b.ok:
            return
        m = models.prelude((["pack_base.h", "pack_stl.h"], [], ["h_xdrcls.h"]))
        m += "#include \"classdesc_epilogue.h\"\nint main(int argc, char** argv) {\n uint64_t seed=strtoull(argv[1],0,10); unsigned iters=atoi(argv[2]); int from=atoi(argv[3]);\n"
        ts = [t for t in b.alltys(4) if not t.dims]
        for k, t in enumerate(ts):
            m += " if (from<=%d) xdrType<%s >(\"T%d\",seed*37+%d,iters);\n" % (k, t.full(), k, k)
        b.write("main.cc", m + " report().done(); return 0;}\n")
        exe = os.path.join(b.dir, "t")
        if c.compile_or_violate("objects", exe, [os.path.join(b.dir, "main.cc"), os.path.join(c.src, "xdr_pack.cc")], keep=b.files(), std=models.INC[std], incs=[b.dir]):
            c.run_harness(exe, [c.seed, c.scale(60, 600), 0], key="objects", files=b.files(), timeout=120, restart=lambda p: [c.seed, c.scale(60, 600), int(p.split("|")[0][1:]) + 1] if p[:1] == "T" else None)
            c.count("programs")
    c.pmap(lambda f: f[0](f[1]), [(one, s) for s in ["98", "11", "17", "20"]] + [(objects, (i, s)) for i in range(c.scale(2, 12)) for s in ("98", "11", "17")])


vrt.main("C05", body, "random histories over xdr_pack buffers (payloads to many chunks) against an independent RFC 4506 encoder/decoder and byte-queue model, checked after every operation; objects of random class models through XDR, const and not; ASan+UBSan; distinct = distinct final encoded contents and primitive values")
