#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt, models


def body(c):
    c.prepare()
    iters = c.scale(500, 6000)
    jobs = [(i, s) for i in range(c.scale(2, 8)) for s in ("98", "11", "17", "20")]

    def one(j):
        i, std = j
        b = models.Bundle(c, i, std, "pack", ["pack", "unpack"], nclass=5, deny=("longdouble",))
        if not b.ok:
            return
        tys = b.alltys(5)
        m = models.prelude((["pack_base.h", "pack_stl.h"], [], ["h_file.h"]))
        m += "#include \"classdesc_epilogue.h\"\nint main(int argc, char** argv) {\n uint64_t seed=strtoull(argv[1],0,10);\n"
        for t in tys:
            m += " makers().push_back(makeItem<%s,%s >);\n" % (t.full(), "false" if b.model.contains(t, {"sp", "uptr", "tuple"}) else "true")
        m += " fileMain(seed,atoi(argv[2]),atoi(argv[3])); report().done(); return 0;}\n"
        b.write("main.cc", m)
        exe = os.path.join(b.dir, "t")
        if not c.compile_or_violate("file", exe, [os.path.join(b.dir, "main.cc"), os.path.join(c.src, "xdr_pack.cc")], keep=b.files(), std=models.INC[std], incs=[b.dir]):
            return
        c.run_harness(exe, [c.seed, iters, 0], files=b.files(), cwd=b.dir, timeout=c.scale(150, 1500), restart=lambda p: [c.seed, iters, int(p.split("|")[1]) + 1])
        c.count("programs")
    c.pmap(one, jobs)


vrt.main("C03", body, "random object sequences written to native and XDR files and to memory: bytes, values, positions, rewinds, truncations, missing files and full media (/dev/full, file size limit) observed; ASan+UBSan; distinct = distinct byte streams")
