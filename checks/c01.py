#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt, models


def body(c):
    c.prepare()
    n = c.scale(4, 16)
    iters = c.scale(60, 400)
    jobs = [(i, s) for i in range(n) for s in ("98", "11", "17", "20")][:c.scale(14, 64)]

    def one(j):
        i, std = j
        b = models.Bundle(c, i, std, "pack", ["pack", "unpack"], nclass=7 if c.tier == "quick" else 10)
        if not b.ok:
            return
        tys = b.alltys(6)
        # a const target is a compile-time error for types owning through smart pointers or tuples: not offered by the library
        cst = ["false" if b.model.contains(t, {"sp", "uptr", "tuple"}) else "true" for t in tys]
        det = ["false" if b.model.contains(t, {"long double"}) else "true" for t in tys]
        ts = [t.full() for t in tys]
        m = models.prelude((["pack_base.h", "pack_stl.h"], [], ["h_pack.h"]))
        m += "#include \"classdesc_epilogue.h\"\nint main(int argc, char** argv) {\n uint64_t seed=strtoull(argv[1],0,10); unsigned iters=atoi(argv[2]); int from=atoi(argv[3]);\n"
        for k, t in enumerate(ts):
            m += " makers().push_back(makeItem<%s,%s >);\n" % (t, cst[k])
        for k, t in enumerate(ts):
            m += " if (from<=%d) packType<%s,%s >(\"T%d\",%s,seed*31+%d,iters);\n" % (k, t, cst[k], k, det[k], k)
        m += " if (from<=%d) sequences(seed,iters*4);\n report().done(); return 0;}\n" % len(ts)
        b.write("main.cc", m)
        exe = os.path.join(b.dir, "t")
        if not c.compile_or_violate("roundtrip", exe, [os.path.join(b.dir, "main.cc"), os.path.join(c.src, "xdr_pack.cc")], keep=b.files(), std=models.INC[std], incs=[b.dir]):
            return

        def restart(p):
            q = p.split("|")[0]
            return [c.seed, iters, int(q[1:]) + 1] if q[:1] == "T" else None
        c.run_harness(exe, [c.seed, iters, 0], files=b.files(), restart=restart, timeout=120)
        c.count("programs")
        c.count("types", len(ts))
    c.pmap(one, jobs)


vrt.main("C01", body, "random class models; every value packed, unpacked into fresh/used/const targets and compared by generated comparators that share no code with classdesc; heterogeneous sequences with byte-exact boundaries; ASan+UBSan")
