#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt, models


def body(c):
    c.prepare()
    iters = c.scale(100, 800)
    jobs = [(i, s) for i in range(c.scale(int(os.environ.get("HN", 2)), 16)) for s in ("98", "11", "17", "20")]

    def one(j):
        i, std = j
        b = models.Bundle(c, i, std, "pack", ["pack", "unpack"], nclass=6, deny=["longdouble"])
        if not b.ok:
            return
        m = models.prelude((["pack_base.h", "pack_stl.h"], [], ["h_pack.h", "h_cmp.h"]))
        m += "#include \"classdesc_epilogue.h\"\nint main(int argc, char** argv) {\n uint64_t seed=strtoull(argv[1],0,10); unsigned iters=atoi(argv[2]); int from=atoi(argv[3]);\n"
        ts = [t for t in b.alltys(6) if not t.dims]
        for k, t in enumerate(ts):
            # equal unordered containers may hold their items in different orders
            exact = not b.model.contains(t, {"uset", "umap", "ummap", "long double"})
            m += " if (from<=%d) cmpType<%s,%s >(\"T%d\",seed*37+%d,iters);\n" % (k, t.full(), str(exact).lower(), k, k)
        b.write("main.cc", m + " report().done(); return 0;}\n")
        exe = os.path.join(b.dir, "t")
        if not c.compile_or_violate("cmp", exe, [os.path.join(b.dir, "main.cc"), os.path.join(c.src, "xdr_pack.cc")], keep=b.files(), std=models.INC[std], incs=[b.dir]):
            return
        c.run_harness(exe, [c.seed, iters, 0], files=b.files(), timeout=120, restart=lambda p: [c.seed, iters, int(p.split("|")[0][1:]) + 1] if p[:1] == "T" else None)
        c.count("programs")
        c.count("types", len(ts))
    c.pmap(one, jobs)


vrt.main("C27", body, "random class models and library types; triples of values, equal, sharing prefixes or unrelated; every pair compared both ways by deepCmp and deepEq, by packed contents and by generated comparators; objects compared before and after; ASan+UBSan", evaluations="pairs")
