#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt, models


def body(c):
    c.prepare()
    iters = c.scale(60, 600)
    jobs = [(i, s) for i in range(c.scale(int(os.environ.get("HN", 5)), 24)) for s in ("98", "11", "17")]

    def one(j):
        i, std = j
        b = models.Bundle(c, i, std, "dump", ["dump"], opts=["-nodef", "-typeName"] + (["-onbase"] if i % 2 else []), nclass=7, private=False, dexp=True)
        if not b.ok:
            return
        m = models.prelude((["dump_base.h"], ["h_dump.h"], []))
        m += "#include \"dump_epilogue.h\"\n#include \"classdesc_epilogue.h\"\nint main(int argc, char** argv) {\n uint64_t seed=strtoull(argv[1],0,10); unsigned iters=atoi(argv[2]); int from=atoi(argv[3]);\n"
        tys = [t for t in b.model.tops()]
        for k, t in enumerate(tys):
            m += " if (from<=%d) dumpType<%s >(\"T%d\",seed*53+%d,iters);\n" % (k, t.full(), k, k)
        b.write("main.cc", m + " report().done(); return 0;}\n")
        exe = os.path.join(b.dir, "t")
        if not c.compile_or_violate("dump", exe, [os.path.join(b.dir, "main.cc")], keep=b.files(), std=models.INC[std], incs=[b.dir], libs=()):
            return
        c.run_harness(exe, [c.seed, iters, 0], files=b.files(), timeout=120, restart=lambda p: [c.seed, iters, int(p.split("|")[0][1:]) + 1] if p[:1] == "T" else None)
        c.count("programs")
        c.count("types", len(tys))
    c.pmap(one, jobs)


vrt.main("C24", body, "random class models; each dump searched, in order, for a line naming each described member and showing its value (or each element) as computed independently; objects compared before and after; two dumps compared; ASan+UBSan", evaluations="items_looked_for")
