#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt, models


def body(c):
    c.prepare()
    iters = c.scale(60, 400)
    jobs = [(i, s) for i in range(c.scale(int(os.environ.get("HN", 3)), 20)) for s in ("98", "11", "17")]

    def one(j):
        i, std = j
        b = models.Bundle(c, i, std, "random", ["random_init"], opts=["-nodef", "-typeName"] + (["-onbase"] if i % 2 else []), nclass=5, depth=1 + i % 2, xexp=True, deny=["excl"] if i % 2 else [])
        if not b.ok:
            return
        m = models.prelude((["random_init_base.h"], ["h_xmlexp.h"], ["h_random.h"]))
        m += "#include \"random_init_epilogue.h\"\n#include \"classdesc_epilogue.h\"\nint main(int argc, char** argv) {\n uint64_t seed=strtoull(argv[1],0,10); unsigned iters=atoi(argv[2]); int from=atoi(argv[3]);\n"
        ts = b.model.tops()
        for k, t in enumerate(ts):
            m += " if (from<=%d) randomType<%s >(\"T%d\",seed*29+%d,iters);\n" % (k, t.full(), k, k)
        b.write("main.cc", m + " report().done(); return 0;}\n")
        exe = os.path.join(b.dir, "t")
        if not c.compile_or_violate("random", exe, [os.path.join(b.dir, "main.cc")], keep=b.files(), std=models.INC[std], incs=[b.dir], libs=()):
            return
        c.run_harness(exe, [c.seed, iters, 0], files=b.files(), timeout=150, restart=lambda p: [c.seed, iters, int(p.split("|")[0][1:]) + 1] if p[:1] == "T" else None)
        c.count("programs")
        c.count("types", len(ts))

    def hand(std):
        d = os.path.join(c.work, "hand-" + std)
        os.makedirs(d)
        main = os.path.join(vrt.VERIF, "harness", "c23.cc")
        hdr = [os.path.join(vrt.VERIF, "harness", "c23%s.h" % x) for x in ("", "-11")]
        for h in hdr:
            r = c.sh([os.path.join(c.src, "classdesc"), "-nodef", "-typeName", "-i", h, "random_init"])
            if r.rc or r.timeout:
                return c.violation("processor-failed", r.err, [h])
            open(os.path.join(d, os.path.basename(h)[:-1] + "cd"), "w").write(r.out)
        exe = os.path.join(d, "t")
        if c.compile_or_violate("hand", exe, [main], keep=hdr, std=models.INC[std], incs=[d], libs=()):
            c.run_harness(exe, [c.seed, c.scale(3000, 30000)], key="hand", files=[main] + hdr, timeout=150)
    c.pmap(lambda f: f[0](f[1]), [(hand, s) for s in ("98", "11", "17", "20")] + [(one, j) for j in jobs])


vrt.main("C23", body, "random class models; two objects with different prior contents initialised from one scripted stream must come out equal (so every described member was assigned), with valid enumerators and bounded containers, members varying between streams; sources include 0, the greatest number below 1 and denormals; the default source over scripted std::rand; ASan+UBSan", evaluations="draws")
