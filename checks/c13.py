#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt, xmlgen


def body(c):
    c.prepare()
    iters = c.scale(900, 12000)
    jobs = [(i, s) for i in range(c.scale(3, 12)) for s in ("98", "11", "17")]

    def one(j):
        i, std = j
        b = xmlgen.XmlBundle(c, i, std)
        if not b.ok:
            return
        s = ""
        for k, t in enumerate(b.tys):
            s += " if (from<=%d) xmlHostile<%s >(\"T%d\",seed*43+%d,iters);\n" % (k, t.full(), k, k)
        if not b.build(s, hdr="h_xmlhostile.h", flags=["-fno-sanitize=enum"]):
            return
        c.run_harness(b.exe, ["x", c.seed, iters, 0], files=b.files(), max_restarts=12, timeout=c.scale(150, 900),
                      restart=lambda p: ["x", c.seed, iters, int(p.split("|")[0][1:]) + 1] if p[:1] == "T" else None)
        c.count("programs")
        c.count("types", len(b.tys))
    h = os.path.join(vrt.VERIF, "harness")
    r = c.sh([os.path.join(c.src, "classdesc"), "-nodef", "-typeName", "-i", os.path.join(h, "g13", "rec.h"), "xml_pack", "xml_unpack"])
    if r.rc:
        c.violation("processor-failed", r.err)
    open(os.path.join(c.work, "g13.cd"), "w").write(r.out)

    def shapes(j):
        mode, std, san = j
        exe = os.path.join(c.work, "shape%s%s" % (mode, std))
        if c.compile_or_violate("shapes", exe, [os.path.join(h, "c13b.cc")], std=std, san=san, libs=()):
            c.run_harness(exe, [c.scale(60000, 200000) if not san else 1, mode, 0], key=mode, timeout=c.scale(200, 800), max_restarts=12,
                          restart=lambda p: [1 if san else c.scale(60000, 200000), mode, int(p.split("|")[0]) + 1])
    work = [(shapes, ("deep", s, True)) for s in ("c++98", "c++17")] + [(one, j) for j in jobs]
    c.pmap(lambda w: w[0](w[1]), work)
    c.pmap(shapes, [("time", s, False) for s in ("c++98", "c++17")], workers=2)   # undisturbed


vrt.main("C13", body, "mutated, spliced, truncated and random documents read into every generated type via stream and FILE*, every prefix of every construct, nesting up to 10^6, and timing of 18 extreme shapes at two sizes; ASan+UBSan, CPU time monitor, hang and memory limits; distinct = distinct documents")
