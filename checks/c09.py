#!/usr/bin/env python3
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt, polygen, models


def body(c):
    c.prepare()
    combos = [("mixin", "string"), ("crtp", "int"), ("object", "int"), ("mixin", "enum"), ("crtp", "string"), ("mixin", "int"), ("crtp", "enum"), ("object", "int")]
    jobs = [(i, combos[i % len(combos)], ("98", "11", "17", "20")[(i + i // 8) % 4]) for i in range(c.scale(16, 64))]
    iters = c.scale(80, 600)

    def one(j):
        i, (style, key), std = j
        rng = random.Random("c09:%d:%d" % (c.seed, i))
        h = polygen.Hier(rng, style, key, std, n=rng.randint(2, 6))
        d = os.path.join(c.work, "p%d" % i)
        os.makedirs(d)

        def w(n, t):
            with open(os.path.join(d, n), "w") as o:
                o.write(t)
        w("hier.h", h.header())
        acts = ["pack", "unpack"] + ([] if style == "object" else ["xml_pack", "xml_unpack"])
        r = c.sh([os.path.join(c.src, "classdesc"), "-nodef", "-typeName"] + (["-onbase"] if i % 3 else []) + ["-i", os.path.join(d, "hier.h")] + acts)
        if r.rc:
            c.violation("processor-failed", r.err, [os.path.join(d, "hier.h")])
            return
        w("hier.cd", r.out)
        w("hops.h", h.ops())
        m = "".join('#include "%s"\n' % x for x in (
            ["object.h", "pack_stl.h"] if style == "object" else ["polyBase.h", "polyPackBase.h", "polyXMLBase.h", "factory.h", "xml_pack_base.h", "xml_unpack_base.h", "pack_stl.h"]))
        if style == "object":
            m += "#define STYLE_OBJECT\n"
        m += '#include "hier.h"\n#include "hier.cd"\n#include "h_poly.h"\n#include "classdesc_epilogue.h"\n#include "hops.h"\n'
        if key == "string" and style != "object":
            m += "static int checkTypes(Fact& f) {std::vector<std::string> t=f.types(), w; for (unsigned i=0; i<NCLS; ++i) w.push_back(keyText(i)); std::sort(w.begin(),w.end()); std::sort(t.begin(),t.end()); std::string j; for (unsigned i=0; i<t.size(); ++i) j+=t[i]+\",\"; CHECK(t==w,\"factory-types\",j); return 0;}\n#define CHECK_TYPES(x) checkTypes(x)\n"
        else:
            m += "#define CHECK_TYPES(x) 0\n"
        m += '#include "h_poly_main.h"\n'
        w("main.cc", m)
        exe = os.path.join(d, "t")
        files = [os.path.join(d, f) for f in ("hier.h", "hier.cd", "hops.h", "main.cc")]
        if not c.compile_or_violate(style, exe, [os.path.join(d, "main.cc"), os.path.join(c.src, "xdr_pack.cc")], std=models.INC[std], incs=[d], keep=files):
            return
        c.run_harness(exe, [c.seed * 50 + i, iters, 0], files=files, timeout=200, restart=lambda p: [c.seed * 50 + i, iters, int(p.split("|")[1]) + 1] if "|" in p else None)
        c.count("hierarchies")
        c.count("style_" + style)
    h = os.path.join(vrt.VERIF, "harness")
    d = os.path.join(c.work, "poly")
    os.makedirs(d)
    r = c.sh([os.path.join(c.src, "classdesc"), "-nodef", "-onbase", "-i", os.path.join(h, "g09.h"), "pack", "unpack"])
    open(os.path.join(d, "gen.cd"), "w").write(r.out)

    def polyjob(std):
        exe = os.path.join(d, "p" + std)
        if c.compile_or_violate("poly", exe, [os.path.join(h, "c09b.cc"), os.path.join(c.src, "xdr_pack.cc")], std=models.INC[std], incs=[d]):
            c.run_harness(exe, [c.seed * 50 + int(std), iters * 4, 0], timeout=200, restart=lambda p: [c.seed * 50 + int(std), iters * 4, int(p.split("|")[1]) + 1] if "|" in p else None)
    c.pmap(lambda j: polyjob(j) if isinstance(j, str) else one(j), ["98", "11", "17"] + jobs)


vrt.main("C09", body, "random class hierarchies in the documented styles (mixin, CRTP, object handles) with string/int/enum keys; handles and heterogeneous containers round-tripped in binary, XDR and XML into fresh and used receivers; clones mutated; factories probed with registered and unknown keys")
