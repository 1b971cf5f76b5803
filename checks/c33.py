#!/usr/bin/env python3
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt, models, polygen, cppgen

TSAN = ["-fsanitize=thread", "-fno-omit-frame-pointer"]
FEAT = cppgen.FEAT["pack"] & cppgen.FEAT["xsd"] & cppgen.FEAT["dump"] & cppgen.FEAT["random"]


def body(c):
    c.prepare(regenerate_functiondb=True)
    h = os.path.join(vrt.VERIF, "harness")
    # libtirpc reads padding into a buffer shared by all threads, and never looks at it
    supp = os.path.join(c.work, "tsan.supp")
    open(supp, "w").write("called_from_lib:libtirpc\n")
    env = {"TSAN_OPTIONS": vrt.ENV["TSAN_OPTIONS"] + ":halt_on_error=1:suppressions=" + supp}

    def threads(exe, args, files):
        r = c.run_harness(exe, args, files=files, timeout=200, ok_rc=(0, 97), env=env)
        c.count("executions")
        for w in r.err.split("==================")[1:]:
            m = re.search(r"WARNING: ThreadSanitizer: (.*?)(?: \(pid|\n)", w)
            if not m:
                continue
            fr = []
            for s in re.split(r"\n\s*\n", w)[:2]:  # both accesses
                f = vrt._frame(s, c.src)
                if not f:
                    g = re.search(r"#0 (\S+?)[(<]", s)
                    f = g.group(1) if g else "?"
                fr.append(f)
            c.violation("tsan:%s:%s" % (m.group(1).split(" on ")[0].strip(), "+".join(sorted(set(fr)))), w[:5000], files)

    def model(j):
        i, std = j
        b = models.Bundle(c, i, std, FEAT, ["pack", "unpack", "xml_pack", "xml_unpack", "xsd_generate", "dump", "random_init"], opts=["-nodef", "-typeName"], nclass=4, onbase=False, private=False)
        if not b.ok:
            return
        m = models.prelude((["pack_base.h", "pack_stl.h", "xml_pack_base.h", "xml_unpack_base.h", "xsd_generate_base.h", "dump_base.h", "random_init_base.h"], [], []))
        m += "#include \"classdesc_epilogue.h\"\n#define THR_TYPES\n#include \"h_thr.h\"\nint main(int, char** argv) {\n uint64_t seed=strtoull(argv[1],0,10); unsigned n=atoi(argv[2]); std::vector<std::pair<const char*,TJob> > jobs;\n"
        ts = [t for t in b.alltys(3) if not t.dims][:5]
        for t in ts:
            k = t.kind in ("class", "tmpl")
            for q in ("names", "pack", "xml") + (("more",) if k else ()):
                m += " jobs.push_back(std::make_pair(\"%s\",&TJobs<%s,%d>::%s));\n" % (q, t.full(), k, q)
        b.write("main.cc", m + " runThreads(\"model\",jobs,8,n,seed); report().done(); return 0;}\n")
        exe = os.path.join(b.dir, "t")
        if not c.compile_or_violate("model", exe, [os.path.join(b.dir, "main.cc"), os.path.join(c.src, "xdr_pack.cc")], keep=b.files(), std=models.INC[std], incs=[b.dir], san=TSAN, flags=["-pthread"]):
            return
        for k in range(c.scale(2, 20)):
            threads(exe, [c.seed * 100 + k, c.scale(8, 20)], b.files())
        c.count("model_programs")

    def poly(j):
        i, (style, key), std = j
        rng = random.Random("c33:%d:%d" % (c.seed, i))
        g = polygen.Hier(rng, style, key, std, n=rng.randint(2, 5))
        d = os.path.join(c.work, "p%d" % i)
        os.makedirs(d)

        def w(n, t):
            open(os.path.join(d, n), "w").write(t)
        w("hier.h", g.header())
        r = c.sh([os.path.join(c.src, "classdesc"), "-nodef", "-typeName", "-i", os.path.join(d, "hier.h"), "pack", "unpack"] + ([] if style == "object" else ["xml_pack", "xml_unpack"]))
        if r.rc:
            return c.violation("processor-failed", r.err, [os.path.join(d, "hier.h")])
        w("hier.cd", r.out)
        w("hops.h", g.ops())
        m = "".join('#include "%s"\n' % x for x in (["object.h", "pack_stl.h"] if style == "object" else ["polyBase.h", "polyPackBase.h", "polyXMLBase.h", "factory.h", "xml_pack_base.h", "xml_unpack_base.h", "pack_stl.h"]))
        w("main.cc", m + ("#define STYLE_OBJECT\n" if style == "object" else "") + '#include "hier.h"\n#include "hier.cd"\n#include "h_poly.h"\n#include "classdesc_epilogue.h"\n#include "hops.h"\n#include "h_thr.h"\n#include "h_thrpoly.h"\n')
        files = [os.path.join(d, f) for f in ("hier.h", "hier.cd", "hops.h", "main.cc")]
        exe = os.path.join(d, "t")
        if not c.compile_or_violate("poly", exe, [os.path.join(d, "main.cc"), os.path.join(c.src, "xdr_pack.cc")], keep=files, std=models.INC[std], incs=[d], san=TSAN, flags=["-pthread"]):
            return
        for k in range(c.scale(2, 20)):
            threads(exe, [c.seed * 100 + k, c.scale(15, 40)], files)
        c.count("poly_programs")

    def graphs(std):
        d = os.path.join(c.work, "g" + std)
        os.makedirs(d)
        r = c.sh([os.path.join(c.src, "classdesc"), "-nodef", "-typeName", "-i", os.path.join(h, "g33", "gen.h"), "pack", "unpack", "xml_pack", "xml_unpack"])
        if r.rc:
            return c.violation("processor-failed", r.err)
        open(os.path.join(d, "gen.cd"), "w").write(r.out)
        exe = os.path.join(d, "t")
        if not c.compile_or_violate("graphs", exe, [os.path.join(h, "c33.cc"), os.path.join(c.src, "xdr_pack.cc")], std=models.INC[std], incs=[d, os.path.join(h, "g33")], san=TSAN, flags=["-pthread"]):
            return
        for k in range(c.scale(3, 30)):
            threads(exe, [c.seed * 100 + k, c.scale(10, 40), "all"], [])
        for o in ("graph", "graphv", "tree", "refs", "enums", "functional", "buffers", "xml"):
            threads(exe, [c.seed * 100, c.scale(20, 80), o], [])
        c.count("graph_programs")
        exe = os.path.join(d, "a")
        if c.compile_or_violate("abort", exe, [os.path.join(h, "c33abort.cc")], std=models.INC[std], incs=[d, os.path.join(h, "g33")], flags=["-pthread"], libs=()):
            c.run_harness(exe, [c.seed, c.scale(40, 400)], timeout=200)

    combos = [("mixin", "string"), ("crtp", "int"), ("object", "int"), ("crtp", "enum")]
    jobs = [(graphs, s) for s in ("11", "17")] + [(model, (i, ("11", "17", "20")[i % 3])) for i in range(c.scale(int(os.environ.get("HN", 6)), 30))]
    jobs += [(poly, (i, combos[i % 4], ("11", "17", "20")[i % 3])) for i in range(c.scale(4, 20))]
    c.pmap(lambda j: j[0](j[1]), jobs)


vrt.main("C33", body, "up to 8 threads, starting together, serialising, deserialising, dumping, naming, cloning and creating independent objects of random models, polymorphic hierarchies, graphs, trees and references, calling through functional objects; ThreadSanitizer watches every access, and every result is compared with that of the same work done by one thread; distinct = distinct results")
