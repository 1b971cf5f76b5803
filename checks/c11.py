#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt, xmlgen, xmltree


def body(c):
    c.prepare()
    iters = c.scale(25, 250)
    jobs = [(i, s) for i in range(c.scale(5, 20)) for s in ("98", "11", "17")]

    def one(j):
        i, std = j
        b = xmlgen.XmlBundle(c, i, std)
        if not b.ok:
            return
        out = os.path.join(b.dir, "docs")
        s = " FILE* out=fopen(arg,\"a\");\n"
        for k, t in enumerate(b.tys):
            s += " if (from<=%d) xmlDocs<%s >(out,\"T%d\",seed*37+%d,iters);\n" % (k, t.full(), k, k)
        if not b.build(s + " fclose(out);\n"):
            return
        c.run_harness(b.exe, ["docs", c.seed, iters, 0, out], files=b.files(), restart=lambda p: ["docs", c.seed, iters, int(p.split("|")[0][1:]) + 1, out] if p[:1] == "T" else None, timeout=150)
        c.count("programs")
        unord = [b.unordered(t) for t in b.tys]
        for l in open(out):
            f = l.rstrip("\n").split("\t")
            if len(f) != 7:
                continue
            name, it, root, pretty, schema, doc, exp = f
            doc = bytes.fromhex(doc)
            exp = xmltree.parse_expected(bytes.fromhex(exp).decode())
            c.count("trees")
            try:
                act = xmltree.parse_xml(doc)
            except xmltree.BadXml as e:
                c.violation("not-well-formed", "%s (%s, std %s): %s\n%s" % (b.tys[int(name[1:])].full(), "pretty" if pretty == "1" else "plain", std, e, doc[:2000]), b.files())
                continue
            d = xmltree.compare(exp[0], act, schema or None)
            if d:
                c.violation("tree:" + d[0], "%s (%s, std %s): %s\n%s" % (b.tys[int(name[1:])].full(), "pretty" if pretty == "1" else "plain", std, d[1], doc[:2500].decode("utf-8", "replace")), b.files())
            if pretty == "1" and schema and len(c.samples) < 6:
                c.sample(doc.decode("utf-8", "replace"))
    c.pmap(one, jobs)


vrt.main("C11", body, "documents written for random models and values (both layouts, with/without namespace, const and non-const), read by the independent expat parser and compared node by node with the element tree derived from the model; ASan+UBSan on the writer", evaluations="trees")
