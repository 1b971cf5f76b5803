#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt, xmlgen, xmltree


def body(c):
    c.prepare()
    iters = c.scale(60, 600)
    jobs = [(i, s) for i in range(c.scale(4, 16)) for s in ("98", "11", "17")]

    def one(j):
        i, std = j
        b = xmlgen.XmlBundle(c, i, std)
        if not b.ok:
            return
        s = ""
        for k, t in enumerate(b.tys):
            s += " if (from<=%d) xmlRoundTrip<%s >(\"T%d\",seed*31+%d,iters,true);\n" % (k, t.full(), k, k)
        if not b.build(s):
            return
        c.run_harness(b.exe, ["rt", c.seed, iters, 0], files=b.files(), restart=lambda p: ["rt", c.seed, iters, int(p.split("|")[0][1:]) + 1] if p[:1] == "T" else None, timeout=150)
        c.count("programs")
        c.count("types", len(b.tys))
    hand = [("hand", s) for s in ("98", "11", "17")]

    def byhand(j):
        std = j[1]
        d = os.path.join(c.work, "hand" + std)
        os.makedirs(d)
        h = os.path.join(vrt.VERIF, "harness")
        r = c.sh([os.path.join(c.src, "classdesc"), "-nodef", "-typeName", "-i", os.path.join(h, "g10", "cd.h"), "xml_pack", "xml_unpack"])
        if r.rc:
            return c.violation("processor-failed", r.err)
        open(os.path.join(d, "g10.cd"), "w").write(r.out)
        exe = os.path.join(d, "t")
        if c.compile_or_violate("hand", exe, [os.path.join(h, "c10b.cc")], std="c++" + std, incs=[d], libs=()):
            out = os.path.join(d, "docs")
            c.run_harness(exe, [c.seed, c.scale(400, 6000), out], key="hand", files=[os.path.join(h, "c10b.cc")], timeout=120)
            for l in open(out):
                doc, a, t = (bytes.fromhex(x) for x in l.rstrip("\n").split("\t"))
                c.count("cdata_documents_read_by_expat")
                try:
                    tree = xmltree.parse_xml(doc)
                except xmltree.BadXml as e:
                    c.violation("cdata-not-well-formed", "%s: %r" % (e, doc))
                    continue
                m = {k.name: k for k in tree.kids}
                if m["a"].text.encode() != a or {k.name: k for k in m["i"].kids}["text"].text.encode() != t:
                    c.violation("cdata-tree", "expected %r and %r in %r" % (a, t, doc))
    c.pmap(lambda j: byhand(j) if j[0] == "hand" else one(j), hand + jobs)


vrt.main("C10", body, "random class models x values of XML-expressible text; written in both layouts with and without schema, read back via stream, FILE* and reused readers, strict and lenient, into fresh and used targets; compared by generated comparators; ASan+UBSan")
