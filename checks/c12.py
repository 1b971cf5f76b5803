#!/usr/bin/env python3
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt, xmlgen, xmltree


def body(c):
    c.prepare()
    iters = c.scale(12, 100)
    nvar = c.scale(5, 10)
    jobs = [(i, s) for i in range(c.scale(5, 20)) for s in ("98", "11", "17")]

    def one(j):
        i, std = j
        rng = random.Random("c12:%d:%d:%s" % (c.seed, i, std))
        b = xmlgen.XmlBundle(c, i, std)
        if not b.ok:
            return
        out, inp = os.path.join(b.dir, "docs"), os.path.join(b.dir, "variants")
        s = " FILE* out=mode==\"docs\"? fopen(arg,\"a\"): 0;\n"
        for k, t in enumerate(b.tys):
            s += " if (from<=%d) {if (out) xmlDocs<%s >(out,\"T%d\",seed*41+%d,iters); else xmlReads<%s >(arg,\"T%d\",seed*41+%d);}\n" % (k, t.full(), k, k, t.full(), k, k)
        if not b.build(s + " if (out) fclose(out);\n"):
            return
        rs = lambda m, f: (lambda p: [m, c.seed, iters, int(p.split("|")[0][1:]) + 1, f] if p[:1] == "T" else None)
        c.run_harness(b.exe, ["docs", c.seed, iters, 0, out], files=b.files(), restart=rs("docs", out), timeout=150)
        n = 0
        with open(inp, "w") as o:
            for l in open(out):
                f = l.rstrip("\n").split("\t")
                if len(f) != 7:
                    continue
                name, it, root, exp = f[0], f[1], f[2], f[6]
                tree = bytes.fromhex(exp).decode()
                for v in range(nvar):
                    t = xmltree.parse_expected(tree)[0]
                    kind, path = "full", ""
                    ds = list(xmltree.drops(t)) if v >= nvar - 2 else []
                    tt = b.tys[int(name[1:])]
                    ds = [x for x in ds if "." not in x[2]] or ds if rng.random() < .6 else ds
                    if tt.kind in ("class", "tmpl") and ds:
                        par, pos, path, node = rng.choice(ds)
                        kind = "dropleaf" if node.kind is not None else "drop"
                        del par.kids[pos]
                    w = xmltree.Writer(rng)
                    doc = w.doc(t)
                    if rng.random() < .02:  # the oracle's own documents are XML
                        xmltree.parse_xml(doc.encode())
                        c.count("documents_confirmed_by_expat")
                    n += 1
                    o.write("\t".join([name, it, root, kind, path, str(n), doc.encode().hex()]) + "\n")
        c.run_harness(b.exe, ["read", c.seed, iters, 0, inp], files=b.files() + [inp], restart=rs("read", inp), timeout=200)
        c.count("programs")
    c.pmap(one, jobs)


vrt.main("C12", body, "documents written by an independent writer for model-derived element trees, varying layout, comments, PIs, doctype, attributes, references, CDATA, empty tags, sibling order, unknown and absent elements; the object read must equal the value the tree was derived from; ASan+UBSan")
