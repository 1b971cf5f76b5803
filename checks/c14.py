#!/usr/bin/env python3
import os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt, xmlgen


def body(c):
    c.prepare()
    if not shutil.which("xmllint"):
        raise vrt.Inconclusive("xmllint not installed")
    iters = c.scale(12, 120)
    jobs = [(i, s) for i in range(c.scale(6, 24)) for s in ("98", "11", "17")]

    def one(j):
        i, std = j
        b = xmlgen.XmlBundle(c, i, std, actions=("xml_pack", "xml_unpack", "xsd_generate"), feat="xsd", private=i % 4 > 1, xopts=["-respect_private"] if i % 4 > 1 else [], multibase=i % 2 == 0, incs=("xml_pack_base.h", "xml_unpack_base.h", "xsd_generate_base.h"), nraw=0)
        if not b.ok:
            return
        s, n = "", 0
        for k, t in enumerate(b.tys):
            s += " if (from<=%d) xsdDocs<%s >(arg,\"T%d\",seed*47+%d,iters);\n" % (k, t.full(), k, k)
        if not b.build(s, hdr="h_xsd.h"):
            return
        out = os.path.join(b.dir, "out")
        os.makedirs(out)
        c.run_harness(b.exe, ["xsd", c.seed, iters, 0, out], files=b.files(), restart=lambda p: ["xsd", c.seed, iters, int(p.split("|")[0][1:]) + 1, out] if p[:1] == "T" else None, timeout=150)
        c.count("programs")
        for k, t in enumerate(b.tys):
            xsd = os.path.join(out, "T%d.xsd" % k)
            docs = [os.path.join(out, "T%d.%d.xml" % (k, it)) for it in range(iters)]
            docs = [d for d in docs if os.path.exists(d)]
            if not os.path.exists(xsd) or not docs:
                continue
            r = c.sh(["xmllint", "--noout", "--nonet", "--schema", xsd] + docs, timeout=120)
            c.count("schemas_compiled")
            if re.search(r"^(.*parser error.*|.*Schemas parser error.*|WXS schema .* failed to compile)$", r.err, re.M):
                m = re.search(r"parser error : (.*)", r.err)
                c.violation("schema-invalid:" + re.sub(r"'[^']*'|\{[^}]*\}\S*", "*", m.group(1) if m else "?")[:90], "%s (std %s): %s\n%s" % (t.full(), std, r.err[:1500], open(xsd).read()), b.files() + [xsd])
                continue
            for l in r.err.splitlines():
                if l.endswith(" validates"):
                    c.count("validated")
                elif l.endswith(" fails to validate"):
                    f = l.split()[0]
                    e = [x for x in r.err.splitlines() if x.startswith(f + ":")][:3]
                    m = re.search(r"error : (.*)", "\n".join(e))
                    key = re.sub(r"'[^']*'|\{[^}]*\}\S*", "*", m.group(1) if m else "?")
                    c.violation("invalid-document:" + key[:90], "%s (std %s): %s\n%s\n%s" % (t.full(), std, "\n".join(e)[:900], open(f).read()[:1500], open(xsd).read()[:6000]), b.files() + [xsd, f])
                elif "error" not in l and l.strip():
                    c.count("other_output_lines")
    c.pmap(one, jobs)


vrt.main("C14", body, "schemas generated for random class models compiled by libxml2, and every emitted document (both layouts, const and not) validated against its schema; distinct = distinct schemas and documents", evaluations="validated")
