#!/usr/bin/env python3
import os, random, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt, models, xmlgen, xmltree

INCS = ("stringKeyMap.h", "xml_pack_base.h", "xml_unpack_base.h", "xsd_generate_base.h")


def body(c):
    c.prepare()
    iters = c.scale(10, 80)

    def one(i):
        rng = random.Random("c36:%d:%d" % (c.seed, i))
        std = "98"  # from C++11 on the header needs the JSON parser, which is not here
        b = xmlgen.XmlBundle(c, i, std, actions=("xml_pack", "xml_unpack", "xsd_generate"), feat="xsd", private=False, incs=INCS, nclass=3, nraw=4)
        if not b.ok:
            return
        vals = [t.full() for t in b.tys if not t.dims]
        vals = ["int", "std::string", "bool", "double", "std::vector<int>", "std::map<int,std::string>"] + vals
        rng.shuffle(vals)
        vals = vals[:6]
        M = "classdesc::StringKeyMap<%s >"
        mv = ([v for v in vals if "shared_ptr" not in v and "VSHARED" not in v] + ["int"] * 4)[:4]  # schemas take no containers of pointers
        mem = [M % mv[0], M % (M % mv[1]), "std::vector<%s >" % (M % mv[2]), "std::map<int,%s >" % (M % mv[3]), "int", M % "unsigned"]
        rng.shuffle(mem)
        own = "struct Own {\n%s};\n" % "".join("  %s m%d;\n" % (t, k) for k, t in enumerate(mem))
        b.write("own.h", own)
        r = c.sh([os.path.join(c.src, "classdesc"), "-nodef", "-typeName", "-i", os.path.join(b.dir, "own.h"), "xml_pack", "xml_unpack", "xsd_generate"], cwd=b.dir)
        if r.rc:
            return c.violation("processor-failed", r.err[:1500], [os.path.join(b.dir, "own.h")])
        b.write("own.cd", r.out)
        each = lambda f: "".join(f % {"k": k} for k in range(len(mem)))
        b.write("skm.h", "#include \"h_skm.h\"\n#include \"h_xsd.h\"\n#include \"own.h\"\n#include \"own.cd\"\ntemplate <> struct Ops<Own> {\n"
                " static std::string tname() {return \"Own\";}\n"
                " static void gen(Rng& r, Own& x) {(void)r; %s}\n static bool same(const Own& a, const Own& b) {return %strue;}\n static void show(std::ostream& o, const Own& x) {%s}\n"
                " static void kids(std::string& o, const Own& x) {%s}\n};\n" % (
                    "".join("Ops<%s >::gen(r,x.m%d); " % (t, k) for k, t in enumerate(mem)),
                    "".join("Ops<%s >::same(a.m%d,b.m%d) && " % (t, k, k) for k, t in enumerate(mem)),
                    "".join("o<<\" m%d=\"; Ops<%s >::show(o,x.m%d); " % (k, t, k) for k, t in enumerate(mem)),
                    "".join("XExp<%s >::elem(o,\"m%d\",x.m%d); " % (t, k, k) for k, t in enumerate(mem))))
        files = b.files() + [os.path.join(b.dir, f) for f in ("own.h", "own.cd", "skm.h")]
        tys = [M % v for v in vals] + ["Own", M % "Own", M % (M % vals[0]), "std::vector<%s >" % (M % vals[1])]
        xsd = [t == "Own" for t in tys]  # a schema needs a class at its root
        s = " FILE* out=mode==\"docs\"? fopen(arg,\"a\"): 0;\n"
        for k, t in enumerate(tys):
            s += " if (from<=%d) {if (out) xmlDocs<%s >(out,\"T%d\",seed*43+%d,iters); else if (mode==\"trip\") xmlRoundTrip<%s >(\"T%d\",seed*45+%d,iters,true);" % (k, t, k, k, t, k, k)
            s += " else if (mode==\"read\") xmlReads<%s >(arg,\"T%d\",seed*43+%d);%s}\n" % (t, k, k, " else xsdDocs<%s >(arg,\"T%d\",seed*47+%d,iters);" % (t, k, k) if xsd[k] else "")
        s += "".join(" if (mode==\"trip\" && from<=%d) skmAbsent<%s >(\"T%d\",seed*49,iters);\n" % (k, v, k) for k, v in enumerate(vals))
        if not b.build(s + " if (out) fclose(out);\n", hdr="skm.h"):
            return
        c.count("programs")
        c.count("types", len(tys))
        docs, inp, xd = [os.path.join(b.dir, n) for n in ("docs", "variants", "xsd")]
        os.makedirs(xd)

        def run(mode, arg):
            c.run_harness(b.exe, [mode, c.seed, iters, 0, arg], files=files, timeout=150, restart=lambda p: [mode, c.seed, iters, int(p.split("|")[0][1:]) + 1, arg] if p[:1] == "T" else None)
        run("trip", "")
        run("docs", docs)
        n = 0
        with open(inp, "w") as o:
            for l in open(docs):
                f = l.rstrip("\n").split("\t")
                if len(f) != 7:
                    continue
                name, it, root, pretty, schema, doc, exp = f
                doc, tree = bytes.fromhex(doc), bytes.fromhex(exp).decode()
                want, t = xmltree.parse_expected(tree)[0], tys[int(name[1:])]
                c.count("trees")
                try:
                    d = xmltree.compare(want, xmltree.parse_xml(doc), schema or None)
                except xmltree.BadXml as e:
                    d = ("not-well-formed", str(e))
                if d:
                    c.violation("tree:" + d[0], "%s: %s\n%s" % (t, d[1], doc[:2500].decode("utf-8", "replace")), files)
                for v in range(3):
                    w = xmltree.Writer(rng)
                    w.on["unknown"] = False  # any element is an entry
                    n += 1
                    o.write("\t".join([name, it, root, "full", "", str(n), w.doc(xmltree.parse_expected(tree)[0]).encode().hex()]) + "\n")
                if len(c.samples) < 4:
                    c.sample(doc.decode("utf-8", "replace"))
        run("read", inp)
        run("xsd", xd)
        for k, t in enumerate(tys):
            x = os.path.join(xd, "T%d.xsd" % k)
            ds = [p for p in (os.path.join(xd, "T%d.%d.xml" % (k, it)) for it in range(iters)) if os.path.exists(p)]
            if not xsd[k] or not shutil.which("xmllint") or not ds:
                continue
            r = c.sh(["xmllint", "--noout", "--nonet", "--schema", x] + ds, timeout=120)
            if "Schemas parser error" in r.err or "failed to compile" in r.err:
                c.violation("schema-invalid", "%s: %s\n%s" % (t, r.err[:1500], open(x).read()), files + [x])
                continue
            for l in r.err.splitlines():
                if l.endswith(" validates"):
                    c.count("validated")
                elif l.endswith(" fails to validate"):
                    f = l.split()[0]
                    e = [y for y in r.err.splitlines() if y.startswith(f + ":")][:3]
                    key = re.sub(r"'[^']*'|\{[^}]*\}\S*", "*", e[0].split("error : ")[-1] if e else "?")
                    c.violation("invalid-document:" + key[:80], "%s: %s\n%s\n%s" % (t, "\n".join(e)[:900], open(f).read()[:1500], open(x).read()[:6000]), files + [x, f])
    c.pmap(one, range(c.scale(int(os.environ.get("HN", 8)), 40)))


vrt.main("C36", body, "string-keyed maps of fundamental, library and generated values, nested and as members, written and compared with the expected tree by an independent parser, validated against their schema, and read back from documents of an independent writer; ASan+UBSan; distinct = distinct documents")
