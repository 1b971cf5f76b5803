#!/usr/bin/env python3
import glob, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt, hdrcheck

OPTS = ["-respect_private", "-use_mbr_pointers", "-overload", "-onbase", "-typeName", "-workdir"]
DETECT = """
template <class T> struct Described {
  typedef char yes; struct no {char c[2];};
  template <class U> static no f(typename U::undescribed*); template <class U> static yes f(...);
  static const bool v=sizeof(f<T>(0))==sizeof(yes);
};
template <class T> void present(const char* name, bool want, bool got, const char* action)
{
  report().count(want? "present": "omitted");
  CHECK(want==got,got? "not-omitted": "not-described",std::string(action)+" of "+name+(got? " described, though it was to be omitted": " not described"));
}
"""


def types(h):
    """(name to omit by, template, type) of everything described"""
    t = []
    for c in h.g.classes:
        if c.access != "public" or c.outer and not c.nested_public:
            continue
        if c.spec:
            t.append((c.qual(), True, c.qual() + c.spec))
        elif c.tparams:
            t += [(c.qual(), True, "%s< %s >" % (c.qual(), a)) for a in c.inst]
        else:
            t.append((c.qual(), False, c.qual()))
    for e in h.g.enums:
        if e.access == "public" and not e.templ:
            t.append((e.qual(), False, e.qual()))
    return t


def body(c):
    c.prepare()
    n = c.scale(28, 400)
    jobs = [(i, s) for i in range(n) for k, s in enumerate(("98", "11", "17")) if c.tier != "quick" or (i + k) % 3]

    def options(r, i):
        """A combination of options: any one, any two and random ones."""
        k = i % 28
        if k < 6:
            o = [OPTS[k]]
        elif k < 21:
            o = [(a, b) for a in range(6) for b in range(a)][k - 6]
            o = [OPTS[x] for x in o]
        else:
            o = [x for x in OPTS if r.random() < .5]
        r.shuffle(o)
        return o

    def run(h, o, key, omit=(), extra="", pre="", header=None, actions=("probe",), I=(), stdin=False):
        flags = ["-nodef"]
        wd = os.path.join(h.dir, "wd")
        for x in o:
            flags += [x, wd, "-include", "inc.h"] if x == "-workdir" else [x]
        for d in I:
            flags += ["-I", d]
        for f in glob.glob(wd + "/*"):
            os.unlink(f)
        os.makedirs(wd, exist_ok=True)
        h.write("inc.h", "#include <iostream>\n#include <map>\n#include <set>\n#include \"ops.h\"\n#include \"probe_base.h\"\n%s#include \"gen.h\"\n#include \"gen.cd\"\n" % pre)
        if h.describe(flags, stdin=stdin, actions=actions, header=header or "gen.h") is None:
            return None
        src = h.write("main.cc", h.main(opts=[x[1:] for x in o], omit=omit, extra=extra, pre=pre))
        srcs = []
        if "-workdir" in o:
            # the definitions, compiled as one
            srcs = [h.write("wd.cc", "".join("#include \"wd/%s\"\n" % os.path.basename(f) for f in sorted(glob.glob(wd + "/*.cc"))))]
            c.count("work-directory-files", len(glob.glob(wd + "/*.cc")))
        for x in o:
            c.count("option:" + x)
        if h.build_run(src, key, srcs=srcs):
            c.count("headers")
            return True

    def header(name, std, seed, i, o):
        # Member pointers cannot give write access to mutable members of constant objects, nor
        # be used with constants lacking a definition, with which C++ requires a value.
        deny = ["mutable", "static-const", "constexpr"] if "-use_mbr_pointers" in o else []
        return hdrcheck.Header(c, name, std, seed, nclass=3 + i % 6, deny=deny)

    def one(j):
        i, std = j
        r = random.Random("%s:%d:%s" % (c.seed, i, std))
        o = os.environ["C16_OPTS"].split() if os.environ.get("C16_OPTS") else options(r, i)
        h = header("h%d-%s" % j, std, "%d:%d:%s" % (c.seed, i, std), i, o)
        if not h.valid():
            return
        c.count("combination:" + "".join(sorted(o)))
        pre = ""
        if "-respect_private" in o:
            # no access is granted to anything private
            pre = "#undef CLASSDESC_ACCESS\n#define CLASSDESC_ACCESS(type) friend struct NoAccess_\nstruct NoAccess_;\n"
        run(h, o, "options" + "".join(sorted(o)), pre=pre, stdin=h.rng.random() < .3)

    def omission(j):
        i, std = j
        r = random.Random("o%s:%d:%s" % (c.seed, i, std))
        o = [x for x in OPTS[1:5] if r.random() < .25]
        h = header("o%d-%s" % j, std, "o%d:%d:%s" % (c.seed, i, std), i, o)
        if not h.valid():
            return
        ts = types(h)
        names = sorted({n for n, _, _ in ts})
        how = ["pragma", "macro", "base"][i % 3]
        out = {a: set(r.sample(names, r.randint(0, max(1, len(names) // 2)))) for a in ("probe", "probex")}
        lines = []
        for a in out:
            for nm in out[a]:
                lines.append("#pragma omit%s%s%s%s%s" % (r.choice([" ", "  ", "\t", " "]), a, r.choice([" ", "  ", " ", "\t"]), nm[2:].replace("::", r.choice(["::", "::", " :: "])), r.choice(["", "", " ", "\r"])))
        r.shuffle(lines)
        pre, I, hdr = "#include \"probex_base.h\"\n" + DETECT, [], None
        excluded = {a: set(out[a]) for a in out}
        if how == "pragma":
            # anywhere at the outermost level
            parts = h.g.parts
            t = parts[:1]
            for p in parts[1:-1]:
                while lines and r.random() < .5:
                    t.append(lines.pop())
                t.append(p)
            t += lines + parts[-1:]
            h.write("prag.h", "\n".join(t))
            hdr = "prag.h"
        elif how == "base":
            d = os.path.join(h.dir, "inc")
            os.makedirs(d)
            for a in out:
                h.write("inc/%s_base.h" % a, "#ifndef X\n// first\n\n%s\n#pragma once\nint x;\n" % "\n".join(r.sample(["", "#pragma other", "#pragma omission", "//"], 2) + [l for l in lines if l.split()[2] == a]))
            I = [os.path.join(h.dir, "none"), d]
        else:
            # the guards that suppress a descriptor are found in the output
            txt = h.describe(["-nodef"] + o, actions=("probe", "probex"))
            if txt is None:
                return
            for a in out:
                for nm in out[a]:
                    tn = "CLASSDESC_%s_%s" % (a, nm.replace("::", "__"))
                    m = re.findall(r"^#ifndef (%s(?:_\w*)?)\s*$" % re.escape(tn), txt, re.M)
                    m = [x for x in m if x == tn or any(t and n == nm for n, t, _ in ts)]
                    if not m:
                        c.violation("no-guard", "no guard %s in the output, for %s" % (tn, nm), h.files())
                        return
                    pre += "".join("#define %s\n" % x for x in sorted(set(m)))
        extra = ""
        for nm, _, t in ts:
            for a in out:
                extra += " present< %s >(\"%s\",%s,Described<classdesc_access::access_%s< %s > >::v,\"%s\");\n" % (t, t, "false" if nm in excluded[a] else "true", a, t, a)
        run(h, o, "omit-" + how, omit=excluded["probe"], extra=extra, pre=pre, header=hdr, actions=("probe", "probex"), I=I)
    def distinct_guards(std):
        """Types whose names differ only in symbols do not suppress one another."""
        d = os.path.join(c.work, "guards-" + std)
        os.makedirs(d)
        args = ["int*", "int&", "const int*", "const int&", "int**", "int[3]", "int[4]", "int(*)(int)", "int (*)(int,int)", "std::vector<int>*", "std::vector<int>&", "long*", "X1", "X1*"] + (["int&&", "int*&"] if std != "98" else [])
        hdr = "#include <vector>\n#include <map>\nstruct X1 {int a;};\ntemplate <class T> struct A {int prim;};\ntemplate <class T, int N> struct B {int prim;};\n"
        main = ""
        ts = [("A", x) for x in args] + [("B", x) for x in ("int,1", "int,-1", "int*,1", "int&,1", "int*,2")]
        for i, (k, a) in enumerate(ts):
            hdr += "template <> struct %s<%s > {int m%d;};\n" % (k, a, i)
            main += " present< %s<%s > >(\"%s<%s >\",true,Described<classdesc_access::access_probe< %s<%s > > >::v,\"probe\");\n" % (k, a, k, a, k, a)
            main += " {classdesc::probe_t t; %s<%s > x; classdesc_access::access_probe< %s<%s > >()(t,\"!\",x); CHECK(t.log.size()==1 && t.log[0].find(\"M !.m%d \")==0,\"wrong-descriptor\",\"%s<%s > \"+(t.log.size()? t.log[0]: std::string(\"not described\"))); report().count(\"visits\");}\n" % (k, a, k, a, i, k, a)
        open(d + "/gen.h", "w").write(hdr)
        for opts in (["-nodef"], ["-nodef", "-typeName"]):
            r = c.sh([os.path.join(c.src, "classdesc")] + opts + ["-i", d + "/gen.h", "probe"], timeout=60)
            open(d + "/gen.cd", "w").write(r.out)
            open(d + "/main.cc", "w").write("#include <iostream>\n#include <map>\n#include <set>\n#include \"ops.h\"\n#include \"probe_base.h\"\n" + DETECT + "#include \"gen.h\"\n#include \"gen.cd\"\n#include \"classdesc_epilogue.h\"\nint main() {\n" + main + " report().done(); return 0;}\n")
            fs = [d + "/gen.h", d + "/gen.cd", d + "/main.cc"]
            if c.compile_or_violate("guards", d + "/t", [d + "/main.cc"], keep=fs, std="gnu++" + std, incs=[d, hdrcheck.PROBE], san=False, flags=["-O0", "-w"], defs=(), libs=()):
                c.run_harness(d + "/t", [], key="guards", files=fs, timeout=60)
    c.pmap(distinct_guards, ["98", "11", "17"])
    c.pmap(one, jobs)
    c.pmap(omission, [] if os.environ.get("C16_OPTS") else [(i, s) for i, s in jobs if i < n // 2])
    if c.counts.get("generator_rejects", 0) * 4 > len(jobs):
        raise vrt.Inconclusive("the header generator produced too many invalid headers")


vrt.main("C16", body, "random headers described under combinations of options, with omit pragmas and suppression macros, inline and into a work directory; the visits of a recording descriptor (name, type, address, order) compared with those expected under these options, and the presence of each descriptor; distinct = distinct expected visit lists", evaluations="visits")
