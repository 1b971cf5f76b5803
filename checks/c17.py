#!/usr/bin/env python3
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt, hdrcheck, hdrgen

OPTS = ["-onbase", "-typeName", "-respect_private", "-use_mbr_pointers", "-overload"]


def norm(t):
    return re.sub(r"\s+", "", t)


def text(o):
    return o if isinstance(o, str) else o.decode("latin-1")


def diff(a, b):
    x, y = [l.strip() for l in a.split("\n") if l.strip()], [l.strip() for l in b.split("\n") if l.strip()]
    for i in range(max(len(x), len(y))):
        l, m = (x + [""] * len(y))[i], (y + [""] * len(x))[i]
        if norm(l) != norm(m):
            return "output line %d: %r became %r" % (i, l, m)
    return "?"


def body(c):
    c.prepare()
    n = c.scale(int(os.environ.get("HN", 400)), 4000)
    jobs = [(i, s) for i in range(n) for s in ("98", "11", "17")]

    def one(j):
        i, std = j
        h = hdrcheck.Header(c, "h%d-%s" % (i, std), std, "%d:%d:%s" % (c.seed, i, std), nclass=3 + i % 6)
        r = h.rng
        opts = ["-nodef"] + [o for o in OPTS if r.random() < .3]
        ref = h.describe(opts, out=None)
        if ref is None:
            return
        base = text(ref)
        c.count("headers")
        c.distinct(norm(base))
        # the same input again: file, standard input, another directory
        for how in ("file", "stdin"):
            o = h.describe(opts, out=None, stdin=how == "stdin", cwd=c.work if how == "file" else None)
            if o is None:
                return
            c.count("reruns")
            if text(o) != base:
                c.violation("rerun-differs:" + how, "options %s: %s" % (opts, diff(base, text(o))), h.files())
        for v in range(5):
            if v < 3:
                kind, t = "layout", hdrgen.reformat(h.g.text, r)
            elif v == 3:
                kind, t = "padding", h.g.padded()
            else:
                kind, t = "layout", h.g.text.replace("\n", "\r\n")
            f = h.write("v%d.h" % v, t)
            o = h.describe(opts, out=None, header="v%d.h" % v)
            if o is None:
                continue
            c.count("variants:" + kind)
            if norm(text(o)) == norm(base):
                os.unlink(f)
                continue
            # differs: are both headers valid, and does the difference show?
            if not h.valid():
                continue
            p = h.write("validv.cc", h.main(cds=(), header="v%d.h" % v))
            k = c.sh(["g++", "-std=gnu++" + std, "-w", "-fsyntax-only", "-I", h.dir, "-I", hdrcheck.PROBE, "-I", os.path.join(vrt.VERIF, "harness"), "-I", c.src, "-DTR1", "-DHAVE_LONGLONG", p], timeout=120)
            if k.rc:
                c.count("generator_rejects")
                if os.environ.get("HDR_DEBUG"):
                    print("GENERATOR", f, [l for l in k.err.split("\n") if "error" in l][:3])
                continue
            if os.environ.get("HDR_DEBUG"):
                print("DIFF", kind, opts, diff(base, text(o)), h.dir, f)
            c.violation(kind + "-dependent", "options %s: %s" % (opts, diff(base, text(o))), h.files())
        for f in os.listdir(h.dir):
            if c.counts.get("violations", 0) == 0:
                os.unlink(os.path.join(h.dir, f))
    c.pmap(one, jobs)
    if c.counts.get("generator_rejects", 0) * 20 > len(jobs):
        raise vrt.Inconclusive("the header generator produced too many invalid headers")


vrt.main("C17", body, "random headers, each described again unchanged (file, standard input) and in random layouts, with line continuations, comments, DOS line ends, and with intervening code; the output compared; distinct = distinct descriptor texts", evaluations="headers")
