#!/usr/bin/env python3
import glob, os, random, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt, hdrgen


def body(c):
    c.prepare(san_tools=True)
    corpus = os.path.join(c.work, "corpus")
    os.makedirs(corpus)
    for i in range(30):
        for std in ("98", "17"):
            g = hdrgen.HeaderGen(random.Random("C18:%d:%d:%s" % (c.seed, i, std)), std=std, nclass=2 + i % 4)
            t = g.text if i % 2 else hdrgen.reformat(g.text, g.rng)
            open(os.path.join(corpus, "g%02d-%s" % (i, std)), "w", newline="").write(t)
    for f in sorted(glob.glob(os.path.join(c.src, "*.h"))):
        shutil.copyfile(f, os.path.join(corpus, "r-" + os.path.basename(f)))
    drv = os.path.join(c.work, "drv")
    r = c.sh(["g++", "-O1", "-w", os.path.join(vrt.VERIF, "harness", "c18drv.cc"), "-o", drv])
    if r.rc:
        raise vrt.Inconclusive("driver: " + r.err[:500])
    n = c.scale(int(os.environ.get("HN", 9000)), 150000)
    maxcpu = [0.0]

    def one(j):
        tool, k = j
        out = os.path.join(c.work, "out-%s-%d" % (tool, k))
        os.makedirs(out)
        r = c.sh([drv, corpus, out, str(c.seed * 10 + k), str(n if tool == "classdesc" else n // 2), os.path.join(c.src, tool + "-san")] + (["f"] if tool != "classdesc" else []), timeout=c.scale(700, 6000), cwd=out,
                 env={"ASAN_OPTIONS": vrt.ENV["ASAN_OPTIONS"] + ":detect_leaks=0:hard_rss_limit_mb=1500", "C18_DBG": os.environ.get("C18_DBG", "")})
        if os.environ.get("C18_DBG"):
            print(r.err[:1500], r.out[:1500])
        if r.timeout or r.rc:
            raise vrt.Inconclusive("driver did not finish: rc %s %s" % (r.rc, r.err[-300:]))
        for l in r.out.splitlines():
            p = l.split("\t")
            if p[0] == "N":
                c.count(p[1], int(p[2]))
            elif p[0] == "M":
                maxcpu[0] = max(maxcpu[0], float(p[1]))
            elif p[0] == "F":
                f = os.path.join(out, "fail" + p[1])
                err = open(f + ".err", errors="replace").read()
                rc = int(p[3])
                k = vrt.crash_key(rc, err, c.src) if p[2] == "crash" else "hang"
                c.violation("%s:%s" % (tool, k), "%s ended with status %d on the %s input:\n%s\n--\n%s\n%s" % (tool, rc, p[4], open(f + ".cmd").read(), open(f + ".h", errors="replace").read()[:3000], err[:4000]), [f + ".h", f + ".cmd"])
    c.pmap(one, [("classdesc", 0), ("classdesc", 1), ("insert-friend", 2)], workers=3)
    # missing, unreadable and directory inputs
    for what, a in (("missing", "/nonexistent/x.h"), ("directory", c.work), ("empty name", "")):
        r = c.sh([os.path.join(c.src, "classdesc-san"), "-i", a, "pack"], timeout=60)
        c.count("runs")
        if r.timeout or r.rc < 0 or r.rc >= 97:
            c.violation("classdesc:input:" + what, "status %s\n%s" % (r.rc, r.err[:3000]))
    c.extra["max_cpu_seconds"] = maxcpu[0]


vrt.main("C18", body, "mutated, truncated, spliced and random source texts given to the ASan+UBSan builds of both processors, one process each, with random options, through a file or standard input; monitors: sanitizer reports, signals, CPU time and memory limits; distinct = distinct inputs", evaluations="runs", nontrivial="distinct_inputs")
