#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt, models


def body(c):
    c.prepare()
    iters = c.scale(1200, 20000)
    jobs = [(i, s) for i in range(c.scale(3, 12)) for s in ("98", "11", "17", "20")]

    def one(j):
        i, std = j
        b = models.Bundle(c, i, std, "pack", ["pack", "unpack"], nclass=6, nozero=True)
        if not b.ok:
            return
        ts = b.alltypes(6)
        ts += ["std::string", "std::vector<std::string>", "std::list<std::vector<bool> >" if False else "std::vector<bool>"]
        m = models.prelude((["pack_base.h", "pack_stl.h"], [], ["h_hostile.h"]))
        m += "#include \"classdesc_epilogue.h\"\nint main(int argc, char** argv) {\n uint64_t seed=strtoull(argv[1],0,10); unsigned iters=atoi(argv[2]); int from=atoi(argv[3]);\n"
        ts = list(dict.fromkeys(ts))
        for k, t in enumerate(ts):
            m += " if (from<=%d) hostileType<%s >(\"T%d\",seed*31+%d,iters);\n" % (k, t, k, k)
        m += " report().done(); return 0;}\n"
        b.write("main.cc", m)
        exe = os.path.join(b.dir, "t")
        # an out-of-range enumerator is data, not a memory error
        if not c.compile_or_violate("hostile", exe, [os.path.join(b.dir, "main.cc"), os.path.join(c.src, "xdr_pack.cc")], keep=b.files(), std=models.INC[std], incs=[b.dir], flags=["-fno-sanitize=enum"]):
            return

        def restart(p):
            q = p.split("|")[0]
            return [c.seed, iters, int(q[1:]) + 1] if q[:1] == "T" else None
        c.run_harness(exe, [c.seed, iters, 0], files=b.files(), restart=restart, max_restarts=20, timeout=c.scale(150, 1500), cwd=b.dir)
        c.count("programs")
        c.count("types", len(ts))
    h = os.path.join(vrt.VERIF, "harness")
    d = os.path.join(c.work, "p")
    os.makedirs(d)
    r = c.sh([os.path.join(c.src, "classdesc"), "-nodef", "-onbase", "-i", os.path.join(h, "g04", "ptrs.h"), "pack", "unpack"])
    if r.rc:
        c.violation("processor-failed", r.err)
    open(os.path.join(d, "gen4.cd"), "w").write(r.out)

    def ptrs(std):
        exe = os.path.join(d, "p" + std)
        if c.compile_or_violate("pointers", exe, [os.path.join(h, "c04b.cc"), os.path.join(c.src, "xdr_pack.cc")], std=std, incs=[d, os.path.join(h, "g04")], flags=["-fno-sanitize=enum"]):
            n = c.scale(12000, 400000)
            c.run_harness(exe, [c.seed, n, 0], key="ptr", timeout=c.scale(150, 1500), max_restarts=12,
                          restart=lambda p: [c.seed, n, int(p.split("|")[1]) + 1] if "|" in p else None)
    c.pmap(lambda j: j[0](j[1]), [(ptrs, s) for s in ("gnu++98", "gnu++11", "gnu++17")] + [(one, j) for j in jobs])


vrt.main("C04", body, "mutated, truncated and random byte strings unpacked into every generated type from exactly sized buffers and files, native and XDR, under ASan+UBSan; afterwards the target is repacked, refilled and destroyed; distinct = distinct hostile byte strings")
