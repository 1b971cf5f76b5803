#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt


def body(c):
    c.prepare()
    h = os.path.join(vrt.VERIF, "harness")
    d = os.path.join(c.work, "b")
    os.makedirs(d)
    r = c.sh([os.path.join(c.src, "classdesc"), "-nodef", "-onbase", "-i", os.path.join(h, "g08", "obj.h"), "pack", "unpack"])
    if r.rc:
        c.violation("processor-failed", r.err)
        return
    open(os.path.join(d, "gen.cd"), "w").write(r.out)
    n = c.scale(400, 8000)

    def job(std):
        exe = os.path.join(d, "r" + std)
        if not c.compile_or_violate("refs", exe, [os.path.join(h, "c08.cc"), os.path.join(c.src, "xdr_pack.cc")], std=std, incs=[d, os.path.join(h, "g08")]):
            return
        for m in ("ref", "own"):
            c.run_harness(exe, [c.seed + len(std) + ord(std[-1]), n, 0, m], timeout=200,
                          restart=lambda p: [c.seed + len(std) + ord(std[-1]), n, int(p.split("|")[1]) + 1, m] if "|" in p else None)
    c.pmap(job, ["gnu++98", "gnu++11", "gnu++17", "gnu++20"])


vrt.main("C08", body, "random histories of reference operations (aliasing, self reference, containers, serialisation) in lock step with a counting model; live-object registry; buffer ownership lists copied, erased, swapped, moved; ASan+LSan")
