#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt

SRC = os.path.join(vrt.VERIF, "harness", "c26.cc")


def body(c):
    c.prepare()

    def job(std):
        exe = os.path.join(c.work, "m" + std)
        if c.compile_or_violate("multiarray", exe, [SRC], std=std, libs=()):
            c.run_harness(exe, [c.seed * 10 + len(std) + int(std[-2:]), c.scale(25, 1000)], files=[SRC], timeout=300)
    c.pmap(job, ["c++11", "c++14", "gnu++17", "gnu++20"])


vrt.main("C26", body, "views of rank 1 to 5 over arrays of random extents (0 and 1 included) of six element types; each index tuple, iterator and sub-view compared with flat index arithmetic; ASan+UBSan around the storage; distinct = distinct (type, extents)")
