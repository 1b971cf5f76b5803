#!/usr/bin/env python3
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt, models
from cppgen import Ty, Member

KINDS = ["bool", "char", "signed char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "float", "double", "long double", "unsigned char",
         "std::string", "std::vector<int>", "std::map<int,std::string>", "std::deque<std::string>", "std::pair<int,double>", "int*", "const char*", "double*"]


def more(model, rng):
    """Further excluded members, everywhere."""
    def cls(c):
        for n in c.nested:
            cls(n)
        for _ in range(rng.choice([0, 1, 1, 2])):
            kind = rng.choice(KINDS)
            plain = [k for k in model.classes[:model.classes.index(c)] if not k.tparam and k.access == "public"] if c in model.classes else []
            if plain and rng.random() < .3:
                kind = rng.choice(plain).qual()
            c.members.insert(rng.randint(0, len(c.members)), Member(model.fresh("xc"), Ty("excl", "classdesc::Exclude<%s >" % kind, [Ty("prim", kind)])))
    for c in model.classes:
        cls(c)


class Twin(models.Bundle):
    """The model with its excluded members, and the same without."""
    def __init__(self, c, i, std, acts, opts):
        self.hid = None
        super().__init__(c, i, std, "xsd", acts, opts=opts, nclass=4, private=False, xops=True, xexp=True, deny=["tuple", "pairkey"])

    def describe(self, acts, opts):
        more(self.model, self.rng)
        st, n, self.full = self.model.rng.getstate(), self.model.n, self.dir
        ok = True
        for hide in (False, True):
            self.model.rng.setstate(st)
            self.model.n, self.model.hide_excl = n, hide
            if hide:
                self.dir = self.hid = self.full + "h"
                os.makedirs(self.dir)
            self.header = os.path.join(self.dir, "gen.h")
            self.write("gen.h", self.model.emit().replace("#include <string>", "#include <string>\n#include \"classdesc.h\"", 1))
            self.write("genops.h", self.model.ops())
            ok = ok and super().describe(acts, opts)
        return ok


def body(c):
    c.prepare()
    iters = c.scale(40, 400)
    jobs = [(i, s) for i in range(c.scale(int(os.environ.get("HN", 2)), 16)) for s in ("98", "11", "17")]
    acts = ["pack", "unpack", "xml_pack", "xml_unpack", "xsd_generate", "dump", "random_init"]

    def one(j):
        i, std = j
        b = Twin(c, i, std, acts, ["-nodef", "-typeName", "-onbase"])
        if not b.ok:
            return
        ts = b.model.tops()
        m = models.prelude((["pack_base.h", "pack_stl.h", "xml_pack_base.h", "xml_unpack_base.h", "xsd_generate_base.h", "dump_base.h", "random_init_base.h"], ["h_excl.h"], ["h_pack.h"]))
        m += "#include \"classdesc_epilogue.h\"\nint main(int argc, char** argv) {\n uint64_t seed=strtoull(argv[1],0,10); unsigned iters=atoi(argv[2]); int from=atoi(argv[3]); FILE* f=fopen(argv[4],\"a\");\n"
        for k, t in enumerate(ts):
            m += " if (from<=%d) exclType<%s >(f,\"T%d\",seed*41+%d,iters);\n" % (k, t.full(), k, k)
        m += " fclose(f); report().done(); return 0;}\n"
        got = []
        for d in (b.full, b.hid):
            b.dir = d
            b.write("main.cc", m)
            exe = os.path.join(d, "t")
            if not c.compile_or_violate("excl" if d == b.full else "plain", exe, [os.path.join(d, "main.cc"), os.path.join(c.src, "xdr_pack.cc")], keep=b.files(), std=models.INC[std], incs=[d], flags=["-O0"]):
                return
            o = os.path.join(d, "out")
            c.run_harness(exe, [c.seed, iters, 0, o], files=b.files(), timeout=150, restart=lambda p: [c.seed, iters, int(p.split("|")[0][1:]) + 1, o] if p[:1] == "T" else None)
            got.append(dict(l.rstrip("\n").split("\t", 1) for l in open(o, errors="replace") if "\t" in l) if os.path.exists(o) else {})
        b.dir = b.full
        for k in got[0]:
            c.count("outputs_compared")
            if k in got[1] and got[0][k] != got[1][k]:
                what = k.split(".")[2]
                c.violation("excluded-shows:" + what, "%s of %s: with excluded members %s\nwithout %s" % (what, ts[int(k.split(".")[0][1:])].full(), got[0][k][:1400], got[1][k][:1400]), b.files())
            elif k not in got[1]:
                c.count("no_twin_output")
        c.count("programs")
        c.count("types", len(ts))

    def hand(std):
        exe = os.path.join(c.work, "hand-" + std)
        main = os.path.join(vrt.VERIF, "harness", "c25.cc")
        if c.compile_or_violate("hand", exe, [main], std=models.INC[std], libs=()):
            c.run_harness(exe, [c.seed, c.scale(2000, 20000)], key="hand", files=[main], timeout=150)
    c.pmap(lambda f: f[0](f[1]), [(hand, s) for s in ("98", "11", "17", "20")] + [(one, j) for j in jobs])


vrt.main("C25", body, "random class models emitted twice, with excluded members and without: the packed bytes (native, XDR), XML, schemas, dumps and random values of both compared; excluded members set to known values and watched through unpacking and random initialisation; the wrapper compared with a plain variable over random operation sequences; ASan+UBSan", evaluations="outputs_compared")
