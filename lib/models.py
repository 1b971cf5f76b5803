"""Builds model-based harnesses: header -> descriptor -> main."""
import os, random, re
import cppgen
from vrt import BuildBroken

INC = {"98": "c++98", "11": "c++11", "17": "c++17", "20": "c++20"}


class Bundle:
    """One random model in its own directory with a descriptor generated by the real processor."""

    def __init__(self, c, idx, std, feat, actions, opts=("-nodef", "-onbase"), fmt=None, incs=(), **kw):
        self.c, self.idx, self.std = c, idx, std
        rng = random.Random("%s:%d:%d:%s" % (c.prop, c.seed, idx, std))
        self.rng = rng
        self.dir = os.path.join(c.work, "m%d-%s" % (idx, std))
        os.makedirs(self.dir)
        self.model = cppgen.Model(rng, std=std, feat=feat, **kw)
        self.header = os.path.join(self.dir, "gen.h")
        self.write("gen.h", self.model.emit(fmt(rng) if fmt else None))
        self.write("genops.h", self.model.ops())
        self.ok = self.describe(actions, opts)

    def write(self, name, text):
        with open(os.path.join(self.dir, name), "w") as o:
            o.write(text)
        return os.path.join(self.dir, name)

    def describe(self, actions, opts, out="gen.cd", exe="classdesc"):
        r = self.c.sh([os.path.join(self.c.src, exe)] + list(opts) + ["-i", self.header] + list(actions), cwd=self.dir, timeout=120)
        if r.rc != 0 or r.timeout:
            self.c.violation("processor-failed", "classdesc exit %s on a valid header: %s" % (r.rc, r.err[:1500]), [self.header])
            return False
        self.write(out, r.out)
        return True

    def alltypes(self, nraw=4):
        return [t.full() for t in self.alltys(nraw)]

    def alltys(self, nraw=4):
        ts = list(self.model.tops())
        for _ in range(nraw):
            t = self.model.ty(depth=2, member=False)
            if t.kind != "excl" and t.cpp != "bool":
                ts.append(t)
        out, seen = [], set()
        for t in ts:
            if t.full() not in seen:
                seen.add(t.full())
                out.append(t)
        return out

    def files(self):
        return [os.path.join(self.dir, f) for f in ("gen.h", "gen.cd", "genops.h", "main.cc")]


def prelude(incs):
    return "#include \"classdesc_access.h\"\n#include <iostream>\n" + "".join("#include \"%s\"\n" % i for i in incs[0]) + \
        "#include \"ops.h\"\n#include \"gen.h\"\n" + "".join("#include \"%s\"\n" % i for i in incs[1]) + \
        "#include \"gen.cd\"\n#include \"genops.h\"\n" + "".join("#include \"%s\"\n" % i for i in incs[2])
