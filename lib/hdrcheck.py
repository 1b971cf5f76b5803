"""Shared by the checks of the descriptor processor: generate a header, describe it, build and run the probe."""
import os, random, re
import hdrgen, models
import vrt

V = vrt.VERIF
PROBE = os.path.join(V, "harness", "probe")


class Header:
    def __init__(self, c, name, std, seed, gen=None, **kw):
        self.c, self.std, self.name = c, std, name
        self.rng = random.Random("%s:%s" % (c.prop, seed))
        self.dir = os.path.join(c.work, name)
        os.makedirs(self.dir)
        self.g = gen or hdrgen.HeaderGen(self.rng, std=std, **kw)
        self.write("gen.h", self.g.text)

    def write(self, name, text, newline=""):
        p = os.path.join(self.dir, name)
        with open(p, "w", newline="") as o:
            o.write(text)
        return p

    def main(self, cds=("gen.cd",), opts=(), header="gen.h", pre="", omit=(), extra=""):
        m = "#include <iostream>\n#include <map>\n#include <set>\n#include \"ops.h\"\n#include \"probe_base.h\"\n" + pre + "#include \"%s\"\n" % header
        m += "".join("#include \"%s\"\n" % x for x in cds)
        m += "\n".join(self.g.defs) + "\n" + self.g.expect(opts, omit)
        m += "#include \"classdesc_epilogue.h\"\nint main() {\n"
        for r in self.g.roots():
            m += " probeClass< %s >(\"%s\",%s);\n" % (r, r, "true" if "onbase" in opts else "false")
        for e in self.g.enums:
            if e.access == "public" and not e.templ and e.qual() not in omit:
                m += " {const %s k[]={%s}; probeEnum< %s >(\"%s\",%s,k,%d);}\n" % (e.qual(), ",".join(e.keyq(k) for k in e.keys), e.qual(), e.qual(), "true" if "typeName" in opts else "false", len(e.keys))
        return m + extra + " report().done(); return 0;}\n"

    def valid(self):
        """Is the header itself acceptable to the compiler (a generator error if not)?"""
        p = self.write("valid.cc", self.main(cds=()))
        r = self.c.sh(["g++", "-std=gnu++" + self.std, "-w", "-fsyntax-only", "-I", self.dir, "-I", PROBE, "-I", os.path.join(V, "harness"), "-I", self.c.src, "-DTR1", "-DHAVE_LONGLONG", p], timeout=120)
        if r.rc:
            self.c.count("generator_rejects")
            if os.environ.get("HDR_DEBUG"):
                print("GENERATOR", self.dir, [l for l in r.err.split("\n") if "error" in l][:3])
            return False
        return True

    def describe(self, opts=("-nodef",), out="gen.cd", header="gen.h", stdin=False, actions=("probe",), cwd=None):
        cmd = [os.path.join(self.c.src, "classdesc")] + list(opts)
        h = os.path.join(self.dir, header)
        if stdin:
            r = self.c.sh(cmd + list(actions), cwd=cwd or self.dir, timeout=60, stdin=open(h, "rb").read(), binary=True)
        else:
            r = self.c.sh(cmd + ["-i", h] + list(actions), cwd=cwd or self.dir, timeout=60)
        if r.rc or r.timeout:
            err = r.err if isinstance(r.err, str) else r.err.decode("latin-1")
            self.c.violation("processor-failed", "exit %s%s on a valid header: %s\n%s" % (r.rc, " (timeout)" if r.timeout else "", err[:500], open(h, errors="replace").read()[:6000]), [h])
            return None
        if out:
            self.write(out, r.out if isinstance(r.out, str) else r.out.decode("latin-1"))
        return r.out

    def files(self):
        return [os.path.join(self.dir, f) for f in os.listdir(self.dir) if f.endswith((".h", ".cd", ".cc"))]

    def build_run(self, src, key, exe="t", libs=(), srcs=()):
        exe = os.path.join(self.dir, exe)
        if not self.c.compile_or_violate(key, exe, [src] + list(srcs), keep=self.files(), std="gnu++" + self.std, incs=[self.dir, PROBE], san=False, libs=libs, flags=["-O0", "-w"], defs=()):
            return False
        self.c.run_harness(exe, [], key=key, files=self.files(), timeout=60)
        return True
