#!/usr/bin/env python3
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt

H = os.path.join(vrt.VERIF, "harness")


class Gen:
    """Headers of enumerations; knows each one's enumerators."""
    def __init__(self, rng, std):
        self.r, self.std, self.n, self.enums = rng, std, 0, []
        self.c11 = std != "98"
        self.names = {}      # scope -> enumeration names usable again elsewhere
        self.text = self.scope([], 0)
        self.text += self.members()

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def enum(self, path, inclass):
        r = self.r
        scoped = self.c11 and r.random() < .45
        name = self.fresh("E")
        if r.random() < .5:      # the same name in different scopes
            name = r.choice(["Colour", "State", "Type", "Enum_", "enum1", "key"])
            if any(e["path"] == path and e["name"] == name for e in self.enums):
                name = self.fresh("E")
        under = ""
        lo, hi = -2000000000, 2000000000
        if self.c11 and r.random() < .5:
            under, lo, hi = r.choice([("int", lo, hi), ("unsigned short", 0, 65535), ("short", -32768, 32767), ("unsigned char", 0, 255), ("signed char", -128, 127), ("char", -128, 127), ("long", lo, hi), ("unsigned", 0, hi), ("unsigned long long", 0, hi), ("::int64_t", lo, hi), ("::MyShort", -32768, 32767)])
        keys, vals, out, prev = [], [], [], -1
        for i in range(r.choice([1, 1, 2, 3, 5, 8, 20])):
            k = self.fresh("k") if not scoped or r.random() < .6 else r.choice(["red", "green", "blue", "a", "b", "none", "name", "value", "first", "enum_x", "x1", "_y"])
            if k in keys:
                continue
            x = r.random()
            t = k
            if self.std == "17" and r.random() < .08:
                t += r.choice([" [[deprecated]]", " [[deprecated(\"use, {other}=1\")]]", " [[maybe_unused]]"])
            if x < .35:
                v = r.choice([0, 1, -1, lo, hi, 7, r.randint(lo, hi), r.randint(-5, 50), r.randint(0, 300)])
                v = min(max(v, lo), hi)
                t += "%s%s" % (r.choice([" = ", "=", " =", "\n=\n"]), r.choice(["%d" % v, "(%d)" % v, "%d+0" % v, "0x%x" % v if v >= 0 else "%d" % v, "%d /* , k */" % v]))
            elif x < .42:
                v = r.choice([(1 << 3, "1<<3"), (97, "'a'"), (44, "','"), (125, "'}'"), (34, "'\"'"), (39, "'\\''"), (4, "sizeof(std::pair<short,short>)"), (6, "int(sizeof(\"a,b}c\"))"), (3, "true? 3: 4"), (1, "(2>1)"), (5, "5u")])
                t += " = " + v[1]
                v = v[0]
            elif x < .5 and keys:
                j = r.randrange(len(keys))
                v = vals[j]
                t += " = " + keys[j]         # an alias
            elif x < .54 and keys and lo <= vals[-1] + 3 <= hi:
                v = vals[-1] + 3
                t += " = " + keys[-1] + "+3"
            else:
                v = prev + 1
                if not lo <= v <= hi:
                    v = lo
                    t += " = %d" % v
            if under == "" and not scoped and v > 2000000000:
                v = 1
                t = k + " = 1"
            prev = v
            keys.append(k); vals.append(v); out.append(t)
        form = r.random()
        trail = "," if self.c11 and r.random() < .2 else ""
        sep = r.choice([", ", ",", ",\n  ", " , /* c, d */ ", ", // e, f}\n"])
        body = "{%s%s}" % (sep.join(out), trail)
        td = False
        if not scoped and not under and form < 0:
            s = "typedef enum %s %s;" % (body, name)
            td = True
        else:
            s = "enum %s%s%s%s %s" % (r.choice(["class ", "struct "]) if scoped else "", r.choice(["[[maybe_unused]] "]) if self.std == "17" and r.random() < .05 else "", name, " : " + under if under else "", body)
            s += (" %s;" % self.fresh("var") if form > .9 and not inclass else ";")
            if s.endswith("var;"):
                pass
        self.enums.append(dict(path=list(path), name=name, keys=keys, vals=vals, scoped=scoped, td=td, text=s))
        return s

    def scope(self, path, depth, kind="ns"):
        r, out = self.r, []
        for i in range(r.randint(3, 5) if depth == 0 else r.randint(1, 3)):
            x = r.random()
            if x < .5 or depth > 2:
                out.append(self.enum(path, kind != "ns"))
            elif kind == "ns" and x < .75:
                n = self.fresh("n")
                if self.std == "17" and r.random() < .3:
                    m = self.fresh("n")
                    out.append("namespace %s::%s {\n%s\n}" % (n, m, self.scope(path + [n, m], depth + 1)))
                else:
                    out.append("namespace %s {\n%s\n}" % (n, self.scope(path + [n], depth + 1)))
            else:
                n = self.fresh("C")
                out.append("%s %s {\n%s\n};" % (r.choice(["struct", "class"]), n, "public:\n" + self.scope(path + [n], depth + 1, "class")))
            if r.random() < .2:
                out.append(r.choice(["enum {%s, %s=4};" % (self.fresh("anon"), self.fresh("anon")), "/* enum Not {a, b}; */", "static const char* %s=\"enum Str {a, b};\";" % self.fresh("s") if kind == "ns" else "int %s;" % self.fresh("m")]) if kind == "ns" else "int %s;" % self.fresh("m"))
            if self.c11 and kind == "ns" and r.random() < .15:
                out.append(r.choice(["enum class %s: short;", "enum %s: int;"]) % self.fresh("Fwd"))
        return "\n".join(out)

    def q(self, e):
        return "".join("::" + p for p in e["path"] + [e["name"]])

    def kq(self, e, k):
        return self.q(e) + "::" + k if e["scoped"] else "".join("::" + p for p in e["path"] + [k])

    def members(self):
        s = ""
        self.holders = []
        for i in range(2):
            es = [self.r.choice(self.enums) for _ in range(4)]
            n = "Holder%d" % i
            self.holders.append((n, es))
            s += "\nstruct %s {\n std::vector<std::string> names;\n" % n
            s = s.replace(" std::vector<std::string> names;\n", "") if False else s
            for j, e in enumerate(es):
                s += "  %s e%d;\n" % (self.q(e), j)
            s += "  %s arr[3]; std::vector< %s > vec;\n" % (self.q(es[0]), self.q(es[1]))
            s += "  bool same(const %s& x) const {return %s && memcmp(arr,x.arr,sizeof arr)==0 && vec==x.vec;}\n};\n" % (n, " && ".join("e%d==x.e%d" % (j, j) for j in range(4)))
        return s

    def main(self):
        m = "#include <stdint.h>\n#include <string.h>\n#include <iostream>\n#include <map>\n#include <set>\n#include \"ops.h\"\n#include \"pack_base.h\"\n#include \"pack_stl.h\"\n#include \"xml_pack_base.h\"\n#include \"xml_unpack_base.h\"\n#include \"gen.h\"\n#include \"gen.cd\"\n#include \"h_enum.h\"\n#include \"classdesc_epilogue.h\"\n"
        m += "int main(int argc, char** argv) {\n Rng r(strtoull(argv[1],0,10)); int rep=atoi(argv[2]); (void)argc;\n"
        m += " for (int it=0; it<rep; ++it) {\n"
        for e in self.enums:
            q = self.q(e)
            m += "  {const %s v[]={%s}; const char* n[]={%s};\n   keyData(\"%s\",classdesc::enum_keysData< %s >::keysData,sizeof(classdesc::enum_keysData< %s >::keysData)/sizeof(classdesc::EnumKey),v,n,%d); checkEnum< %s >(\"%s\",r,v,n,%d); checkIn(\"%s\",r,v,%d);\n" % (
                q, ",".join(self.kq(e, k) for k in e["keys"]), ",".join('"%s"' % k for k in e["keys"]), q, q, q, len(e["keys"]), q, q, len(e["keys"]), q, len(e["keys"]))
            m += "   const long long w[]={%s}; for (int i=0; i<%d; ++i) if ((long long)v[i]!=w[i]) {printf(\"GENERATOR %s %%d\\n\",i); return 3;}}\n" % (",".join("%dLL" % v for v in e["vals"]), len(e["keys"]), q)
        for n, es in self.holders:
            m += "  {%s a, b;\n" % n
            for o, pick in (("a", True), ("b", False)):
                for j, e in enumerate(es):
                    ks = ",".join(self.kq(e, k) for k in e["keys"])
                    m += "   {const %s v[]={%s}; const char* n[]={%s}; int i=r.below(%d); %s.e%d=v[i];" % (self.q(e), ks, ",".join('"%s"' % k for k in e["keys"]), len(e["keys"]), o, j)
                    if pick:
                        m += " a.names.push_back(classdesc::enum_keys< %s >()(v[i]));" % self.q(e)
                    m += " (void)n;"
                    if j == 0:
                        m += " for (int k=0; k<3; ++k) %s.arr[k]=v[r.below(%d)];" % (o, len(e["keys"]))
                    if j == 1:
                        m += " for (int k=r.below(4); k>0; --k) %s.vec.push_back(v[r.below(%d)]);" % (o, len(e["keys"]))
                    m += "}\n"
            m += "   checkMember(\"%s\",a,b);}\n" % n
        return m + " }\n report().done(); return 0;}\n"


def body(c):
    c.prepare()
    jobs = [(i, s) for i in range(c.scale(int(os.environ.get("HN", 5)), 80)) for s in ("98", "11", "17")]

    def one(j):
        i, std = j
        g = Gen(random.Random("c19:%d:%d:%s" % (c.seed, i, std)), std)
        d = os.path.join(c.work, "e%d-%s" % (i, std))
        os.makedirs(d)

        def w(n, t):
            open(os.path.join(d, n), "w").write(t)
            return os.path.join(d, n)
        h = w("gen.h", "#include <utility>\n#include <vector>\n#include <string>\ntypedef short MyShort;\n" + g.text)
        src = w("main.cc", g.main())
        r = c.sh(["g++", "-std=gnu++" + std, "-w", "-fsyntax-only", "-x", "c++", "-include", "string.h", "-include", "stdint.h", h])
        if r.rc:
            c.count("generator_rejects")
            if os.environ.get("HDR_DEBUG"):
                print(d, [l for l in r.err.split("\n") if "error" in l][:3])
            return
        r = c.sh([os.path.join(c.src, "classdesc"), "-nodef", "-typeName"] + (["-onbase"] if i % 3 == 1 else []) + (["-respect_private"] if i % 4 == 1 else []) + (["-use_mbr_pointers"] if i % 5 == 7 else []) + ["-i", h, "pack", "unpack", "xml_pack", "xml_unpack"])
        if r.rc or r.timeout:
            return c.violation("processor-failed", r.err, [h])
        w("gen.cd", r.out)
        exe = os.path.join(d, "t")
        if c.compile_or_violate("enums", exe, [src, os.path.join(c.src, "xdr_pack.cc")], keep=[h, os.path.join(d, "gen.cd"), src], std="gnu++" + std, incs=[d, H], flags=["-w", "-include", "stdint.h", "-O0"]):
            c.run_harness(exe, [c.seed * 100 + i, c.scale(3, 20)], files=[h, os.path.join(d, "gen.cd"), src], timeout=100)
            c.count("programs")
    c.pmap(one, jobs)
    if c.counts.get("generator_rejects", 0) * 4 > len(jobs):
        raise vrt.Inconclusive("the header generator produced too many invalid headers")


vrt.main("C19", body, "random enumerations (scoped, sized, nested, aliased, same names in several scopes) described by the real processor; name/value conversions, table, iteration, handles, streams, binary/XDR/XML serialisation compared with the compiler's enumerators; distinct = distinct enumerations")
