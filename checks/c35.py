#!/usr/bin/env python3
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt


class Gen:
    """Random class hierarchies; knows who derives from whom."""
    def __init__(self, rng, std):
        r = self.r = rng
        self.cls, out = [], []
        ns = []
        for i in range(r.randint(10, 22)):
            if r.random() < .2:
                if ns and r.random() < .6:
                    out.append("}")
                    ns.pop()
                else:
                    ns.append("n%d" % i)
                    out.append("namespace n%d {" % i)
            name = "C%d" % i
            templ = r.random() < .2
            poly = r.random() < .35
            virt = r.random() < .15          # always inherited virtually
            cur = "".join("::" + n for n in ns)
            bases, anc, pub = [], set(), set()
            if not virt:
                for b in r.sample(self.cls, min(len(self.cls), r.choice([0, 1, 1, 2, 2, 3, 4]))):
                    bn = r.choice(b["names"])
                    key = (b["id"], bn)
                    ba = b["anc"] | {key}
                    if any(x[0] == k[0] and not self.cls[x[0]]["virt"] for x in ba for k in anc) or any(x in anc and not self.cls[x[0]]["virt"] for x in ba):
                        continue
                    if any(x in anc and self.cls[x[0]]["virt"] for x in ba) and b["virt"]:
                        continue       # a direct base that is also reached indirectly
                    if any(self.cls[b2[0]]["virt"] and b2 in ba for b2 in [x[1] for x in bases]):
                        continue
                    acc = r.choice(["public", "public", "public", "protected", "private", ""])
                    kw = "class" if False else None
                    bases.append((acc, key, b["virt"]))
                    anc |= ba
            kind = r.choice(["struct", "class"])
            spell = []
            for acc, key, v in bases:
                p = acc == "public" or acc == "" and kind == "struct"
                b = self.cls[key[0]]
                if p:
                    pub |= b["pub"] | {key}
                t = ([acc] if acc else []) + (["virtual"] if v else [])
                r.shuffle(t)
                spell.append(" ".join(t + [key[1]]))
            body = r.choice(["public:", "public:", ""]) if kind == "class" else ""
            mem, ctor = [], ""
            for k in range(r.randint(0, 3)):
                c = r.random()
                if c < .3 and self.cls:
                    b = r.choice(self.cls)
                    mem.append("%s m%d%s;" % (r.choice(b["names"]), k, r.choice(["", "", "[2]", "[2][3]"])))
                else:
                    mem.append(r.choice(["int m%d;", "std::string m%d;", "std::vector<int> m%d;", "double* m%d;", "int m%d[3];", "enum E%d {};" if not templ else "char m%d;", "int f%d(int) const {return 1;}", "void g%d() {}", "static double h%d(int) {return 2;}"]) % k)
            if poly:
                mem.append("virtual int vf%d() {return %d;}" % (r.randint(0, 3), i))
            if virt or poly or r.random() < .2:
                mem.append("int pad;")
                ctor = "%s(): pad(0) {}" % name
            if r.random() < .15:
                mem.append("struct Nested {int x;}; Nested nst;")
            r.shuffle(mem)
            out.append("%s%s %s%s {\n%s\n public: %s int tag%d;\n friend struct classdesc_access::access_isa<%s >; CLASSDESC_ACCESS(%s);\n};" % ("template <class T> " if templ else "", kind, name, (": " if spell else "") + ", ".join(spell), body + "\n ".join([""] + mem), ctor, i, name + ("<T>" if templ else ""), name))
            q = cur + "::" + name
            self.cls.append(dict(id=i, poly=poly or any(self.cls[b[0]]["poly"] for b in anc), virt=virt, anc=anc, pub=pub, names=[" %s< int >" % q, " %s< double >" % q] if templ else [" " + q]))
        out += ["}"] * len(ns)
        self.text = "\n".join(out) + "\n"

    def main(self, respect):
        objs, out = [], []
        for c in self.cls:
            for n in c["names"]:
                k = "o%d" % len(objs)
                out.append(" static%s %s;" % (n, k))
                objs.append((c, n, k))
        for c, n, k in objs:
            s = c["pub"] if respect else c["anc"]
            for d, m, l in objs:
                want = (c["id"], n) == (d["id"], m) or (d["id"], m) in s
                out.append(" ask(%s,%s,%s,\"%s\",\"%s\",%s);" % (k, l, "true" if want else "false", n, m, "\"missed-polymorphic-base\"" if d["poly"] and k != l else "\"missed\""))
        return "\n".join(out)


def body(c):
    c.prepare()
    jobs = [(i, s) for i in range(c.scale(int(os.environ.get("HN", 10)), 120)) for s in ("98", "11", "17")]

    def one(j):
        i, std = j
        g = Gen(random.Random("c35:%d:%d:%s" % (c.seed, i, std)), std)
        d = os.path.join(c.work, "i%d-%s" % (i, std))
        os.makedirs(d)

        def w(n, t):
            open(os.path.join(d, n), "w").write(t)
            return os.path.join(d, n)
        h = w("gen.h", "#include <string>\n#include <vector>\n#include \"classdesc_access.h\"\nnamespace classdesc_access {template <class T> struct access_isa;}\n" + g.text)
        respect = i % 2 == 1
        src = w("main.cc", "#include \"ops.h\"\n#include \"isa_base.h\"\n#include \"gen.h\"\n#include \"gen.cd\"\n#include \"classdesc_epilogue.h\"\n"
                "static const char* cur;\ntemplate <class A, class B> void ask(A& a, B& b, bool want, const char* x, const char* y, const char* missed) {\n"
                " const A& ca=a; const B& cb=b; bool g=isa(a,b), g2=isa(ca,cb); report().count(!want? \"unrelated\": missed[6]? \"related_polymorphic\": \"related\");\n"
                " CHECK(g==want && g2==want,want? missed: \"invented\",std::string(\"isa(\")+x+\",\"+y+\") is \"+(g? \"true\": \"false\")); }\n"
                "int main() {\n%s\n report().done(); (void)cur; return 0;}\n" % g.main(respect))
        keep = [h, src, os.path.join(d, "gen.cd")]
        r = c.sh(["g++", "-std=gnu++" + std, "-w", "-fsyntax-only", "-x", "c++", "-I", c.src, h])
        if r.rc:
            c.count("generator_rejects")
            if os.environ.get("HDR_DEBUG"):
                print(d, [l for l in r.err.split("\n") if "error" in l][:3])
            return
        r = c.sh([os.path.join(c.src, "classdesc"), "-nodef"] + (["-onbase"] if i % 3 == 1 else []) + (["-respect_private"] if respect else []) + ["-i", h, "isa"])
        if r.rc or r.timeout:
            return c.violation("processor-failed", r.err, [h])
        w("gen.cd", r.out)
        exe = os.path.join(d, "t")
        if c.compile_or_violate("isa", exe, [src], keep=keep, std="gnu++" + std, incs=[d], flags=["-w", "-O0"], libs=(), san=(std == "98")):
            c.run_harness(exe, [], files=keep, timeout=60)
            c.count("programs")
            c.distinct(g.text)
    c.pmap(one, jobs)
    if c.counts.get("generator_rejects", 0) * 4 > len(jobs):
        raise vrt.Inconclusive("the generator produced too many invalid headers")


vrt.main("C35", body, "random class hierarchies (multiple, virtual, private and template bases, polymorphic or not, class typed members); every ordered pair of classes asked and compared with the generator's relation; distinct = distinct hierarchies")
