#!/usr/bin/env python3
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt, models, cppgen

EXTRA = """
namespace xa { template <class A, class B> struct Two {A a; B b;}; template <class A, int N> struct Num {A a[N];}; template <int N, bool B> struct Vals {int x;};
 template <class A, class B=int> struct Def {A a; B b;}; struct Out {struct In {struct Deep {int z;}; int y;}; enum Mode {on, off}; int x;};
 template <class T> struct Spec {T t;}; template <> struct Spec<int> {int other;}; template <class T> struct Spec<T*> {T* p;};
 template <class T, int N> struct Spec2 {T t;}; template <class T> struct Spec2<T,3> {T* p;}; template <class T> struct Spec2<T*,1> {T* q;};
 template <class T> struct Arr {T t;}; template <class T, int N> struct Arr<T[N]> {T u;}; template <class T> struct Arr<std::vector<T> > {T v;};
 template <unsigned char C, long L, class T> struct Mix {T t;};
 template <typename T> class Cls {T t; public: Cls() {}}; namespace xb { struct Out {int q;}; template <class T> struct Spec {T s;}; enum Mode {m1, m2}; } }
struct Out {int g;}; enum Mode {gm};
"""
EXTRA11 = "namespace xc { template <class... A> struct Var {int n;}; template <class A, class... B> struct Var2 {A n;}; enum class Mode {a, b}; enum Sized: unsigned char {s1}; }\n"
PR = cppgen.PRIMS + ["long double", "wchar_t", "std::string", "std::wstring"]


class Types:
    def __init__(self, rng, std, model):
        self.r, self.std = rng, std
        self.named = []
        for t in model.tops():
            self.named.append(t.full())
        for e in model.enums:
            self.named.append(e.qual())
        self.named += ["xa::Out", "xa::Out::In", "xa::Out::In::Deep", "xa::Out::Mode", "xa::xb::Out", "xa::xb::Mode", " ::Out", " ::Mode"]
        self.tmpl1 = [c.qual() for c in model.classes if c.tparam] + ["xa::Spec", "xa::xb::Spec", "xa::Def", "xa::Cls"]
        if std != "98":
            self.named += ["xc::Mode", "xc::Sized"]

    def ty(self, d):
        """(spelling, may be an element or pointee, default constructible object type)"""
        r = self.r
        k = r.random()
        if d == 0 or k < .2:
            return r.choice(PR + self.named + (["char16_t", "char32_t"] if self.std != "98" else []))
        o = lambda: self.ty(d - 1)
        if k < .3:
            return "%s*" % o()
        if k < .36:
            return "%s* const" % o()
        if k < .44:
            t = o()
            return t if t.endswith("const") or "const " == t[:6] else t + " const" if t.endswith("*") else "const %s" % t
        if k < .48:
            return "%s<%s >" % (r.choice(["std::vector", "std::list", "std::deque"]), self.obj(d - 1))
        if k < .52:
            return "%s<%s >" % (r.choice(["std::set", "std::multiset"]), self.obj(d - 1))
        if k < .56:
            return "%s<%s,%s >" % (r.choice(["std::map", "std::multimap"]), self.obj(d - 1), self.obj(d - 1))
        if k < .60:
            return "std::pair<%s,%s >" % (o(), o())
        if k < .64:
            return "%s<%s >" % ("std::tr1::shared_ptr" if self.std == "98" else "std::shared_ptr", o())
        if k < .67:
            return "%s<%s >" % (r.choice(["classdesc::Exclude", "classdesc::Exclude"]), self.obj(0))
        if k < .74:
            return "%s<%s >" % (r.choice(self.tmpl1), self.obj(d - 1))
        if k < .78:
            return "xa::Two<%s,%s >" % (o(), o())
        if k < .81:
            return "xa::Num<%s,%d >" % (o(), r.choice([0, 1, 7, 12]))
        if k < .83:
            return "xa::Vals<%d,%s >" % (r.choice([0, 1, 3]), r.choice(["true", "false"]))
        if k < .845:
            return "xa::Spec2<%s,%d >" % (self.obj(d - 1), r.choice([0, 1, 3]))
        if k < .85:
            return "xa::Mix<%d,%d,%s >" % (r.choice([0, 65, 255]), r.choice([-5, 0, 99999]), self.obj(d - 1))
        if k < .855:
            return "xa::Arr<%s >" % self.obj(d - 1)
        if self.std != "98" and k < .87:
            n = r.randint(0, 3)
            return r.choice(["xc::Var<%s >", "xc::Var2<%s >"] if n else ["xc::Var<%s >"]) % ",".join(self.obj(d - 1) for _ in range(n))
        if k < .885:
            return "xa::Def<%s,%s >" % (o(), o())
        if self.std != "98":
            if k < .90:
                return "%s<%s >" % (r.choice(["std::unordered_set", "std::unordered_multiset"]), self.obj(d - 1))
            if k < .93:
                return "%s<%s,%s >" % (r.choice(["std::unordered_map", "std::unordered_multimap"]), self.obj(d - 1), self.obj(d - 1))
            if k < .95:
                return "std::array<%s,%d >" % (self.obj(d - 1), r.randint(1, 9))
            if k < .97:
                return "std::tuple<%s >" % ",".join(o() for _ in range(r.randint(1, 3)))
            if k < .985:
                return "%s<%s >" % (r.choice(["std::unique_ptr", "std::weak_ptr"]), o())
        else:
            if k < .9:
                return "std::auto_ptr<%s >" % o()
        return o()

    def obj(self, d):
        while 1:  # containers of constants are not allowed
            t = self.ty(d)
            if not t.endswith("const") and t[:6] != "const ":
                return t

    def top(self):
        r = self.r
        t = self.ty(r.choice([0, 1, 1, 2, 2, 3]))
        k = r.random()
        if k < .12:
            return t + "&"
        if k < .2 and not t.endswith("const") and t[:6] != "const " or k < .2 and t.endswith("*"):
            return "const " + t + "&" if not t.endswith("*") else t + " const&"
        if k < .32:
            return t + "".join("[%d]" % r.randint(1, 12) for _ in range(r.choice([1, 1, 2, 3])))
        return t


def decl(t):
    """typedef of a spelling as written above"""
    i = t.find("[") if t.endswith("]") else -1
    return t


def body(c):
    c.prepare()
    n = c.scale(130, 400)
    jobs = [(i, s) for i in range(c.scale(int(os.environ.get("HN", 4)), 24)) for s in ("98", "11", "17", "20")]

    def one(j):
        i, std = j
        b = models.Bundle(c, i, std, "pack", ["typeName"] if False else [], opts=["-nodef", "-typeName"], nclass=6, deny=["excl"])
        if not b.ok:
            return
        h = open(b.header).read()
        extra = EXTRA + (EXTRA11 if std != "98" else "")
        b.write("gen.h", h.replace("#endif\n", "", 0).rsplit("#endif", 1)[0] + extra + "#endif\n")
        if not b.describe([], ["-nodef", "-typeName"]):
            return
        g = Types(b.rng, std, b.model)
        ts = list(dict.fromkeys(g.top() for _ in range(n)))
        files = b.files() + [os.path.join(b.dir, x) for x in ("types.h", "again.cc")]
        b.write("types.h", "template <class T> struct Id {typedef T t;};\n" + "".join("typedef %s;\n" % spell(t, "T%d" % k) for k, t in enumerate(ts)))
        pre = "#include \"classdesc_access.h\"\n#include <string>\n#include <vector>\n#include <list>\n#include <deque>\n#include <set>\n#include <map>\n#include <iostream>\n#include <stdio.h>\n" + (
            "#include <memory>\n#include <array>\n#include <tuple>\n#include <unordered_map>\n#include <unordered_set>\n" if std != "98" else "#include <memory>\n#include <tr1/memory>\n")
        m = pre + "#include \"classdesc.h\"\n#include \"gen.h\"\n#include \"gen.cd\"\n#include \"types.h\"\n#include \"typeName_epilogue.h\"\n#include \"classdesc_epilogue.h\"\n"
        m += "template <class T> void say(int k) {std::string a=classdesc::typeName<T>(), b=classdesc::typeName<T>(); printf(\"%d\\t%s\\n\",k,a==b? a.c_str(): \"(changes)\");}\nint main() {\n"
        m += "".join(" say<T%d>(%d);\n" % (k, k) for k in range(len(ts))) + " return 0;}\n"
        b.write("main.cc", m)
        exe = os.path.join(b.dir, "t")
        if not c.compile_or_violate("naming", exe, [os.path.join(b.dir, "main.cc")], keep=files, std=models.INC[std], incs=[b.dir], libs=(), flags=["-O0"], san=std == "11"):
            return
        r = c.sh([exe], timeout=60)
        names = dict((int(l.split("\t")[0]), l.split("\t", 1)[1]) for l in r.out.splitlines() if "\t" in l)
        if r.rc or len(names) != len(ts):
            return c.violation("run:" + vrt.crash_key(r.rc, r.err, c.src), r.err[:2000], files)
        # what each name denotes
        a = pre + "#include \"classdesc.h\"\n#include \"gen.h\"\n#include \"types.h\"\n#include \"classdesc_epilogue.h\"\ntemplate <class T, class U> struct Same {enum {v=0};}; template <class T> struct Same<T,T> {enum {v=1};};\ntemplate <class T> struct Arg; template <class T> struct Arg<void(T)> {typedef T t;};\nint main() {\n int bad=0;\n"
        for k in sorted(names):
            nm = names[k].replace(">>", "> >").replace(">>", "> >").replace("<::", "< ::")
            a += "#line %d \"name\"\n {bool s=Same<T%d,%s >::v; if (!s) printf(\"%d\\n\");}\n" % (k + 1, k, nm, k)
        b.write("again.cc", a + "}\n")
        exe2 = os.path.join(b.dir, "t2")
        r = c.compile(exe2, [os.path.join(b.dir, "again.cc")], std=models.INC[std], incs=[b.dir], libs=(), san=False, flags=["-O0", "-fmax-errors=0"])
        wrong = {}
        if r.rc:
            for l in r.err.splitlines():
                q = l.split(":")
                if q[0] == "name" and q[1].isdigit() and " error: " in l:
                    wrong.setdefault(int(q[1]) - 1, "is not a type: " + l.split(" error: ")[1])
            if not wrong:
                return c.violation("names-do-not-compile", r.err[:2500], files)
        else:
            for l in c.sh([exe2]).out.split():
                wrong[int(l)] = "denotes another type"
        for k in names:
            c.count("names_checked")
            c.distinct(names[k])
        for k, why in sorted(wrong.items()):
            c.violation("wrong-name:" + shape(ts[k]), "typeName of %s is \"%s\", which %s" % (ts[k], names[k], why), files)
        # one name, one type: the compiler says which types are the same
        by = {}
        for k, nm in names.items():
            by.setdefault(nm, []).append(k)
        same = [(v[0], x) for v in by.values() for x in v[1:]]
        c.count("shared_names", len(same))
        if same:
            q = pre + "#include \"classdesc.h\"\n#include \"gen.h\"\n#include \"types.h\"\n#include \"classdesc_epilogue.h\"\ntemplate <class T, class U> struct Same {enum {v=0};}; template <class T> struct Same<T,T> {enum {v=1};};\nint main() {\n" + "".join(" if (!Same<T%d,T%d>::v) printf(\"%d %d\\n\");\n" % (x, y, x, y) for x, y in same) + "}\n"
            b.write("dup.cc", q)
            if c.compile_or_violate("dup", exe2, [os.path.join(b.dir, "dup.cc")], std=models.INC[std], incs=[b.dir], libs=(), san=False, flags=["-O0"]):
                for l in c.sh([exe2]).out.splitlines():
                    x, y = [int(z) for z in l.split()]
                    c.violation("ambiguous:" + shape(ts[y]), "%s and %s are both called \"%s\"" % (ts[x], ts[y], names[x]), files)
        for k in (0, 1):
            if len(names) > k:
                c.sample("%s: %s" % (ts[k], names[k]))
        c.count("programs")
    c.pmap(one, jobs)


def shape(t):
    import re
    return re.sub(r"\d+\w*", "N", re.sub(r"[A-Za-z_:]\w*(::\w+)*", lambda m: m.group(0) if m.group(0).startswith(("std", "classdesc", "const")) else "T", t))[:70]


def spell(t, name):
    i = t.find("[") if t.endswith("]") else -1
    if i < 0:
        return "%s %s" % (t, name)
    depth = t.rfind(">")
    i = t.find("[", depth + 1)
    return "%s %s%s" % (t[:i], name, t[i:])


vrt.main("C20", body, "random types over fundamental, library and generated user types; each reported name put back into a program whose compiler says whether it denotes the type it was reported for; equal names only for equal types; distinct = distinct names", evaluations="names_checked")
