"""Random C++ class models: header text for the classdesc processor, and matching
generator/comparator/printer code (struct Ops<>) that shares nothing with classdesc."""
import random

PRIMS = ["bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long",
         "unsigned long", "long long", "unsigned long long", "float", "double"]
INTKEYS = ["char", "signed char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long"]

# feature sets found by probing which building blocks each descriptor supports
FEAT = {
    "pack": {"prim", "longdouble", "wchar", "string", "enum", "class", "vector", "deque", "list", "set", "multiset", "map", "multimap", "pair",
             "carray", "carray_cont", "sp", "tmpl", "vbool", "excl", "pairkey", "vsp",
             "uptr", "tuple", "array", "uset", "umap", "eclass", "vtuple", "ummap", "enumtype"},
    "xml": {"prim", "string", "enum", "class", "vector", "deque", "list", "set", "multiset", "map", "multimap", "pair", "carray", "sp", "tmpl", "excl",
            "uptr", "tuple", "array", "uset", "umap", "eclass", "pairkey", "vsp", "ummap"},
    "xsd": {"prim", "string", "enum", "class", "vector", "deque", "list", "set", "multiset", "map", "multimap", "pair", "carray", "sp", "tmpl", "excl",
            "array", "uset", "umap", "eclass", "pairkey", "sp98prim", "tuple", "ummap"},
    "dump": {"prim", "longdouble", "string", "enum", "class", "vector", "deque", "list", "set", "multiset", "map", "multimap", "pair", "carray", "sp",
             "tmpl", "excl", "vbool", "array", "uset", "umap", "eclass", "carray_cont", "vsp"},
    "random": {"prim", "longdouble", "string", "enum", "class", "vector", "deque", "list", "set", "multiset", "map", "multimap", "pair", "carray", "sp",
               "tmpl", "excl", "array", "uset", "umap", "eclass", "carray_cont", "vsp", "pairkey", "sp98prim"},
}
CXX17 = {"vtuple", "tuple"}
CXX11 = {"enumtype", "uptr", "tuple", "array", "uset", "umap", "eclass", "vtuple", "ummap"}


class Ty:
    def __init__(self, kind, cpp, args=(), dims=(), decl=None):
        self.kind, self.cpp, self.args, self.dims, self.decl = kind, cpp, list(args), list(dims), decl

    def declare(self, name):
        return "%s %s%s" % (self.cpp, name, "".join("[%d]" % d for d in self.dims))

    def full(self):
        return self.cpp + "".join("[%d]" % d for d in self.dims)

    def walk(self):
        yield self
        for a in self.args:
            for x in a.walk():
                yield x


def elname(cpp):
    """Element name of the items of this type."""
    return cpp.split("<")[0].replace("::", " ").split()[-1]


class Enum:
    def __init__(self, name, ns, keys, scoped=False, cls=None):
        self.name, self.ns, self.keys, self.scoped, self.cls = name, ns, keys, scoped, cls  # keys: [(name, valuetext|None, value)]
        self.access = "public"
        self.under = None

    def qual(self):
        return "::".join([self.cls.qual()] if self.cls else list(self.ns)) + ("::" if self.cls or self.ns else "") + self.name


class Member:
    def __init__(self, name, ty, access="public", static=False, const=False):
        self.name, self.ty, self.access, self.static, self.const = name, ty, access, static, const


class Cls:
    def __init__(self, name, ns, key="struct", tparam=None, outer=None):
        self.name, self.ns, self.key, self.tparam, self.outer = name, ns, key, tparam, outer
        self.bases, self.members, self.enums, self.nested, self.methods, self.typedefs = [], [], [], [], [], []
        self.access = "public"

    def qual(self):
        return "::".join([self.outer.qual()] if self.outer else list(self.ns)) + ("::" if self.outer or self.ns else "") + self.name

    def inst(self, t):
        return "%s<%s >" % (self.qual(), t) if self.tparam else self.qual()


class Model:
    def __init__(self, rng, std="98", feat="pack", nclass=5, private=True, max_members=6, depth=2, simple_ns=False, methods=True, static=True, allow=None, deny=(), nozero=False, xexp=False, onbase=True, multibase=True, dexp=False, xops=False):
        self.dexp, self.xops, self.hide_excl = dexp, xops, False
        self.nozero, self.xexp, self.onbase = nozero, xexp, onbase
        self.rng, self.std, self.methods_on, self.private = rng, std, methods, private
        self.multibase = multibase
        self.feat = set(FEAT[feat] if isinstance(feat, str) else feat)
        if std == "98":
            self.feat -= CXX11
        if std in ("98", "11"):
            self.feat -= CXX17
        self.feat -= set(deny)
        self.static = static
        self.n = 0
        self.classes, self.enums, self.order = [], [], []
        self.max_members, self.depth = max_members, depth
        self.sp = "std::tr1::shared_ptr" if std == "98" else "std::shared_ptr"
        nss = [[], ["na"], ["na", "nb"], ["nc"]]
        for _ in range(rng.randint(1, 3)):
            e = self.mkenum(rng.choice(nss))
            self.enums.append(e)
            self.order.append(e)
        for i in range(nclass):
            c = self.mkclass(rng.choice(nss), i)
            self.classes.append(c)
            self.order.append(c)

    def fresh(self, p):
        self.n += 1
        return "%s%d%s" % (p, self.n, self.rng.choice(["", "_x", "Q", "_"]))

    # ------------------------------------------------------------------ enums
    def mkenum(self, ns, cls=None):
        r = self.rng
        scoped = "eclass" in self.feat and r.random() < 0.4
        keys, v, used = [], -1, set()
        for _ in range(r.randint(1, 6)):
            k = self.fresh("e")
            m = r.random()
            if m < 0.55:
                txt, v = None, v + 1
            elif m < 0.75:
                v = r.choice([-7, 3, 10, 100, 1000, 65536, -100000, 2147483000])
                txt = str(v)
            elif m < 0.88:
                sh = r.randint(0, 20)
                v = 1 << sh
                txt = "1<<%d" % sh
            elif m < 0.94:
                v = r.randint(0, 255)
                txt = hex(v)
            else:
                v = r.randint(1, 5) * 3
                txt = "(%d)*3" % (v // 3)
            while v in used:      # distinct values: symbolic conversion must be a bijection
                v += 1
                txt = str(v)
            used.add(v)
            keys.append((k, txt, v))
        e = Enum(self.fresh("E"), ns, keys, scoped, cls)
        if self.std != "98" and "enumtype" in self.feat and r.random() < 0.35:
            lo, hi = min(v for _, _, v in keys), max(v for _, _, v in keys)
            ok = [t for t, a, b in (("char", -128, 127), ("signed char", -128, 127), ("short", -32768, 32767), ("unsigned short", 0, 65535), ("int", -2**31, 2**31 - 1),
                                    ("long", -2**31, 2**31 - 1), ("unsigned char", 0, 255), ("unsigned", 0, 2**31 - 1)) if a <= lo and hi <= b]
            e.under = r.choice(ok)
        return e

    # ------------------------------------------------------------------ types
    def leaf(self, keyable=False, tparam=None):
        r = self.rng
        opts = []
        if keyable:
            opts += [("key", 5), ("string", 3)]
            if "enum" in self.feat:
                opts += [("enum", 1)]
        else:
            opts += [("prim", 8), ("string", 4)]
            if "enum" in self.feat:
                opts += [("enum", 2)]
            if self.classes and "class" in self.feat:
                opts += [("class", 3)]
            if any(c.tparam for c in self.classes) and "tmpl" in self.feat and not tparam:
                opts += [("tmpl", 2)]
            if tparam:
                opts += [("T", 8)]
            for f in ("longdouble", "wchar"):
                if f in self.feat:
                    opts += [(f, 1)]
        k = self.pick(opts)
        if k == "key":
            return Ty("prim", r.choice(INTKEYS))
        if k == "prim":
            return Ty("prim", r.choice(PRIMS))
        if k == "string":
            return Ty("string", "std::string")
        if k == "longdouble":
            return Ty("prim", "long double")
        if k == "wchar":
            return Ty("prim", "wchar_t")
        if k == "enum":
            es = self.enums + [e for c in self.classes for e in c.enums if not c.tparam and e.access == "public"]
            e = r.choice(es)
            return Ty("enum", e.qual(), decl=e)
        if k == "T":
            return Ty("T", tparam)
        if k == "tmpl":
            c = r.choice([c for c in self.classes if c.tparam])
            a = self.leaf()
            while any(x.kind == "tmpl" for x in a.walk()) or a.cpp == "bool" or self.contains(a, {"uptr"}):
                a = self.leaf()
            return Ty("tmpl", c.inst(a.cpp), [a], decl=c)
        cs = [c for c in self.classes if not c.tparam]
        cs += [n for c in cs for n in c.nested if n.access == "public"]
        if not cs:
            return Ty("prim", r.choice(PRIMS))
        c = r.choice(cs)
        return Ty("class", c.qual(), decl=c)

    def pick(self, opts):
        t = self.rng.random() * sum(w for _, w in opts)
        for o, w in opts:
            t -= w
            if t < 0:
                return o
        return opts[-1][0]

    def ty(self, depth=None, tparam=None, member=True):
        r = self.rng
        depth = self.depth if depth is None else depth
        if depth <= 0:
            return self.leaf(tparam=tparam)
        f = self.feat
        opts = [("leaf", 10)]
        for k, w in (("vector", 3), ("deque", 1), ("list", 1), ("set", 1), ("multiset", 1), ("map", 2), ("multimap", 1), ("pair", 1), ("sp", 2), ("uptr", 1 if member else 0),
                     ("tuple", 1 if member else 0), ("array", 1), ("uset", 1), ("umap", 1), ("ummap", 1), ("vtuple", 1)):
            if k in f and w:
                opts.append((k, w))
        if member and "carray" in f:
            opts.append(("carray", 3))
        if member and "excl" in f:
            opts.append(("excl", 1))
        if member and "vbool" in f:
            opts.append(("vbool", 1))
        k = self.pick(opts)

        def sub(nob=False, nosp=False, noptr=False):
            while True:
                t = self.ty(depth - 1, tparam, member=False)
                if nob and t.cpp == "bool" or self.contains(t, {"uptr"}):
                    continue
                if nosp and t.kind in ("sp", "uptr") and "vsp" not in f:
                    continue
                return t
        if k == "leaf":
            return self.leaf(tparam=tparam)
        if k in ("vector", "deque", "list"):
            t = sub(nob=(k == "vector"), nosp=True)
            return Ty(k, "std::%s<%s >" % (k, t.cpp), [t])
        if k == "vbool":
            return Ty("vector", "std::vector<bool>", [Ty("prim", "bool")])
        if k in ("set", "multiset"):
            t = self.leaf(keyable=True)
            if "pairkey" in f and r.random() < 0.2:
                u = self.leaf(keyable=True)
                t = Ty("pair", "std::pair<%s,%s >" % (t.cpp, u.cpp), [t, u])
            return Ty(k, "std::%s<%s >" % (k, t.cpp), [t])
        if k in ("map", "multimap"):
            a, b = self.leaf(keyable=True), sub(nosp=True)
            return Ty(k, "std::%s<%s,%s >" % (k, a.cpp, b.cpp), [a, b])
        if k in ("uset", "umap", "ummap"):
            a = self.leaf(keyable=True)
            while a.kind == "enum":
                a = self.leaf(keyable=True)
            if k == "uset":
                return Ty(k, "std::unordered_set<%s >" % a.cpp, [a])
            b = sub(nosp=True)
            return Ty(k, "std::unordered_%s<%s,%s >" % ("map" if k == "umap" else "multimap", a.cpp, b.cpp), [a, b])
        if k == "pair":
            a, b = sub(nosp=True), sub(nosp=True)
            return Ty(k, "std::pair<%s,%s >" % (a.cpp, b.cpp), [a, b])
        if k in ("tuple", "vtuple"):
            n = r.randint(1, 3)
            ts = []
            for _ in range(n):
                t = self.leaf(tparam=tparam)
                while self.contains(t, {"uptr"}):
                    t = self.leaf(tparam=tparam)
                ts.append(t)
            if "sp98prim" in f:     # elements of one name must be of one type in a schema
                while len(set(elname(t.cpp) for t in ts)) < len(set(t.cpp for t in ts)):
                    ts.pop()
            s = "std::tuple<%s >" % ",".join(t.cpp for t in ts)
            if k == "vtuple":
                return Ty("vector", "std::vector<%s >" % s, [Ty("tuple", s, ts)])
            return Ty("tuple", s, ts)
        if k == "array":
            t = sub(nosp=True)
            n = r.randint(1, 4)
            return Ty("array", "std::array<%s,%d>" % (t.cpp, n), [t], [] if True else [n])
        if k == "sp":
            t = sub(nosp=True)
            if self.std == "98" and "sp98prim" in f:    # only these are known to be default constructible there
                t = Ty("prim", r.choice(PRIMS[:-1]))
            return Ty("sp", "%s<%s >" % (self.sp, t.cpp), [t])
        if k == "uptr":
            t = self.leaf(tparam=tparam)
            return Ty("uptr", "std::unique_ptr<%s >" % t.cpp, [t])
        if k == "excl":
            t = self.leaf(tparam=tparam)
            if t.kind == "enum" or self.contains(t, {"uptr"}):
                t = Ty("prim", "int")
            return Ty("excl", "classdesc::Exclude<%s >" % t.cpp, [t])
        if k == "carray":
            t = sub(nosp=True) if "carray_cont" in f else self.leaf(tparam=tparam)
            return Ty("carray", t.cpp, [t], [r.randint(1, 4) for _ in range(self.pick([(1, 4), (2, 2), (3, 1)]))])
        raise AssertionError(k)

    # ---------------------------------------------------------------- classes
    def mkclass(self, ns, i, outer=None):
        r = self.rng
        tparam = "T" if ("tmpl" in self.feat and not outer and r.random() < 0.25 and i > 0) else None
        c = Cls(self.fresh("C"), ns, r.choice(["struct", "struct", "class"]), tparam, outer)
        simple = [k for k in self.classes if not k.tparam]
        if not outer and simple and r.random() < 0.45:
            for b in r.sample(simple, min(len(simple), r.choice([1, 1, 2]) if self.multibase else 1)):
                # avoid ambiguous (repeated) bases
                if not (set(x for x in allbases(b)) & set(y for q in c.bases for y in allbases(q))):
                    c.bases.append(b)
        if not tparam and not outer and r.random() < 0.3:
            e = self.mkenum(ns, c)
            c.enums.append(e)
        if not tparam and not outer and r.random() < 0.3:
            n = self.mkclass(ns, 0, outer=c)
            c.nested.append(n)
        acc = "public" if c.key == "struct" else "private"
        for _ in range(r.randint(0 if r.random() < .1 else 1, self.max_members)):
            if self.private and r.random() < 0.2:
                acc = r.choice(["private", "protected", "public"])
            if not self.private:
                acc = "public"
            t = None
            own = [Ty("enum", e.qual(), decl=e) for e in c.enums] + [Ty("class", x.qual(), decl=x) for x in c.nested]
            if own and r.random() < 0.4:
                t = r.choice(own)
            else:
                t = self.ty(tparam=tparam)
            c.members.append(Member(self.fresh(r.choice(["m", "val", "data_", "x", "first", "size", "type"])), t, acc))
        if self.nozero:     # every object occupies some bytes
            c.members.append(Member(self.fresh("nz"), Ty("prim", r.choice(["char", "int", "short"])), acc))
        if self.static and r.random() < 0.2:
            c.members.append(Member(self.fresh("sc"), Ty("prim", "int"), "public", static=True, const=True))
        return c

    def contains(self, t, kinds, cls=None, seen=None):
        """Does the type (transitively, through classes) contain one of the kinds?"""
        seen = set() if seen is None else seen
        for x in t.walk():
            if x.kind in kinds or x.cpp in kinds:
                return True
            if x.kind in ("class", "tmpl") and isinstance(x.decl, Cls) and self.cls_contains(x.decl, kinds, seen):
                return True
        return False

    def cls_contains(self, c, kinds, seen=None):
        seen = set() if seen is None else seen
        if id(c) in seen:
            return False
        seen.add(id(c))
        return any(self.cls_contains(b, kinds, seen) for b in c.bases) or \
            any(self.contains(m.ty, kinds, seen=seen) for m in c.members if not m.static)

    # --------------------------------------------------------------- emission
    def tops(self):
        """Types to exercise directly: every class (templates instantiated), plus raw ones."""
        out = []
        for c in self.classes:
            if c.tparam:
                for a in ("int", "std::string"):
                    out.append(Ty("tmpl", c.inst(a), [Ty("prim", a)], decl=c))
            else:
                out.append(Ty("class", c.qual(), decl=c))
                for n in c.nested:
                    if n.access == "public":
                        out.append(Ty("class", n.qual(), decl=n))
        return out

    def headers(self):
        h = "#include <string>\n#include <vector>\n#include <deque>\n#include <list>\n#include <set>\n#include <map>\n"
        if self.std == "98":
            h += "#include <tr1/memory>\n"
        else:
            h += "#include <memory>\n#include <array>\n#include <tuple>\n#include <unordered_map>\n#include <unordered_set>\n"
        return h

    def emit(self, fmt=None):
        fmt = fmt or Plain(self.rng)
        s = ["#ifndef GEN_H\n#define GEN_H\n", self.headers(), "template <class T, class E> struct Ops;\n"]
        # only names visible to the library matter; group into namespaces
        for d in self.order:
            body = fmt.enum(d) if isinstance(d, Enum) else fmt.cls(self, d)
            s.append(fmt.wrap_ns(d.ns, body))
        s.append("#endif\n")
        return "".join(s)

    def ops(self):
        """Ops specialisations (definitions after all declarations)."""
        dec, dfn = [], []

        def enum(e):
            q = e.qual()
            vals = ["%s::%s" % (q if e.scoped else q[:-len(e.name)-2], k) for k, _, _ in e.keys]
            dec.append("""template <> struct Ops<%(q)s > {
  static void gen(Rng& r, %(q)s& x) {static const %(q)s v[]={%(v)s}; x=v[r.below(%(n)d)];}
  static bool same(const %(q)s& a, const %(q)s& b) {return a==b;}
  static const char* key(const %(q)s& x) {%(ks)s return noKey();}
  static const char* tname() {return "%(s)s";}
  static void show(std::ostream& o, const %(q)s& x) {key(x); o<<"%(s)s:"<<(long long)(x);} };\n""" % dict(q=q, v=",".join(vals), n=len(vals), s=e.name, ks="".join('if (x==%s) return "%s"; ' % (v, k[0]) for v, k in zip(vals, e.keys))))
            if self.xexp:
                dec.append("template <> struct XExp<%s >: public XEnum<%s > {};\n" % (q, q))
            if self.dexp:
                dec.append("template <> struct DExp<%s >: public DEnum<%s > {};\n" % (q, q))

        def cls(c):
            if c.access != "public":
                return
            q = c.inst("T")
            t = "template <class T>" if c.tparam else "template <>"
            dec.append("%s struct Ops<%s > { static void gen(Rng&, %s&); static bool same(const %s&, const %s&); static void show(std::ostream&, const %s&); static const char* tname() {return \"%s\";} static void kids(std::string&, const %s&); static void tops(std::map<std::string,std::string>&, const %s&); static void dtoks(std::vector<std::string>&, const %s&); };\n" % ((t,) + (q,) * 5 + (c.name, q, q, q)))
            if self.xops:
                dec.append("%s struct XO<%s > {static void gen(Rng&, %s&); static void show(std::ostream&, const %s&);};\n" % (t, q, q, q))
            g, sm, sh, kd, tp, dt, xg, xs = [], [], [], [], [], [], [], []
            for b in c.bases:
                bq = b.qual()
                g.append("Ops<%s >::gen(r,static_cast<%s&>(x));" % (bq, bq))
                sm.append("if (!Ops<%s >::same(a,b)) return false;" % bq)
                sh.append("o<<\"<base>\"; Ops<%s >::show(o,x);" % bq)
                bn = "base_" + "".join(ch if ch.isalnum() else "_" for ch in "::" + bq)
                w = ("o+=\"(%s\\n\"; " % bn, " o+=\")\\n\";") if self.onbase else ("", "")
                kd.append("%sOps<%s >::kids(o,static_cast<const %s&>(x));%s" % (w[0], bq, bq, w[1]))
                tp.append("Ops<%s >::tops(o,static_cast<const %s&>(x));" % (bq, bq))
                dt.append("Ops<%s >::dtoks(o,static_cast<const %s&>(x));" % (bq, bq))
                xg.append("XO<%s >::gen(r,static_cast<%s&>(x));" % (bq, bq))
                xs.append("XO<%s >::show(o,static_cast<const %s&>(x));" % (bq, bq))
            for m in c.members:
                if not m.static and not (m.ty.kind == "excl" and self.hide_excl):
                    xg.append("XO<%s >::gen(r,x.%s);" % (m.ty.full(), m.name))
                    xs.append("XO<%s >::show(o,x.%s);" % (m.ty.full(), m.name))
                if m.static:
                    dt.append("o.push_back(\"%s:3\\n\");" % m.name)
                if m.static or m.ty.kind == "excl":
                    continue
                ft = m.ty.full()
                dt.append("DExp<%s >::go(o,\"%s\",x.%s);" % (ft, m.name, m.name))
                tt = "V%s" % m.name
                g.append("Ops<%s >::gen(r,x.%s);" % (ft, m.name))
                sm.append("if (!Ops<%s >::same(a.%s,b.%s)) return false;" % (ft, m.name, m.name))
                sh.append("o<<\" %s=\"; Ops<%s >::show(o,x.%s);" % (m.name, ft, m.name))
                kd.append("XExp<%s >::elem(o,\"%s\",x.%s);" % (ft, m.name, m.name))
                tp.append("{std::ostringstream s; Ops<%s >::show(s,x.%s); o[\"%s\"]=s.str();}" % (ft, m.name, m.name))
                if m.ty.kind == "class":
                    tp.append("{std::map<std::string,std::string> s; Ops<%s >::tops(s,x.%s); for (std::map<std::string,std::string>::iterator i=s.begin(); i!=s.end(); ++i) o[\"%s.\"+i->first]=i->second;}" % (ft, m.name, m.name))
            t2 = "template <class T> " if c.tparam else "inline "
            dfn.append("%svoid Ops<%s >::gen(Rng& r, %s& x) {%s}\n" % (t2, q, q, " ".join(g)))
            dfn.append("%sbool Ops<%s >::same(const %s& a, const %s& b) {%s return true;}\n" % (t2, q, q, q, " ".join(sm)))
            if self.xexp:
                dfn.append("%svoid Ops<%s >::kids(std::string& o, const %s& x) {%s}\n" % (t2, q, q, " ".join(kd)))
                dfn.append("%svoid Ops<%s >::tops(std::map<std::string,std::string>& o, const %s& x) {%s}\n" % (t2, q, q, " ".join(tp)))
            if self.dexp:
                dfn.append("%svoid Ops<%s >::dtoks(std::vector<std::string>& o, const %s& x) {%s}\n" % (t2, q, q, " ".join(dt)))
            if self.xops:
                dfn.append("%svoid XO<%s >::gen(Rng& r, %s& x) {%s}\n" % (t2, q, q, " ".join(xg)))
                dfn.append("%svoid XO<%s >::show(std::ostream& o, const %s& x) {%s}\n" % (t2, q, q, " ".join(xs)))
            dfn.append("%svoid Ops<%s >::show(std::ostream& o, const %s& x) {o<<\"%s{\"; %s o<<\"}\";}\n" % (t2, q, q, c.name, " ".join(sh)))
        for d in self.order:
            if isinstance(d, Enum):
                enum(d)
            else:
                for e in d.enums:
                    if e.access == "public":
                        enum(e)
                for n in d.nested:
                    cls(n)
                cls(d)
        return "".join(dec) + "".join(dfn)


def allbases(c):
    r = [c]
    for b in c.bases:
        r += allbases(b)
    return r


class Plain:
    """Plain readable layout."""

    def __init__(self, rng):
        self.rng = rng

    def wrap_ns(self, ns, body):
        return "".join("namespace %s {\n" % n for n in ns) + body + "}\n" * len(ns)

    def enum(self, e):
        return "enum %s%s%s {%s};\n" % ("class " if e.scoped else "", e.name, ": " + e.under if e.under else "", ", ".join(k if t is None else "%s=%s" % (k, t) for k, t, _ in e.keys))

    def cls(self, model, c):
        s = []
        if c.tparam:
            s.append("template <class %s> " % c.tparam)
        s.append("%s %s" % (c.key, c.name))
        if c.bases:
            s.append(": " + ", ".join("public %s" % b.qual() for b in c.bases))
        s.append(" {\n")
        if not c.outer or True:
            s.append("  CLASSDESC_ACCESS(%s);\n  template <class VT, class VE> friend struct ::Ops;\n" % c.name)
        s.append("public:\n")
        for e in c.enums:
            s.append("  " + self.enum(e))
        for n in c.nested:
            s.append(self.cls(model, n))
        cur = "public"
        for m in c.members:
            if m.ty.kind == "excl" and model.hide_excl:
                continue
            if m.access != cur:
                s.append("%s:\n" % m.access)
                cur = m.access
            if m.static:
                s.append("  static const int %s=3;\n" % m.name)
            else:
                s.append("  %s;\n" % m.ty.declare(m.name))
        if cur != "public":
            s.append("public:\n")
        inits = []
        for m in c.members:
            if m.static or m.ty.kind == "excl" and model.hide_excl:
                continue
            k = m.ty.kind
            if k in ("prim", "T", "enum", "carray", "array", "pair", "excl", "tuple"):
                if k == "excl" or (k == "pair"):
                    inits.append("%s()" % m.name)
                else:
                    inits.append("%s()" % m.name)
        s.append("  %s()%s {}\n" % (c.name, (": " + ", ".join(inits)) if inits else ""))
        if model.methods_on and self.rng.random() < 0.5:
            s.append("  int %s(int a, const char* b) const {return a*2;}\n" % model.fresh("fn"))
        s.append("};\n")
        return "".join(s)
