"""Random header files in the C++ subset the descriptor processor documents, together with
code (struct Expect<>) that records what a descriptor for each class must visit.
Every declaration is produced as plain text; reformat() re-renders a text with random but
meaning-preserving layout (white space, comments, line continuations)."""
import random, re

KW = ["class_", "enumerate", "structure", "operator_", "template1", "private_", "constant", "typedefs", "public1", "virtuals", "x", "y", "value", "m_", "a", "dim",
      "unionised", "statics", "usingIt", "friendly", "_under", "n2", "Camel"]


class V:
    """One expected visit. kind: mem arr uni kst fn ; access; text of an expression for fn."""
    def __init__(self, kind, name, access="public", expr=None, static=False, isref=False, ismethod=False):
        self.kind, self.name, self.access, self.expr, self.static, self.isref, self.ismethod = kind, name, access, expr, static, isref, ismethod


class Cls:
    def __init__(self, name, ns, key, outer=None):
        self.name, self.ns, self.key, self.outer = name, ns, key, outer
        self.bases, self.visits, self.access = [], [], "public"     # bases: (qualified type text, access, virtual)
        self.tparams = None     # list of parameter declarations for templates
        self.inst = []          # argument lists to instantiate with
        self.spec = None        # argument text of a specialisation
        self.constructible = True
        self.nested_public = True
        self.methods = {}
        self.enums = []
        self.nested = []
        self.virtualbase = False

    def path(self):
        return (self.outer.path() if self.outer else list(self.ns)) + [self.name]

    def qual(self):
        return "::" + "::".join(self.path())

    def rel(self):
        return "::".join(self.path())


class EnumD:
    def __init__(self, path, scoped, keys, name, access="public", under=None, values=None):
        self.path, self.scoped, self.keys, self.name, self.access, self.under, self.values, self.templ = path, scoped, keys, name, access, under, values, False

    def qual(self):
        return "::" + "::".join(self.path + [self.name])

    def keyq(self, k):
        return "::" + "::".join(self.path + ([self.name] if self.scoped else []) + [k])


class HeaderGen:
    def __init__(self, rng, std="98", deny=(), only=None, nclass=6, noise=True, overload=False):
        self.rng, self.std, self.n, self.overload = rng, std, 0, overload
        self.deny, self.only = set(deny), only
        self.cpp11, self.cpp17 = std != "98", std == "17"
        self.classes, self.enums, self.ns = [], [], []
        self.used = set()
        self.noise_on = noise
        self.uses = []      # features used
        self.omit = []
        self.tclasses = []
        self.text = self.header(nclass)

    # ------------------------------------------------------------ helpers
    def on(self, f, p=1.0):
        if f in self.deny or self.only is not None and f not in self.only:
            return False
        if self.rng.random() < p:
            self.uses.append(f)
            return True
        return False

    def fresh(self, base=None):
        self.n += 1
        return "%s%d%s" % (base or self.rng.choice(KW), self.n, self.rng.choice(["", "", "_", "x", "_t"]))

    def prim(self):
        r = self.rng
        t = r.choice(["int", "double", "char", "bool", "unsigned", "short", "long", "float", "unsigned char", "unsigned long int", "long long", "short unsigned int", "signed char",
                      "long double", "unsigned long long", "std::size_t", "long unsigned"])
        return t

    def leaf(self, scope, ptr=True):
        r = self.rng
        c = [("prim", 8), ("string", 2), ("class", 3), ("enum", 2), ("ptr", 2 if ptr else 0), ("cptr", 1 if ptr else 0), ("stl", 3), ("tmpl", 2)]
        k = r.choices([x for x, _ in c], [w for _, w in c])[0]
        if k == "string":
            return "std::string"
        if k == "class":
            cs = [x for x in self.classes if not x.tparams and x.constructible and not x.spec and x.access == "public" and not (x.outer and x.outer.tparams)]
            if cs:
                return self.spell(r.choice(cs), scope)
        if k == "enum" and self.enums:
            e = r.choice([e for e in self.enums if e.access == "public"] or [None])
            if e:
                return e.qual() if r.random() < .5 else "::".join(e.path + [e.name])
        if k == "ptr":
            return self.leaf(scope, False) + r.choice(["*", " *", "* *", "*"])
        if k == "cptr":
            return r.choice(["const char*", "char const *", "const int*", "const void *"])
        if k == "stl":
            a = self.leaf(scope, False)
            if a == "bool" or "long double" in a:
                a = "int"
            f = r.choice(["std::vector< %s >", "std::list< %s >", "std::deque< %s >", "std::map<int,%s >", "std::pair<std::string, %s >", "std::map<std::string,std::vector< %s > >", "std::set<int >"] + (["std::vector<std::vector< %s>>"] if self.cpp11 else []))
            return f % a if "%s" in f else f
        if k == "tmpl" and self.tclasses:
            c = r.choice(self.tclasses)
            return "%s< %s >" % (self.spell(c, scope), r.choice(c.inst))
        return self.prim()

    def spell(self, c, scope, base=False):
        """Some way to name class c from within namespace path scope."""
        r = self.rng
        p = c.path()
        ways = [c.qual(), c.rel()]
        k = 0
        while k < len(scope) and k < len(p) - 1 and scope[k] == p[k]:
            k += 1
        if k and p[k:] and (not base or k == len(scope)):
            ways += ["::".join(p[k:])]
        w = r.choice(ways)
        return w

    # -------------------------------------------------------------- enums
    def enumdecl(self, path, access="public", forms=("enum", "class")):
        r = self.rng
        scoped = self.cpp11 and "class" in forms and self.on("enum-class", .4)
        name = self.fresh("E")
        keys, out, v, vals = [], [], -1, []
        for i in range(r.randint(1, 5)):
            k = self.fresh("k")
            t = k
            x = r.random()
            if x < .15:
                v = r.randint(-5, 100)
                t += " = %d" % v
            elif x < .22 and self.on("enum-expr"):
                v = r.randint(0, 6)
                v, e = r.choice([(1 << v, "1<<%d" % v), (v + 2, "(%d+2)" % v), (97, "'a'"), (v | 8, "8|%d" % (v if not v & 8 else 0)), (255, "0xff"), (-v, "-%d" % v), (44, "','"), (125, "'}'")])
                t += r.choice([" = %s", "=%s"]) % e
            elif x < .27 and keys and self.on("enum-prev"):
                t += " = " + keys[-1] + "+3"
                v += 3
            elif x < .30 and self.on("enum-comma-expr"):
                v, e = r.choice([(4, "sizeof(std::pair<short,short>)"), (7, "std::pair<int,int>(3,7), 7")][:1])
                t += " = " + e
            else:
                v += 1
            keys.append(k)
            vals.append(v)
            out.append(t)
        under = None
        if self.cpp11 and self.on("enum-under", .25):
            under = r.choice(["int", "unsigned short", "short", "long", "unsigned char", "char"])
            if under in ("unsigned short", "unsigned char") and min(vals) < 0 or under in ("unsigned char", "char", "short", "unsigned short") and max(vals) > 120:
                under = "int"
        trail = "," if (self.cpp11 and self.on("enum-trailing-comma", .2)) else ""
        s = "enum %s%s%s {%s%s}" % (r.choice(["class ", "struct " if self.on("enum-struct") else "class "]) if scoped else "", name, (" : " + under) if under else "", ", ".join(out), trail)
        e = EnumD(list(path), scoped, keys, name, access, under, vals)
        self.enums.append(e)
        return e, s

    # -------------------------------------------------------------- class
    def members(self, c, scope, depth=0):
        """Text of the body of class c; fills c.visits."""
        r = self.rng
        acc = "public" if c.key == "struct" else "private"
        out, refs, ctorinit = [], [], []
        if c.key == "class" and r.random() < .7:
            out.append("public:")
            acc = "public"
        hasaccess = False
        nonpub = self.on("private-members", .3)
        tp = [t.split("=")[0].split()[-1] for t in c.tparams if t.split()[0] in ("class", "typename") and "..." not in t] if c.tparams else []
        tmpl = bool(c.tparams) or bool(c.spec) or bool(c.outer and (c.outer.tparams or c.outer.spec))
        ctor_needed = False

        def vis(kind, name, **kw):
            c.visits.append(V(kind, name, acc, **kw))

        def ty(ptr=True):
            if tp and r.random() < .4:
                t = r.choice(tp)
                return r.choice(["%s", "std::vector< %s >", "%s*", "std::map<std::string, %s >"][:4 if ptr else 2]) % t
            return self.leaf(scope, ptr)

        for _ in range(r.randint(0, 9)):
            if nonpub and r.random() < .25:
                acc = r.choice(["public", "private", "protected"])
                out.append(acc + r.choice([":", " :"]))
            k = r.random()
            n = self.fresh()
            if k < .22:
                out.append("%s %s;" % (ty(), n))
                vis("mem", n)
            elif k < .28 and self.on("multi-declarator"):
                m = self.fresh()
                t = r.choice(["int", "double", "std::string", "unsigned long"])
                form = r.choice(["%s %s, %s;", "%s %s, *%s;", "%s %s, %s[3];", "%s %s[2], %s;", "%s *%s, **%s;"])
                out.append(form % (t, n, m))
                vis("arr" if n + "[" in out[-1] else "mem", n)
                vis("arr" if m + "[" in out[-1] else "mem", m)
            elif k < .36 and self.on("array"):
                d = "".join(r.choice(["[%d]", "[ %d ]", "[%d]"]) % r.randint(1, 4) for _ in range(r.choice([1, 1, 2, 3])))
                if self.on("array-expr", .2):
                    d = r.choice(["[2*3]", "[gDim+1]", "[1<<2]", "[sizeof(int)]", "[(1+2)]", "[gDim]"]) + d
                out.append("%s %s%s;" % (r.choice(["int", "double", "std::string", "char", self.leaf(scope, False)]), n, d))
                vis("arr", n)
            elif k < .40 and self.on("const-member"):
                if self.cpp11 and r.random() < .5:
                    out.append("%s %s = 3;" % (r.choice(["const int", "int const", "const double"]), n))
                else:
                    out.append("%s %s;" % (r.choice(["const int", "int const", "const unsigned long"]), n))
                    ctorinit.append("%s(%d)" % (n, r.randint(0, 9)))
                vis("mem", n)
            elif k < .43 and self.on("static-const"):
                if self.on("static-multi", .3):
                    m = self.fresh()
                    out.append("static const int %s = %d, %s = 7;" % (n, r.randint(0, 99), m))
                    vis("kst", n, static=True)
                    vis("kst", m, static=True)
                    continue
                out.append(r.choice(["static const int %s = %d;", "const static int %s=%d;", "static const int %s=1+%d;"]) % (n, r.randint(0, 99)))
                vis("kst", n, static=True)
            elif k < .45 and self.cpp11 and self.on("constexpr"):
                out.append(r.choice(["static constexpr double %s = %d.5;", "static constexpr int %s{%d};", "constexpr static int %s=%d;"]) % (n, r.randint(0, 99)))
                vis("kst", n, static=True)
            elif k < .48 and not tmpl and self.on("static"):
                t = r.choice(["int", "double", "std::string", "const char*", "std::vector<const int*>", "const int*"])
                if self.on("static-multi", .3):
                    m = self.fresh()
                    out.append("static double %s, %s;" % (n, m))
                    self.defs += ["double %s::%s;" % (c.rel(), x) for x in (n, m)]
                    vis("mem", n, static=True)
                    vis("mem", m, static=True)
                    continue
                out.append("static %s %s;" % (t, n))
                self.defs.append("%s %s::%s;" % (t, c.rel(), n))
                vis("mem", n, static=True)
            elif k < .50 and self.cpp17 and self.on("inline-static"):
                out.append("inline static int %s = 5;" % n)
                vis("mem", n, static=True)
            elif k < .53 and self.on("reference"):
                out.append(r.choice(["int& %s;", "int &%s;", "int & %s;"]) % n)
                ctorinit.append("%s(gInt)" % n)
                vis("mem", n, isref=True)
                c.assignable = False
            elif k < .56 and self.on("mutable"):
                out.append("%s int %s;" % (r.choice(["mutable", "volatile"]), n) if r.random() < .6 else "mutable std::string %s;" % n)
                if "volatile" in out[-1]:
                    out[-1] = "mutable int %s;" % n
                vis("mem", n)
            elif k < .62 and self.cpp11 and self.on("default-init"):
                t, i = r.choice([("int", " = 3"), ("int", "{4}"), ("std::string", " = \"a;}{\""), ("std::vector<int>", "{1,2,3}"), ("double", "=1.5e3"), ("int", "{}"), ("std::string", "{\"x\"}"), ("char", " = '}'"),
                                 ("int*", " = nullptr"), ("std::function<void(int)>", ""), ("bool", "=true")])
                out.append("%s %s%s;" % (t, n, i))
                vis("mem", n)
            elif k < .65 and self.cpp11 and self.on("default-init-braces"):
                t, i = r.choice([("std::map<int,int>", " = {{1,2},{3,4}}"), ("std::vector<int>", " = {1,2}"), ("std::pair<int,int>", " = std::pair<int,int>(1,2)"), ("int", " = gFun(1,2)"),
                                 ("std::vector<int>", " = std::vector<int>({1,2})"), ("int", "=(1,2)"), ("bool", " = gDim<4"), ("bool", " = gDim<4 && gDim>1"), ("int", " = 1<<2"), ("std::map<int,std::pair<int,int>>", "= std::map<int,std::pair<int,int>>()"),
                                 ("std::function<int(int)>", " = [](int a) {return a>1? a: 0;}")])
                m = self.fresh()
                if self.on("multi-init", .3) and t == "bool":
                    i += ", %s = false" % m
                out.append("%s %s%s;" % (t, n, i))
                vis("mem", n)
                if m in i:
                    vis("mem", m)
            elif k < .67 and self.cpp11 and self.on("array-init"):
                out.append("int %s[3] = {1,2,3};" % n if r.random() < .5 else "int %s[2]{1,2};" % n)
                vis("arr", n)
            elif k < .70 and self.on("function-pointer"):
                out.append(r.choice(["int (*%s)(int,double);", "void (*%s)();", "const char* (*%s)(void);"]) % n)
                vis("mem", n)
            elif k < .73 and depth < 1 and not tmpl and self.on("nested-enum"):
                e, s = self.enumdecl(c.path(), acc)
                if self.on("nested-enum-declarator", .3):
                    out.append("%s %s;" % (s, n))
                else:
                    out.append(s + ";")
                    if r.random() < .5:
                        continue
                    out.append("%s %s;" % (e.name, n))
                vis("mem", n)
            elif k < .75 and self.on("anon-enum"):
                out.append("enum {%s, %s=5} %s;" % (self.fresh("ak"), self.fresh("ak"), n))
                vis("mem", n)
            elif k < .80 and depth < 2 and not c.tparams and self.on("nested-class"):
                x = Cls(self.fresh("N"), c.ns, r.choice(["struct", "class"]), c)
                x.access = acc if acc != "public" or c.access != "public" else "public"
                if x.access == "public" and c.access != "public":
                    x.access = c.access
                x.nested_public = acc == "public"
                t = self.classtext(x, scope, depth + 1)
                out.append(t + (" %s;" % n if self.on("nested-declarator", .3) else ";"))
                if x.access == "public" and not tmpl:
                    self.classes.append(x)
                if out[-1].endswith(" %s;" % n):
                    vis("mem", n)
                elif r.random() < .6:
                    out.append("%s %s;" % (x.name, n))
                    vis("mem", n)
            elif k < .815 and self.on("union"):
                if r.random() < .5:
                    form = r.choice(["%s", "%s", "%s, %s", "%s[2]", "%s[3], %s", "*%s"])
                    m = self.fresh()
                    out.append("union {int ui%d; float uf%d;} %s;" % (self.n, self.n, form % ((n, m)[:form.count("%s")])))
                    vis("uni", n)
                    if form.count("%s") > 1:
                        vis("uni", m)
                else:
                    out.append("union {int ui%d; float uf%d;};" % (self.n, self.n))
            elif k < .825 and self.on("named-union"):
                x = r.random()
                if x < .3:
                    out.append("union U%d {int ui; float uf;} %s;" % (self.n, n))
                    vis("uni", n)
                else:
                    if x < .5:
                        out.append("union U%d;" % self.n)
                    out.append("union U%d {int ui; float uf; struct {int q;} us;};" % self.n)
                    out.append("%sU%d %s%s;" % (r.choice(["", "union "]), self.n, r.choice(["", "*"]), n))
                    vis("mem", n)
            elif k < .86 and self.on("typedef-member"):
                out.append(r.choice(["typedef int %s;", "typedef std::map<int,std::string> %s;", "typedef const char* %s;", "typedef struct {int a;} %s;", "typedef void (*%s)(int);"] + (["using %s = int;"] if self.cpp11 else [])) % n)
                if out[-1].startswith("typedef int") and r.random() < .7:
                    m = self.fresh()
                    out.append("%s %s;" % (n, m))
                    vis("mem", m)
            elif k < .87 and self.on("friend"):
                out.append(r.choice(["friend class FriendOf%d;" % self.n, "friend void friendFn%d(int);" % self.n, "friend struct ::Nothing;", "template <class FT> friend class FriendT%d;" % self.n, "template <class FT> friend void friendTF%d(FT);" % self.n]))
            elif k < .875 and depth == 0 and self.on("nested-template"):
                out.append(r.choice(["template <class NT> struct %s {NT nta; int ntb;};", "template <class NT> class %s;", "template <class NT> struct %s {NT f() {return NT();} template <class M> void g() {}};"] + (["template <class NT> using %s = std::vector<NT>;"] if self.cpp11 else [])) % n)
            elif k < .88 and not c.spec and "friendop" not in c.methods and self.on("friend-inline"):
                c.methods["friendop"] = 1
                out.append("friend bool operator<(const %s& a, const %s& b) {int i=0; return &a<&b+i;}" % (c.name, c.name))
            elif k < .883 and self.on("elaborated"):
                form = r.choice(["struct Nothing* %s;", "const struct ::Nothing *%s;", "struct Elab%d *%%s;" % self.n, "class Elab%d* *%%s;" % self.n, "enum GEnum %s;", "enum ::GEnum %s;", "struct GStruct %s;", "const struct GStruct* %s;", "struct GStruct* %s[2];"])
                out.append(form % n)
                vis("arr" if "[2]" in form else "mem", n)
            elif k < .885 and self.on("pointer-to-array"):
                out.append("int (*%s)[3];" % n)
                vis("mem", n)
            elif k < .888 and not c.tparams and not c.spec and self.on("member-pointer"):
                out.append(r.choice(["int GStruct::*%s;", "int GStruct::* %s;", "int ::GStruct::*%s;"]) % n)
                vis("mem", n)
            elif k < .889 and self.cpp11 and self.on("opaque-enum"):
                out.append(r.choice(["enum class Opq%d;", "enum class Opq%d: short;", "enum Opq%d: int;"]) % self.n)
            elif k < .893 and self.cpp11 and self.on("decltype"):
                out.append("decltype(gInt+1) %s;" % n)
                vis("mem", n)
            elif k < .896 and self.on("gnu-attribute"):
                out.append(r.choice(["__attribute__((aligned(8))) int %s;", "int %s __attribute__((aligned(8)));"][:1]) % n)
                vis("mem", n)
            elif k < .90 and self.cpp11 and self.on("static-assert"):
                out.append("static_assert(sizeof(int)==4, \"message; }\");")
            elif k < .91 and self.cpp11 and self.on("attribute"):
                out.append(r.choice(["alignas(8) int %s;", "alignas(double) char %s;"] + (["[[maybe_unused]] int %s;", "int %s [[maybe_unused]];"][:1] if self.cpp17 else [])) % n)
                vis("mem", n)
            else:
                self.method(c, out, acc, n, tmpl, scope)
        if ctorinit or self.on("ctor", .2):
            body = r.choice(["{}", "{int q=1; if (q) {q=2;} }"])
            self.shuffle_ctor(out, c, ctorinit, body)
        if self.on("dtor", .15):
            out.append("%s:" % acc if False else "")
            out.append("%s~%s() %s" % (r.choice(["", "virtual "]), c.name, r.choice(["{}", "{ }"] + (["= default;"] if self.cpp11 else []))))
            if acc != "public":
                out[-1] = "public: " + out[-1]
                acc = "public"
        out = [x for x in out if x]
        pos = r.choice([0, len(out)])
        if pos == 0 and any(m in " ".join(out) for m in ("private", "protected")) or c.key == "class" or True:
            a = "CLASSDESC_ACCESS(%s);" % c.name
            if pos == 0:
                out.insert(0, a)
            else:
                out.append(a)
        return out

    def shuffle_ctor(self, out, c, init, body):
        r = self.rng
        if self.on("ctor-brace-init", .3) and self.cpp11 and init:
            init = [re.sub(r"\((.*)\)", r"{\1}", i) for i in init if "gInt" not in i] + [i for i in init if "gInt" in i]
        s = "public: %s()%s %s" % (c.name, (" : " + ", ".join(init)) if init else "", body)
        out.append(s + r.choice(["", "" if not body.endswith("}") else ";"]))

    def args(self, scope):
        r = self.rng
        n = r.choice([0, 0, 1, 2, 3])
        a = [r.choice(["int", "double", "const std::string&", "std::vector<int>", "const std::map<int,std::string>&", "char*", "bool", "std::vector<int>&"]) for _ in range(n)]
        dflt = False
        txt = []
        for i, x in enumerate(a):
            nm = self.fresh("p")
            form = r.choice(["%s %s", "%s %s", "%s"])
            t = form % ((x, nm) if form.count("%s") == 2 else x)
            d = {"int": ["3", "(1+2)", "gFun(1,2)"], "double": ["1.5"], "const std::string&": ["\"a,b)\"", "std::string()"], "bool": ["true"], "std::vector<int>": ["std::vector<int>(3,4)"]}
            if x in d and (dflt or self.on("default-args", .15)):
                dflt = True
                t += r.choice(["=%s" if t[-1] not in "&*>" else " =%s", " = %s"]) % r.choice(d[x])
            elif dflt:
                return self.args(scope)
            txt.append(t)
        return a, ", ".join(txt)

    def method(self, c, out, acc, n, tmpl, scope):
        r = self.rng
        ret, rv = r.choice([("void", ""), ("int", "return 0;"), ("std::string", "return \"}{;\";"), ("const std::string&", "static std::string s; return s;"), ("std::vector<int>", "return std::vector<int>();"),
                            ("std::map<int,std::string>", "return std::map<int,std::string>();"), ("const char*", "return \"//\";"), ("unsigned long", "return 1ul;"), ("bool", "return '\"'!='\\'';"), ("int*", "return 0;")])
        a, at = self.args(scope)
        k = r.random()
        cls = c.qual()
        if c.spec:
            cls += c.spec
        elif c.tparams:
            cls = None   # within Expect the class is X
        X = "typename XC" if False else "XC"
        if k < .45:
            cst = r.choice(["", " const"])
            body = r.choice(["{%s}" % rv, "{if (true) {%s} %s}" % (rv, rv), "{/*}*/ %s}" % rv]) + r.choice(["", ";"])
            pre = r.choice(["", "", "inline "])
            extra = ""
            if self.cpp11 and self.on("noexcept", .15):
                extra = r.choice([" noexcept", " noexcept(true)"])
            if self.on("throw-spec", .1) and not self.cpp11:
                extra = " throw()"
            ne = " noexcept" if self.cpp17 and "noexcept" in extra else ""
            out.append("%s%s %s(%s)%s%s %s" % (pre, ret, n, at, cst, extra, body))
            c.visits.append(V("fn", n, acc, "(%s (XC::*)(%s)%s%s)&XC::%s" % (ret, ",".join(a), cst, ne, n), ismethod=True))
            if self.on("overloaded", .15):
                out.append("%s %s(%s, long double) {%s}" % (ret, n, ", ".join(a + ["short"]), rv))
                for v in c.visits:
                    if v.name == n:
                        v.kind = "ofn"
                c.visits.append(V("ofn", n, acc, "(%s (XC::*)(%s))&XC::%s" % (ret, ",".join(a + ["short", "long double"]), n), ismethod=True))
        elif k < .55 and self.on("static-method"):
            out.append("static %s %s(%s) {%s}" % (ret, n, at, rv))
            c.visits.append(V("fn", n, acc, "(%s (*)(%s))&XC::%s" % (ret, ",".join(a), n), static=True, ismethod=True))
        elif k < .63 and self.on("virtual"):
            cst = r.choice(["", " const"])
            out.append("virtual %s %s(%s)%s {%s}" % (ret, n, at, cst, rv))
            c.visits.append(V("fn", n, acc, "(%s (XC::*)(%s)%s)&XC::%s" % (ret, ",".join(a), cst, n), ismethod=True))
        elif k < .70 and self.on("template-method"):
            out.append(r.choice(["template <class MT> void %s(MT a) {(void)a;}", "template <class MT, int MI> MT %s(const std::vector<MT>& a) const {return MT();}", "template <typename MT> static void %s() {}"]) % n)
        elif k < .86 and self.on("operator"):
            op = r.choice(["bool operator==(const %(c)s& o) const {return this==&o;}", "operator int() const {return 3;}", "int operator[](int i) {return i;}", "int operator()(int a, int b) const {return a+b;}",
                           "%(c)s* operator->() {return this;}", "void operator+=(int) {}", "bool operator!() const {return true;}", "template <class OT> bool operator<=(const OT&) const {return true;}", "virtual bool operator>(const %(c)s&) const {return true;}", "static void* operator new[](std::size_t n) {return ::operator new(n);} static void operator delete[](void* p) {::operator delete(p);}", "bool operator<(const %(c)s&) const {return false;}", "int operator<<(int i) {return i;}",
                           "operator std::string() const;", "int operator++() {return 1;}", "int operator,(int i) {return i;}", "operator const char*() const {return 0;}", "int operator()() {return 1;}",
                           "void* operator new(std::size_t n) {return ::operator new(n);} void operator delete(void* p) {::operator delete(p);}"]) % dict(c=c.name)
            key = re.search(r"operator\s*([^\s(]+|\(\))", op).group(1)
            if key in c.methods:
                return
            c.methods[key] = 1
            out.append(op)
        elif k < .92 and self.on("ctor-args"):
            if "ctor1" in c.methods:
                return
            c.methods["ctor1"] = 1
            out.append("explicit %s(void*, int) {}" % c.name if not self.needs_init(out) else "")
            if out[-1]:
                out.append("%s() {}" % c.name)
                c.methods["ctor0"] = 1
                if acc != "public":
                    out[-1] = "public: %s %s:" % (out[-1], acc)
        elif self.cpp11 and self.on("deleted"):
            out.append("void %s(%s) = delete;" % (n, ",".join(a)))
        else:
            out.append("void %s(%s);" % (n, at))
            if not tmpl:
                self.defs.append("void %s::%s(%s) {}" % (c.rel(), n, ", ".join(a)))
                c.visits.append(V("fn", n, acc, "(void (XC::*)(%s))&XC::%s" % (",".join(a), n), ismethod=True))
            else:
                out.pop()

    def needs_init(self, out):
        return True     # a second constructor would have to initialise references and constants

    def classtext(self, c, scope, depth=0):
        r = self.rng
        if depth == 0 and not c.outer:
            cands = [x for x in self.classes if not getattr(x, "final", False) and not x.tparams and not x.spec and x.constructible and x.access == "public" and not (x.outer and x.outer.tparams)]
            if cands and self.on("bases", .45):
                for b in r.sample(cands, min(len(cands), r.choice([1, 1, 2]))):
                    if any(o in self.allb(b) for o in self.allb_of(c)):
                        continue
                    acc = r.choice(["public", "", "public", "public"] + (["private", "protected"] if self.on("private-base", .2) else []))
                    if b.name == "GStruct":
                        acc = "public"     # its injected name would not be accessible in the class derived
                    virt = self.on("virtual-base", .08)
                    c.bases.append((b, acc, virt, None))
            if self.tclasses and self.on("template-base", .15):
                b = r.choice(self.tclasses)
                a = r.choice(b.inst)
                if not any(o in self.allb(b) for o in self.allb_of(c)):
                    c.bases.append((b, "public", False, a))
        parts = []
        for b, acc, virt, a in c.bases:
            nm = self.spell(b, scope, True) + ("< %s >" % a if a is not None else "")
            w = [acc] if acc else []
            if virt:
                w.insert(r.choice([0, len(w)]), "virtual")
            parts.append(" ".join(w + [nm]))
        body = self.members(c, scope, depth)
        c.final = self.cpp11 and depth == 0 and self.on("final", .08)
        head = r.choice(["alignas(16) ", "__attribute__((aligned(16))) ", "alignas(double) "]) if self.cpp11 and not c.outer and self.on("class-attribute", .06) else ""
        return "%s %s%s%s%s%s\n{\n%s\n}" % (c.key, head, c.name, c.spec or "", " final" if c.final else "", (" : " + ", ".join(parts)) if parts else "", "\n".join("  " + b for b in body))

    def allb(self, c):
        s = {id(c)}
        for b, _, _, _ in c.bases:
            s |= self.allb(b)
        return s

    def allb_of(self, c):
        s = set()
        for b, _, _, _ in c.bases:
            s |= self.allb(b)
        return s

    # -------------------------------------------------------------- header
    def noise(self, ns):
        r = self.rng
        n = self.fresh("nz")
        opts = ["int %s(int a, const char* b=\"struct X {\");", "inline int %s() {return 1;}", "inline void %s(int a) {if (a) {while (a--) {char c='{'; (void)c;}} else {const char* s=\"}\\\"\"; (void)s;}}",
                "typedef int %s;", "typedef std::map<int,std::vector<std::string> > %s;", "struct %s;", "class %s;", "extern int %s;", "static const int %s[] = {1,2,3};", "static const char %s[] = \"class Y { int z; }; // not\";",
                "#define %s(x) class x {", "#define %s \\\n  struct { int a; } \\\n  foo", "// struct %s {int a;};", "/* class %s { int q; \n */", "template <class NT> void %s(NT) {}", "template <class NT> struct %s;",
                "typedef void (*%s)(int, struct Undefined*);", "enum {%s=3};", "static const double %s = 1.5e+3;", "struct GStruct* %s(struct GStruct* a);", "enum GEnum %s(enum GEnum);", "union %s {int a; struct InU {int b;} c; };", "static struct GStruct %s = {3};", "static union {int a; float b;} %s;", "static struct {int a; struct Inner {int b;} c;} %s;", "inline bool %s(int a, int b) {return a<b && b>>1<a;}", "#pragma GCC diagnostic ignored \"-W%s\"",
                "struct Outside; inline struct Outside* %s() {return 0;}", "template <class NT> inline NT %s(const NT& a) {return a;}", "extern const std::string %s;"]
        hard = [r.choice(["inline int %s() {struct Local {int a;}; return 0;}", "struct Fwd%d; inline int %%s() {{typedef struct {int a;} Local; class L2 {int b;};} return 0;}" % self.n]), "inline void %s() {enum Local {la, lb}; }"]
        if self.cpp11:
            opts += ["using %s = std::vector<int>;", "static const auto %s = [](int a) {return a>1;};", "template <class NT> using %s = std::vector<NT>;", "enum class %s: short;", "constexpr int %s = 1'000'000;" if self.cpp17 else "constexpr int %s = 1;",
                     "static_assert(sizeof(int)==4, \"%s struct\");", "enum : short {%s};", "enum class %s {};", "inline auto %s(int a) -> decltype(a+1) {return a;}", "inline int %s(int a=[]{struct InL {int q;}; return 3;}()) {return a;}"]
            hard += ["static const char* const %s = R\"(struct Raw { \" int)\";", "constexpr int %s = 1'000;" if self.cpp17 else "constexpr int %s=2;"]
        t = r.choice(opts)
        if self.on("noise-local-class", .06):
            t = hard[r.randrange(2)]
        elif self.cpp11 and self.on("noise-raw-string", .03):
            t = hard[2]
        elif self.cpp17 and self.on("noise-digit-separator", .05):
            t = hard[3]
        return t % n

    def header(self, nclass):
        r = self.rng
        self.defs = []
        g = Cls("GStruct", [], "struct")
        g.visits = [V("mem", "gs")]
        self.classes.append(g)
        chunks = []     # (namespace path, text)
        for i in range(nclass):
            ns = r.choice([[], [], ["na"], ["na", "nb"], ["nc"]])
            if self.noise_on:
                for _ in range(r.randint(0, 2)):
                    if self.on("noise"):
                        chunks.append((ns if r.random() < .5 else [], self.noise(ns)))
            if self.on("enum", .35):
                e, s = self.enumdecl(ns)
                chunks.append((ns, s + (" %s;" % self.fresh("ev") if self.on("enum-variable", .1) else ";")))
                if not chunks[-1][1].endswith("};"):
                    chunks[-1] = (ns, "static " + chunks[-1][1])
            c = Cls(self.fresh("C"), ns, r.choice(["struct", "struct", "class"]))
            x = r.random()
            if x < .25 and self.on("template"):
                forms = [(["class T"], ["int", "std::string", "std::vector<int>"]), (["typename T"], ["double", "bool"]), (["class T", "int N"], ["int,3", "std::string, 4"]), (["class T", "class U=int"], ["double", "char,std::string"]),
                         (["class T", "class U=std::vector<T> "], ["int", "char,short"])]
                if self.cpp11:
                    forms += [(["class... A"], ["int,char", ""]), (["class T", "bool b = (2>1)"][:1], ["int"])]
                tp, inst = r.choice(forms)
                c.tparams, c.inst = list(tp), list(inst)
                chunks.append((ns, "template <%s> %s;" % (", ".join(tp), self.classtext(c, ns))))
                self.classes.append(c)
                if not any("..." in t for t in tp) and not getattr(c, "final", False):
                    self.tclasses.append(c)
                if self.on("specialise", .5):
                    s = Cls(c.name, ns, c.key)
                    if len(tp) == 1 and "class..." not in tp[0]:
                        s.spec = r.choice(["<long*>", "<std::vector<long> >", "<unsigned long>"])
                        chunks.append((ns, "template <> %s;" % self.classtext(s, ns)))
                        self.classes.append(s)
            elif x < .31 and self.on("typedef-struct"):
                c.key = "struct"
                form = r.choice(["anon", "tag"])
                sv = self.deny
                self.deny = self.deny | {"nested-class", "nested-enum", "friend-inline", "operator", "reference", "const-member", "ctor", "dtor", "bases", "template-base", "private-members", "virtual", "ctor-args", "static", "inline-static", "default-init", "default-init-braces", "array-init", "static-const", "constexpr"} \
                    if form == "anon" else self.deny | {"bases", "template-base"}
                t = self.classtext(c, ns)
                self.deny = sv
                if form == "anon":
                    t = t.replace("struct " + c.name, "struct", 1).replace("CLASSDESC_ACCESS(%s);" % c.name, "")
                    c.typedefd = True
                    # member functions of unnamed classes cannot be defined elsewhere
                    self.defs = [d for d in self.defs if "::%s::" % c.name not in "::" + d and not d.split("(")[0].endswith(c.name)]
                    if any(v.ismethod for v in c.visits) or "(" in t:
                        continue
                    chunks.append((ns, "typedef %s %s;" % (t, c.name)))
                else:
                    chunks.append((ns, "typedef %s %s;" % (t, self.fresh("Alias"))))
                self.classes.append(c)
            elif x < .37 and self.on("class-variable"):
                t = self.classtext(c, ns)
                chunks.append((ns, "static %s %s;" % (t, self.fresh("var"))))
                self.classes.append(c)
            elif x < .43 and self.on("out-of-line-nested"):
                o = Cls(self.fresh("O"), ns, "struct")
                c.outer = o
                o.visits = [V("mem", "op%d" % self.n)]
                chunks.append((ns, "struct %s {%s %s; int op%d; CLASSDESC_ACCESS(%s);};" % (o.name, c.key, c.name, self.n, o.name)))
                t = self.classtext(c, ns, 1).replace("%s %s" % (c.key, c.name), "%s %s::%s" % (c.key, o.name, c.name), 1)
                chunks.append((ns, t + ";"))
                self.classes += [o, c]
            else:
                if self.on("forward", .2):
                    chunks.append((ns, "%s %s;" % (c.key, c.name)))
                chunks.append((ns, self.classtext(c, ns) + ";"))
                self.classes.append(c)
        out = ["#ifndef GEN_H\n#define GEN_H\n#include <string>\n#include <vector>\n#include <map>\n#include <list>\n#include <deque>\n#include <set>\n#include <cstddef>\n" + ("#include <functional>\n" if self.cpp11 else "")]
        out.append("static int gInt=0; struct GStruct {int gs;}; enum GEnum {geA};\nenum {gDim=3};\nstruct Nothing;\ninline int gFun(int a, int b) {return a+b;}\n")
        cur = []
        for ns, t in chunks:
            nestedns = self.cpp17 and len(ns) > 1 and self.on("nested-namespace", .5)
            if self.on("extern-c", .03) and not ns:
                out.append("extern \"C\" {int cf%d(void);}" % len(out))
            op = ("namespace %s {\n" % "::".join(ns)) if nestedns else "".join("namespace %s {\n" % n for n in ns)
            out.append(op + t + "\n" + ("}" * (1 if nestedns else len(ns))) + (" // namespace" if ns and r.random() < .3 else ""))
        out.append("#endif\n")
        self.parts = out
        return "\n".join(out)

    def padded(self):
        """The header with further code between its declarations that declares nothing to describe."""
        r, out = self.rng, self.parts[:2]
        for p in self.parts[2:]:
            for _ in range(r.choice([0, 1, 1, 2])):
                ns = r.choice([[], [], ["na"], ["na", "nb"], ["nz"]])
                t = self.noise(ns)
                if re.match(r"union|enum|static (struct|union)|struct Fwd", t):
                    continue
                out.append("".join("namespace %s {\n" % n for n in ns) + t + "\n" + "}" * len(ns))
            out.append(p)
        return "\n".join(out)

    # ---------------------------------------------------------- expectation
    def expect(self, opts=(), omit=()):
        """opts: onbase, respect_private, overload; omit: classes (by qualified name) whose descriptor is suppressed"""
        s = ["// what must be visited\n"]
        dec, dfn = [], []
        resp = "respect_private" in opts
        for c in self.classes:
            if c.access != "public" or c.outer and not c.nested_public:
                continue
            q = c.qual()
            if c.spec:
                head, inst = "template <class X>", q + c.spec
                head = "template <class X>"
            elif c.tparams:
                names = []
                ps = []
                for t in c.tparams:
                    b = t.split("=")[0].strip()
                    ps.append(b)
                    nm = b.split()[-1]
                    names.append(nm + ("..." if "..." in b else ""))
                head, inst = "template <%s, class X>" % ", ".join(ps) if "..." not in ps[-1] else "template <class X, %s>" % ", ".join(ps), "%s< %s >" % (q, ", ".join(names))
            else:
                head, inst = "template <class X>", q
            lines = []
            if q + (c.spec or "") in omit or q in omit:
                dec.append("%s struct Expect< %s, X> {template <class C> static void go(X&, const std::string&, C&) {}};\n" % (head, inst))
                continue
            for b, acc, virt, a in c.bases:
                eff = acc or ("private" if c.key == "class" else "public")
                if resp and eff != "public":
                    continue
                bq = b.qual() + ("< %s >" % a if a is not None else "")
                lines.append("E.base(d, static_cast<typename CopyConst<C, %s >::type&>(x));" % bq)
            cnt = {}
            for v in c.visits:
                if v.ismethod:
                    cnt[v.name] = cnt.get(v.name, 0) + 1
            for v in c.visits:
                if resp and v.access != "public":
                    continue
                if v.kind == "ofn" and "overload" not in opts:
                    continue
                if v.kind in ("fn", "ofn"):
                    # pointers to overloaded methods are converted, shedding noexcept
                    lines.append("E.fn(d,\"%s\",%s);" % (v.name, v.expr.replace(" noexcept)&", ")&") if "overload" in opts else v.expr))
                elif v.kind == "kst":
                    lines.append("E.kst(d,\"%s\",x.%s);" % (v.name, v.name))
                else:
                    lines.append("E.%s(d,\"%s\",x.%s);" % (v.kind, v.name, v.name))
            dec.append("%s struct Expect< %s, X> {template <class C> static void go(X& E, const std::string& d, C& x);};\n" % (head, inst))
            dfn.append("%s template <class C> void Expect< %s, X>::go(X& E, const std::string& d, C& x) {typedef %s XC; (void)E; (void)d; (void)x;\n  %s\n}\n" % (head, inst, inst, "\n  ".join(lines)))
        return "template <class C, class B> struct CopyConst {typedef B type;}; template <class C, class B> struct CopyConst<const C,B> {typedef const B type;};\n" + "".join(dec) + "".join(dfn)

    def roots(self):
        out = []
        for c in self.classes:
            if c.access != "public" or c.outer and not c.nested_public:
                continue
            if c.spec:
                out.append(c.qual() + c.spec)
            elif c.tparams:
                out += ["%s< %s >" % (c.qual(), a) for a in c.inst]
            else:
                out.append(c.qual())
        return out


# --------------------------------------------------------------- formatting
TOK = re.compile(r'''(?P<pp>^[ \t]*\#(?:[^\\\n]|\\.|\\\n)*$)|(?P<com>//[^\n]*|/\*.*?\*/)|(?P<raw>R"\(.*?\)")|(?P<str>"(?:[^"\\\n]|\\.)*"|'(?:[^'\\\n]|\\.)*')|(?P<num>\.?[0-9](?:[eEpP][+-]|'[0-9a-fA-F]|[0-9a-zA-Z_.])*)|(?P<id>[A-Za-z_][A-Za-z_0-9]*)|(?P<op>\[\[|\]\]|->\*|<<=|>>=|>>|\.\.\.|::|->|\+\+|--|<<|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|%=|&=|\|=|\^=|[-+*/%<>=!&|^~?:;,.(){}\[\]])|(?P<ws>\s+)''', re.M | re.S)


def lex(text):
    pos, out = 0, []
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise ValueError("lex: %r" % text[pos:pos + 40])
        out.append((m.lastgroup, m.group()))
        pos = m.end()
    return out


COMMENTS = ["/* c */", "/* struct X { int a; }; */", "/**/", "/***/", "/*/ } /*/", "/*//*/", "/*/**/", "/****/", "/* x **/", "/*\\*/", "// a \\\n } b", "/*\r\n*/", "/* \" */", "/* ' */", "// eol } {", "// \"", "/* multi\n line ; } */", "/* // */", "/// doc ; class", "//", "/* * / */", "/* a\\\n b */"]


def reformat(text, rng, level=2):
    """Same tokens, random layout."""
    toks = [t for t in lex(text) if t[0] not in ("ws", "com")]
    out, bol = [], True
    prev = None
    for kind, t in toks:
        if kind == "pp":
            out.append(("" if bol else "\n") + t + "\n")
            bol, prev = True, None
            continue
        need = False
        if prev:
            a, b = prev[1][-1], t[0]
            w = lambda ch: ch.isalnum() or ch == "_"
            if w(a) and w(b) or (a in "'\"" and w(b)) or (w(a) and b in "'\""):
                need = True
            elif not w(a) and not w(b) and prev[0] == "op" and kind == "op":
                need = any((prev[1] + t).startswith(x) and len(x) > len(prev[1]) for x in ("->*", "<<=", ">>=", "...", "::", "->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "//", "/*", "[[", "]]", "<:", "<%", "%:"))
                if t == "." or prev[1] == ".":
                    need = need or prev[0] == "num" or kind == "num"
            elif prev[0] == "num" and t[0] in ".'" or prev[1] in ".-+/" and kind == "num":
                need = True
        s = ""
        x = rng.random()
        if x < .5 or level == 0:
            s = " " if need else rng.choice(["", " "])
        elif x < .75:
            s = rng.choice([" ", "  ", "\t", "\n", "\r\n", "\n\n", " \n  ", "\n\t"])
        elif x < .88:
            s = rng.choice(COMMENTS)
            s = rng.choice(["", " ", "\n"]) + s + ("\n" if s.startswith("//") else rng.choice(["", " ", "\n"]))
        elif x < .93:
            s = " \\\n" if need else rng.choice(["\\\n", " \\\n ", "\\\n "])
            if need:
                s = rng.choice([" \\\n", "\\\n ", " \\\n "])
        else:
            s = " " if need else ""
        out.append(s + t)
        bol = (s + t).endswith("\n")
        prev = (kind, t)
    return "".join(out) + "\n"
