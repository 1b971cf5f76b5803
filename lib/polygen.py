"""Random polymorphic hierarchies in the documented styles, with independent generator/printer code."""


class Hier:
    MEM = ["int", "double", "string", "vint", "inner", "enum", "handle", "handles", "hmap", "hlist", "llong", "bool", "arr"]

    def __init__(self, rng, style, key, std, n=5, json=False):
        self.rng, self.style, self.key, self.std, self.json = rng, style, key, std, json
        self.cls = []
        for i in range(n):
            base = rng.choice([None] + self.cls) if self.cls and rng.random() < .6 else None
            mem = []
            for k in range(rng.choice([0, 1, 2, 3, 4])):
                mem.append(("m%d_%d" % (i, k), rng.choice(self.MEM)))
            self.cls.append(dict(name="C%d" % i, base=base, mem=mem, id=rng.choice([i, 7 * i + 3])))
        ids = set()
        for c in self.cls:
            while c["id"] in ids:
                c["id"] += 11
            ids.add(c["id"])

    T = {"int": "int", "double": "double", "string": "std::string", "vint": "std::vector<int>", "inner": "Inner", "enum": "Colour", "handle": "VSH<Base>",
         "handles": "std::vector<VSH<Base> >", "hmap": "std::map<int,VSH<Base> >", "hlist": "std::list<VSH<Base> >", "llong": "long long", "bool": "bool", "arr": "short"}

    def decl(self, m):
        n, k = m
        t = self.T[k].replace("VSH", "classdesc::shared_ptr")
        return "  %s %s%s;\n" % (t, n, "[3]" if k == "arr" else "")

    def init(self, ms):
        r = []
        for n, k in ms:
            if k in ("int", "llong", "double"):
                r.append("%s(0)" % n)
            elif k == "bool":
                r.append("%s(false)" % n)
            elif k == "enum":
                r.append("%s(red)" % n)
        return ": " + ", ".join(r) if r else ""

    def ctor(self, name, ms):
        return "  %s()%s {%s}\n" % (name, self.init(ms), "".join("%s[0]=%s[1]=%s[2]=0;" % (n, n, n) for n, k in ms if k == "arr"))

    def header(self):
        K = {"string": "std::string", "int": "int", "enum": "Kind"}[self.key]
        o = "#ifndef HIER_H\n#define HIER_H\n"
        o += "enum Colour {red, green=5, blue=-3};\nstruct Inner {int a; std::string b; Inner(): a(0) {}};\n"
        if self.style == "object":
            o += "typedef classdesc::object Base;\n"
            for c in self.cls:
                b = c["base"]
                o += "struct %s: public classdesc::Object<%s%s> {\n%s%s};\n" % (c["name"], c["name"], ", " + b["name"] if b else "", self.ctor(c["name"], c["mem"]), "".join(map(self.decl, c["mem"])))
            return o + "#endif\n"
        if self.key == "enum":
            o += "enum Kind {" + ", ".join("K_%s=%d" % (c["name"], c["id"]) for c in self.cls) + ", K_unused=100, K_none=-5};\n"
        o += "struct Base: public classdesc::PolyBase<%s>, virtual public classdesc::PolyPackBase, virtual public classdesc::PolyXMLBase {\n  static Base* create(const %s&);\n};\n" % (K, K)
        if self.key == "string":
            ty = "std::string type() const {return classdesc::typeName<T>();}"
        else:
            ty = "%s type() const {return %s(T::typeId());}" % (K, K)
        if self.style == "mixin":
            o += "template <class T> struct Mix: public classdesc::Poly<T,Base>, public classdesc::PolyPack<T>, public classdesc::PolyXML<T> {\n  %s\n};\n" % ty
            for c in self.cls:
                b = c["base"]
                o += "struct %s_b%s {\n%s%s};\n" % (c["name"], ": public %s_b" % b["name"] if b else "", self.ctor(c["name"] + "_b", c["mem"]), "".join(map(self.decl, c["mem"])))
            for c in self.cls:
                o += "struct %s: public %s_b, public Mix<%s > {\n  static int typeId() {return %d;}\n};\n" % (c["name"], c["name"], c["name"], c["id"])
        else:
            o += """template <class T, class S=Base> struct Obj: public S {
  %s
  Obj* clone() const {return new T(*static_cast<const T*>(this));}
  void pack(classdesc::pack_t& x, const classdesc::string& d) const {::pack(x,d,static_cast<const T&>(*this));}
  void unpack(classdesc::unpack_t& x, const classdesc::string& d) {::unpack(x,d,static_cast<T&>(*this));}
  void xml_pack(classdesc::xml_pack_t& x, const classdesc::string& d) const {classdesc_access::access_xml_pack<T>()(x,d,const_cast<T&>(static_cast<const T&>(*this)));}
  void xml_unpack(classdesc::xml_unpack_t& x, const classdesc::string& d) {::xml_unpack(x,d,static_cast<T&>(*this));}
};
""" % ty
            for c in self.cls:
                b = c["base"]
                o += "struct %s: public Obj<%s%s> {\n%s%s  static int typeId() {return %d;}\n};\n" % (
                    c["name"], c["name"], "," + b["name"] if b else "", self.ctor(c["name"], c["mem"]), "".join(map(self.decl, c["mem"])), c["id"])
        return o + "#endif\n"

    def chain(self, c):
        r = []
        while c:
            r.insert(0, c)
            c = c["base"]
        return r

    def ops(self):
        o = "static const unsigned NCLS=%d;\ninline Base* mk(unsigned i) {switch(i) {" % len(self.cls)
        for i, c in enumerate(self.cls):
            o += "case %d: return new %s; " % (i, c["name"])
        o += "} return 0;}\ninline const std::type_info& ti(unsigned i) {switch(i) {"
        for i, c in enumerate(self.cls):
            o += "case %d: return typeid(%s); " % (i, c["name"])
        o += "} return typeid(void);}\n"
        for i, c in enumerate(self.cls):
            o += "inline void genC(Rng& r, %s& x) {\n" % c["name"]
            for b in self.chain(c):
                for n, k in b["mem"]:
                    o += "  gen_%s(r,x.%s);\n" % (k, n)
            o += "}\ninline void showC(std::ostream& o, %s& x) {o<<\"%s{\";\n" % (c["name"], c["name"])
            for b in self.chain(c):
                for n, k in b["mem"]:
                    o += "  o<<\"%s=\"; show_%s(o,x.%s); o<<\";\";\n" % (n, k, n)
            o += "  o<<\"}\";}\n"
        o += "inline void genDyn(Rng& r, Base& b) {\n"
        for i, c in enumerate(self.cls):
            o += "  if (typeid(b)==typeid(%s)) {genC(r,dynamic_cast<%s&>(b)); return;}\n" % (c["name"], c["name"])
        o += "}\ninline void showDyn(std::ostream& o, Base& b) {\n"
        for i, c in enumerate(self.cls):
            o += "  if (typeid(b)==typeid(%s)) {showC(o,dynamic_cast<%s&>(b)); return;}\n" % (c["name"], c["name"])
        o += "  o<<\"unknown dynamic type \"<<typeid(b).name();}\n"
        # expected key of each class
        if self.style != "object":
            o += "inline std::string keyText(unsigned i) {static const char* k[]={%s}; return k[i];}\n" % ",".join(
                '"%s"' % ("::" + c["name"] if self.key == "string" else c["id"]) for c in self.cls)
            K = {"string": "std::string", "int": "int", "enum": "Kind"}[self.key]
            o += "namespace classdesc {template <> Factory<Base,%s >::Factory() {" % K
            for i, c in enumerate(self.cls):
                if i % 2:
                    o += "registerType<%s>(); " % c["name"]
            o += "}}\ntypedef classdesc::Factory<Base,%s > Fact; typedef %s Key;\ninline Fact& fact() {static Fact f; return f;}\n" % (K, K)
            o += "inline void registerRest() {"
            for i, c in enumerate(self.cls):
                if i % 2 == 0:
                    o += "fact().registerType<%s>(); " % c["name"]
            o += "}\ninline Key key(unsigned i) {static const Key k[]={%s}; return k[i];}\n" % ",".join(
                {"string": '"::%s"' % c["name"], "int": str(c["id"]), "enum": "K_" + c["name"]}[self.key] for c in self.cls)
            o += "inline Key badKey(Rng& r) {%s}\n" % {
                "string": 'static const char* k[]={"","C","C99","c0","C0 ","Base"}; return k[r.below(6)];',
                "int": "static const int k[]={-1,1000,2147483647,-2147483647-1}; return k[r.below(4)];",
                "enum": "return r.coin()? K_unused: K_none;"}[self.key]
            o += "inline Base* Base::create(const Key& k) {return fact().create(k);}\n"
        return o
