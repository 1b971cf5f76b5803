#!/usr/bin/env python3
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt

VALS = ["int", "bool", "char", "unsigned char", "short", "long", "double", "float", "E", "Pt", "std::string", "std::vector<int>", "std::vector<std::string>"]


def body(c):
    c.prepare(regenerate_functiondb=True)
    per = c.scale(26, 60)
    modes = [("98", ""), ("11", ""), ("14", ""), ("17", ""), ("20", ""), ("11", "-DUSE_UNROLLED"), ("17", "-DUSE_UNROLLED")]
    jobs = [(i, s, u) for i in range(c.scale(int(os.environ.get("HN", 2)), 16)) for s, u in modes]
    c.pmap(lambda j: program(c, per, *j), jobs)


def program(c, per, i, std, unr):
    r = random.Random("%d c22 %s %s %d" % (c.seed, std, unr, i))
    var = std != "98" and not unr
    top, main, desc = [], [], {}
    d = os.path.join(c.work, "p%d-%s%s" % (i, std, "u" if unr else ""))
    for k in range(per):
        target(c, r, std, var, k, top, main, desc)
    src = os.path.join(d, "calls.cc")
    os.makedirs(d)
    code = ["#include \"c22.h\"", "#include \"classdesc_epilogue.h\"", "struct Obj {", "  int tag;"]
    code += ["  " + t for t in top if t.startswith("/*m*/")] + ["};"] + [t for t in top if not t.startswith("/*m*/")]
    for n, b in enumerate(main):
        code.append("static void t%d() {\n%s\n}" % (n, b))
    code.append("int main() {\n%s\n printf(\"END\\t%%ld\\t%%ld\\n\",ncases,ncalls);\n return 0;\n}" % "\n".join(" t%d();" % n for n in range(len(main))))
    open(src, "w").write("\n".join(code) + "\n")
    exe = os.path.join(d, "t")
    if not c.compile_or_violate("calls:%s%s" % (std, unr), exe, [src, os.path.join(c.src, "xdr_pack.cc")], std=("gnu++" if std == "98" else "c++") + std, flags=["-O0"] + ([unr] if unr else [])):
        return
    o = c.sh([exe], timeout=120)
    end = [l for l in o.out.splitlines() if l.startswith("END")]
    for l in o.out.splitlines():
        if l.startswith("V\t"):
            _, kk, form, what = l.split("\t")[:4]
            key = "".join(ch for ch in what.split("\"")[0].split(" is ")[0] if not ch.isdigit()).strip()
            c.violation("%s:%s%s:%s" % (form, std if not var else "variadic", unr, key), "%s of %s (C++%s %s): %s" % (form, desc[int(kk)], std, unr, what), [src])
    if o.rc or not end:
        return c.violation("run:" + vrt.crash_key(o.rc, o.err, c.src), o.err[:2500], [src])
    c.count("cases", int(end[0].split("\t")[1]))
    c.count("recorded_calls", int(end[0].split("\t")[2]))
    c.sample(desc[0])
    c.count("programs")


def target(c, r, std, var, k, top, main, desc):
    kind = r.choice(["fn", "fn", "mem", "cmem", "mem", "cmem"])
    n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 9, 14, 20]) if r.random() < .85 else r.randint(0, 20)
    lref = r.random() < .2  # some non-const references
    args = []
    for _ in range(n):
        t = r.choice(VALS)
        m = r.random()
        args.append((t, "%s&" % t if lref and m < .4 else "const %s&" % t if m > .65 else t))
    if var and n and not lref and kind == "fn" and r.random() < .2:
        args[r.randrange(n)] = ("std::string", "const char*")
    lref = any(a.endswith("&") and not a.startswith("const") for _, a in args)
    cstr = any(a == "const char*" for _, a in args)
    ret = "void" if r.random() < .3 else r.choice(VALS + (["std::unique_ptr<int>"] if var else []))
    isref = ret != "void" and "unique" not in ret and r.random() < .15
    R = ret + "&" if isref else ret
    ne = ""
    par = ",".join("%s a%d" % (a, j) for j, (_, a) in enumerate(args))
    work = "{Call q(%d,%s); %s q.end(); %s}" % (k, "this" if kind != "fn" else "0", " ".join("q.arg(a%d);" % j for j in range(n)), "" if ret == "void" else "return Result<%s >::of(%d);" % (R, k))
    if kind == "fn":
        top.append("static %s f%d(%s) %s" % (R, k, par, work))
        f = r.choice(["&f%d", "f%d"]) % k if False else "&f%d" % k
    else:
        top.append("/*m*/%s m%d(%s)%s %s" % (R, k, par, " const" if kind == "cmem" else "", work))
        f = "&Obj::m%d" % k
    desc[k] = "%s (%s)(%s)%s" % (R, "*" if kind == "fn" else "Obj::*", ",".join(a for _, a in args), " const" if kind == "cmem" else "")
    seeds = [r.randrange(1 << 30) for _ in args]
    pre = ["  Obj o[3]; o[0].tag=o[1].tag=o[2].tag=1; const Obj& co=o[0]; (void)co;"]
    pre.append("  Vals vals; %s" % " ".join("vals.s.push_back(%du);" % s for s in seeds))
    for j, ((t, a), s) in enumerate(zip(args, seeds)):
        pre.append("  %s v%d=make<%s >(%du);" % (t, j, t, s))
    pass_ = ",".join("v%d%s" % (j, ".c_str()" if a == "const char*" else "") for j, (_, a) in enumerate(args))
    pk = "".join("<<v%d" % j for j in range(n))
    out = ["\n".join(pre)]
    dec = "" if ret == "void" else "%s r=" % R
    end = "" if ret == "void" else (" q.same(r);" if isref else " q.ret(r);")

    def case(form, stmt, obj="0", at=False, refused=False, twice=False):
        c.distinct("%s/%s/%d/%s/%s/%s/%s" % (form, kind, n, R, "lref" if lref else "", std, var))
        want = " ".join("q.want.push_back(show(v%d));" % j for j in range(n))
        ats = " ".join("q.at.push_back(%s);" % ("&v%d" % j if at and a.endswith("&") and (at == "all" or not a.startswith("const")) else "0") for j, (_, a) in enumerate(args)) if at else ""
        if refused:
            out.append("  {Case q(%d,\"%s\",%s,false); q.refused=true; try {%s q.bad(\"neither refused nor right\");} catch (const std::runtime_error&) {} q.end();}" % (k, form, obj, stmt))
            return
        out.append("  {Case q(%d,\"%s\",%s,false); %s %s %s q.end();}" % (k, form, obj, want, ats, stmt))
        out.append("  {Case q(%d,\"%s throwing\",%s,true); %s %s try {%s q.bad(\"exception lost\");} catch (const Boom& b) {if (b.k!=%d) q.bad(\"another exception\");} q.end();}" % (k, form, obj, want, ats, stmt.replace("q.ret(r)", "(void)r").replace("q.same(r)", "(void)r"), k))

    def call(F, form, obj="0", noapply=False):
        """every way of calling F, a callable that needs no object"""
        # C++98 cannot tell whether classes may be copied
        if not lref and not isref and not cstr and (std != "98" or all(t in VALS[:9] for t, _ in args)):
            if ret == "void":
                case("apply " + form, "apply(%s,%s,vals);" % (r.choice(["NULL", "(void*)0", "(int*)0"]) if False else "(void*)0", F), obj)
            else:
                case("apply " + form, "%s r=init<%s >(); apply(&r,%s,vals); q.ret(r);" % (ret, ret, F), obj)
        ok = not lref if var else True
        if ok:
            case("callOnBuffer " + form, "classdesc::pack_t b; b%s; %scallOnBuffer(b,%s);%s if (b.pos()!=b.size()) q.bad(\"arguments left in the buffer\");" % (pk, dec, F, end) if n else "classdesc::pack_t b; %scallOnBuffer(b,%s);%s" % (dec, F, end), obj)
            case("PackFunctor " + form, "PackFunctor<classdesc::pack_t> b; %s %sb.call(%s);%s" % ("b%s;" % pk if n else "", dec, F, end), obj)
        if var and ok and n and not cstr:
            case("PackFunctor::pack " + form, "PackFunctor<classdesc::pack_t> b; b.pack(%s); %sb.call(%s);%s" % (pass_, dec, F, end), obj)
            if kind == "fn":
                case("PackFunctor::pack<F> " + form, "PackFunctor<classdesc::pack_t> b; b.pack<decltype(%s)>(%s); %sb.call(%s);%s" % (r.choice(["f%d", "&f%d"]) % k, pass_, dec, F, end), obj)
        if var and n and kind == "fn":
            # a curried function may be called again and again
            case("CurryFirst " + form, "typedef %s; A1 a(v0%s); CurryFirst<decltype(%s)> g(%s,a); %sg(%s);%s %s" % ("%s" % ("const char* A1" if args[0][1] == "const char*" else args[0][1] + " A1"), ".c_str()" if args[0][1] == "const char*" else "", F, F, dec, refs(args, 1), end, ""), obj) if not any(a.endswith("&") and not a.startswith("const") for _, a in args[1:]) else None
            if not any(a.endswith("&") and not a.startswith("const") for _, a in args[1:]):
                out.append("  {Case q(%d,\"CurryFirst again\",0,false); %s typedef %s A1; A1 a(v0%s); CurryFirst<decltype(%s)> g(%s,a); g(%s); if (calls.size()==1) calls.clear(); g(%s); q.end();}" % (
                    k, " ".join("q.want.push_back(show(v%d));" % j for j in range(n)), args[0][1], ".c_str()" if args[0][1] == "const char*" else "", F, F, refs(args, 1), refs(args, 1)))

    def refs(args, start):
        return ",".join("v%d%s" % (j, ".c_str()" if args[j][1] == "const char*" else "") for j in range(start, len(args)))

    if kind == "fn":
        call(f, "function")
        # functional objects of the user's need only Arity, Return and Arg
        if not lref and not isref and not cstr and (std != "98" or all(t in VALS[:9] for t, _ in args)):
            top.append("struct G%d {%s operator()(%s) const {return f%d(%s);}};" % (k, R, par, k, ",".join("a%d" % j for j in range(n))))
            top.append("namespace classdesc {namespace functional {template <> struct Arity<G%d> {static const int V=%d, value=%d;}; template <> struct Return<G%d> {typedef %s T; typedef T type;}; %s}}" % (
                k, n, n, k, R, " ".join("template <> struct Arg<G%d,%d> {typedef %s T; typedef T type;};" % (k, j + 1, a) for j, (_, a) in enumerate(args))))
            case("apply functor", "apply((void*)0,G%d(),vals);" % k if ret == "void" else "%s r=init<%s >(); apply(&r,G%d(),vals); q.ret(r);" % (ret, ret, k))
    else:
        b = "bindMethod(o[1],%s)" % f
        call(b, "method", "&o[1]")
        okArgs = not lref if var else True
        # called directly; references reach the target where they are supported at all
        if okArgs:
            case("bound method", "%s%s(%s);%s" % (dec, b, pass_, end), "&o[1]", at=False if var else "all")
        else:
            case("unacceptable arguments", "%s%s(%s); (void)0;" % (dec, b, pass_), "&o[1]", refused=True)
        if okArgs and (var or kind == "mem"):
            case("rebound method", "bound_method<Obj,%s> m(o[0],%s); m.rebind(o[2]); %sm(%s);%s" % ("M", f, dec, pass_, end), "&o[2]")
            out[-2] = out[-2].replace("{Case", "{typedef %s (Obj::*M)(%s)%s; Case" % (R, ",".join(a for _, a in args), " const" if kind == "cmem" else ""), 1)
            out[-1] = out[-1].replace("{Case", "{typedef %s (Obj::*M)(%s)%s; Case" % (R, ",".join(a for _, a in args), " const" if kind == "cmem" else ""), 1)
        if kind == "cmem" and okArgs:
            case("const object", "%sbindMethod(co,%s)(%s);%s" % (dec, f, pass_, end), "&o[0]")
        elif kind == "mem":
            case("const object, mutable method", "%sbindMethod(co,%s)(%s); (void)0;" % (dec, f, pass_), "&o[0]", refused=True)
    main.append("\n".join(out))


vrt.main("C22", body, "random functions and methods that record every call, reached through apply, bound methods, rebinding, currying and buffers, arity 0 to 20, in 7 language modes, normal and throwing; distinct = distinct form, kind, arity, return type, language mode", evaluations="cases")
