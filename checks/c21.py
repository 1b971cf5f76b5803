#!/usr/bin/env python3
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt

# spelling of an argument type (with the placeholder for a declared name left out)
ARGS = ["int", "bool", "char", "unsigned char", "long", "unsigned", "float", "double", "long double", "E", "S", "Inc&", "const Inc&", "Inc*", "const Inc*",
        "Q<int>", "Q<Q<char> >", "S::Nest", "int&", "const int&", "int*", "const int*", "int**", "const int* const&", "char*", "const char*", "void*", "const void*",
        "std::string", "const std::string&", "std::string&", "const std::string*", "std::vector<int>", "const std::vector<std::string>&", "std::map<int,std::string>",
        "FnP", "MemP", "MemF", "Arr&", "const Arr&", "volatile int*", "S&", "const S&", "S*", "E&", "std::pair<int,E>"]
ARGS11 = ["int&&", "S&&", "std::string&&", "std::shared_ptr<S>", "const std::shared_ptr<S>&", "std::function<int(S)>", "EC", "std::unique_ptr<S>"]
RETS = [a for a in ARGS] + ["void"] * 12 + ["int"] * 4
CLASSES = ["S", "Inc", "Q<int>", "Q<Inc>", "S::Nest", "ns::S"]
PRE = r"""#include <string>
#include <vector>
#include <map>
#include <stdio.h>
#include <memory>
#include "function.h"
#include "classdesc_epilogue.h"
using namespace classdesc::functional;
enum E {e0,e1}; struct Inc; template <class T> struct Q {T* q;}; struct S {int x; struct Nest {int y;}; }; namespace ns {struct S {int z;};}
typedef int (*FnP)(char,double); typedef int S::*MemP; typedef int (S::*MemF)(int) const; typedef int Arr[5];
#if __cplusplus>=201103L
enum class EC: char {c0};
#endif
template <class T, class U> struct Same {static const bool value=false;}; template <class T> struct Same<T,T> {static const bool value=true;};
template <class T> struct Plain {static const bool value=true;}; template <class T> struct Plain<T&> {static const bool value=false;};
#if __cplusplus>=201103L
template <class T> struct Plain<T&&> {static const bool value=false;};
#endif
long n=0; void say(int k, const char* what, bool ok) {++n; if (!ok) printf("V\t%d\t%s\n",k,what);}
#define IS(k,what,T,U) say(k,what,Same<T,U>::value)
"""


def sig(r, std, top):
    pool = ARGS + (ARGS11 if std != "98" else [])
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 13, 16, 18, 19, 20]) if r.random() < .8 else r.randint(0, top)
    return r.choice(RETS), [r.choice(pool) for _ in range(n)]


def body(c):
    c.prepare(regenerate_functiondb=True)
    per = c.scale(60, 160)
    modes = [("98", ""), ("11", ""), ("14", ""), ("17", ""), ("11", "-DUSE_UNROLLED"), ("17", "-DUSE_UNROLLED"), ("20", "")]
    jobs = [(i, s, u) for i in range(c.scale(int(os.environ.get("HN", 2)), 12)) for s, u in modes]

    def one(j):
        i, std, unr = j
        r = random.Random("%d c21 %s %s %d" % (c.seed, std, unr, i))
        variadic = std != "98" and not unr
        top = 26 if variadic else 20
        out, desc = [PRE], {}
        # every arity is met
        sigs = [sig(r, std, top) for _ in range(per)]
        have = {len(a) for _, a in sigs}
        sigs += [(r.choice(RETS), [r.choice(ARGS) for _ in range(n)]) for n in range(top + 1) if n not in have]
        calls = []
        for k, (ret, args) in enumerate(sigs):
            kinds = ["ptr", "mem", "cmem", "bound", "cbound", "dmp"] + (["ptr-ne", "mem-ne", "cmem-ne", "dmp-ne"] if std in ("17", "20") else []) + (["fn", "std", "fn-ne", "curry"] if variadic else [])
            kind = r.choice(kinds)
            if kind == "fn-ne" and std not in ("17", "20"):
                kind = "fn"
            cls = r.choice(CLASSES)
            al = ",".join(args)
            ne = " noexcept" if kind.endswith("-ne") else ""
            base = kind.replace("-ne", "")
            if base == "bound" or base == "cbound":
                q = " const" if base == "cbound" else ""
                ne = r.choice(["", " noexcept"]) if std in ("17", "20") else ""
                decl = "typedef %s (%s::*M%d)(%s)%s%s; typedef bound_method<%s%s,M%d> F%d;" % (ret, cls, k, al, q, ne, r.choice(["const ", ""]) if q else "", cls, k, k)
            elif base == "ptr":
                decl = "typedef %s (*F%d)(%s)%s;" % (ret, k, al, ne)
            elif base == "mem":
                decl = "typedef %s (%s::*F%d)(%s)%s;" % (ret, cls, k, al, ne)
            elif base == "cmem":
                decl = "typedef %s (%s::*F%d)(%s) const%s;" % (ret, cls, k, al, ne)
            elif base == "dmp":
                decl = "typedef %s (*%s::*F%d)(%s)%s;" % (ret, cls, k, al, ne)
            elif base == "curry":
                args = args or ["int"]
                decl = "typedef %s (*M%d)(%s); typedef CurryFirst<M%d> F%d;" % (ret, k, ",".join(args), k, k)
                args = args[1:]
            elif base == "fn":
                decl = "typedef %s F%d(%s)%s;" % (ret, k, al, ne)
            else:
                decl = "typedef std::function<%s(%s)> F%d;" % (ret, al, k)
            desc[k] = "%s   // C++%s %s" % (decl, std, unr)
            out.append(decl)
            f = ["static void check%d() {" % k]
            F = "F%d" % k
            f.append(" say(%d,\"arity\",int(Arity<%s>::V)==%d && int(Arity<%s>::value)==%d);" % (k, F, len(args), F, len(args)))
            f.append(" IS(%d,\"return type\",Return<%s>::T,%s); IS(%d,\"return type\",Return<%s>::type,%s);" % (k, F, ret, k, F, ret))
            if base != "dmp" or variadic:
                for n, a in enumerate(args):
                    f.append(" {typedef %s A; IS(%d,\"argument %d\",Arg<%s VIR %d>::T,A); IS(%d,\"argument %d\",Arg<%s VIR %d>::type,A);}".replace("VIR", "COMMA") % (a, k, n + 1, F, n + 1, k, n + 1, F, n + 1))
                plain = all(not a.endswith("&") for a in args)
                f.append(" say(%d,\"AllArgs\",AllArgs<%s,Plain>::value==%s);" % (k, F, "true" if plain else "false"))
            if base in ("ptr", "mem", "cmem"):
                m, nm, cm = base != "ptr", base == "ptr", base == "cmem"
                for w, t, v in (("is_member_function_ptr", "is_member_function_ptr", m), ("is_nonmember_function_ptr", "is_nonmember_function_ptr", nm), ("is_const_method", "is_const_method", cm), ("is_function", "classdesc::functional::is_function", True)):
                    f.append(" say(%d,\"%s\",%s<%s>::value==%s);" % (k, w, t, F, "true" if v else "false"))
                f.append(" IS(%d,\"class\",ClassOf<%s>::T,%s); IS(%d,\"class\",ClassOf<%s>::type,%s);" % (k, F, F if base == "ptr" else cls, k, F, F if base == "ptr" else cls))
            if base == "dmp":
                f.append(" IS(%d,\"class\",ClassOf<%s>::T,%s);" % (k, F, cls))
            f.append("}")
            out.append("\n".join(f))
            calls.append("check%d();" % k)
            c.distinct("%s/%d/%s/%s%s" % (kind, len(args), ret == "void", std, unr))
        # types that are not functions
        k = len(sigs)
        for t in ("int", "S", "S*", "void*", "int S::*", "Q<int>", "FnP*", "const Q<Inc>", "Arr"):
            desc[k] = "typedef %s F;" % t
            out.append("typedef %s N%d; static void check%d() {" % (t, k, k) + "".join(" say(%d,\"%s\",!%s<N%d>::value);" % (k, w.split("::")[-1], w, k) for w in ("is_member_function_ptr", "is_nonmember_function_ptr", "is_const_method", "classdesc::functional::is_function")) + "}")
            calls.append("check%d();" % k)
            k += 1
        out.append("typedef std::vector<int> S::*OB; static void checkOB() {IS(%d,\"return type\",Return<OB>::T,std::vector<int>); IS(%d,\"class\",ClassOf<OB>::T,S);%s}" % (k, k, " say(%d,\"arity\",Arity<OB>::V==0);" % k if variadic else ""))
        desc[k] = "typedef std::vector<int> S::*OB;"
        out.append("int main() {%s checkOB(); printf(\"END\\t%%ld\\n\",n); return 0;}" % " ".join(calls))
        d = os.path.join(c.work, "f%d-%s%s" % (i, std, "u" if unr else ""))
        os.makedirs(d)
        src = os.path.join(d, "traits.cc")
        open(src, "w").write("\n".join(out).replace(" COMMA ", " ,"). replace("IS(k,what,T,U) say(k,what,Same<T,U>::value)", "IS(k,what,...) say(k,what,Same<__VA_ARGS__>::value)"))
        exe = os.path.join(d, "t")
        if not c.compile_or_violate("traits:%s%s" % (std, unr), exe, [src], std="gnu++" + std if std == "98" else "c++" + std, libs=(), san=False, flags=["-O0"] + ([unr] if unr else [])):
            return
        o = c.sh([exe])
        end = [l for l in o.out.splitlines() if l.startswith("END")]
        if o.rc or not end:
            return c.violation("run:" + vrt.crash_key(o.rc, o.err, c.src), o.err[:2000], [src])
        c.count("traits", int(end[0].split("\t")[1]))
        c.count("signatures", len(sigs))
        for l in o.out.splitlines():
            if l.startswith("V\t"):
                _, kk, what = l.split("\t")
                t = desc[int(kk)]
                kind = "bound" if "bound_method" in t else "curried" if "Curry" in t else "data member" if "(*" in t and "::*F" in t else "noexcept " * ("noexcept" in t) + ("method" if "::*" in t else "function")
                c.violation("wrong:%s:%s%s:%s" % (kind, std, unr, what), "%s is not that of %s" % (what, t), [src])
        c.sample(desc[0])
        c.count("programs")
    c.pmap(one, jobs)


vrt.main("C21", body, "random function, member function (const, noexcept) and bound method types of every arity, in 7 language modes, their traits compared with the type they were made from; distinct = distinct kind, arity, void or not, language mode", evaluations="traits")
