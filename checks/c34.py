#!/usr/bin/env python3
import collections, glob, os, random, re, shutil, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt

JH = "/usr/lib/jvm/java-17-openjdk-amd64"
JB = [f for f in vrt.BASE if f != "-DXDR_PACK"]
INC = [JH + "/include", JH + "/include/linux"]
HN = os.path.join(vrt.VERIF, "harness")


# ------------------------------------------------ an independent reader of class files
def fnv(b):
    h = 1469598103
    for x in b:
        h = ((h ^ x) * 16777619) & 0xffffffff
    return h


def parse(b):
    p = [0]

    def u(n):
        v = int.from_bytes(b[p[0]:p[0] + n], "big")
        p[0] += n
        return v
    out = []
    magic, minor, major, n = u(4), u(2), u(2), u(2)
    cp = {}
    i = 1
    lines = []
    while i < n:
        t = u(1)
        if t == 1:
            l = u(2)
            s = b[p[0]:p[0] + l]
            p[0] += l
            cp[i] = s
            lines.append("cp %d 1 %d %x" % (i, l, fnv(s)))
        elif t in (3, 4):
            lines.append("cp %d %d %d" % (i, t, u(4)))
        elif t in (5, 6):
            lines.append("cp %d %d %d" % (i, t, u(8)))
            i += 1
        elif t in (7, 8):
            cp[i] = u(2)
            lines.append("cp %d %d %d" % (i, t, cp[i]))
        elif t in (9, 10, 11, 12):
            lines.append("cp %d %d %d %d" % (i, t, u(2), u(2)))
        else:
            u({15: 3, 16: 2, 17: 4, 18: 4, 19: 2, 20: 2}[t])
            lines.append("cp %d %d -" % (i, t))
        i += 1
    acc, this, sup = u(2), u(2), u(2)
    out.append("head %x %d %d %d %d %d %d" % (magic, minor, major, n, acc, this, sup))
    out += lines
    for _ in range(u(2)):
        out.append("interface %d" % u(2))

    def attrs(w):
        for _ in range(u(2)):
            nm, l = u(2), u(4)
            out.append("%s attr %d %d %x" % (w, nm, l, fnv(b[p[0]:p[0] + l])))
            p[0] += l

    def membs(w):
        for _ in range(u(2)):
            out.append("%s %d %d %d" % (w, u(2), u(2), u(2)))
            attrs(w)
    membs("field")
    membs("method")
    attrs("class")
    assert p[0] == len(b), (p[0], len(b))
    return out


# ------------------------------------------------ Java sources with every kind of constant
def java_source(r, name):
    ints = [0, 1, -1, 127, -128, 32767, -32768, 65535, 65536, 2147483647, -2147483648, 305419896, -559038737]
    longs = ["0L", "-1L", "9223372036854775807L", "-9223372036854775808L", "0x8000000080000000L", "0x00000000ffffffffL", "0xfedcba9876543210L", "128L"]
    dbl = ["0.1", "-0.0", "1e308", "5e-324", "Double.NaN", "Double.NEGATIVE_INFINITY", "-1.5"]
    flt = ["0.1f", "-3.25f", "1e38f", "1e-45f", "Float.NaN"]
    strs = ['""', '"a"', '"\\u0000x"', '"\\u00e9\\u4e2d\\ud83d\\ude00"', '"' + "x" * r.choice([127, 128, 255, 256, 1000, 33000, 65534]) + '"', '"\\"\\n"']
    o = ["import java.util.*; import java.util.function.*;"]
    o.append("@Deprecated public %sclass %s%s {" % (r.choice(["", "final "]), name, r.choice(["", " implements Runnable, Comparable<%s>" % name])))
    impl = "implements" in o[-1]
    for i in range(r.randint(0, 12)):
        t, vs = r.choice([("int", [str(x) for x in ints]), ("long", longs), ("double", dbl), ("float", flt), ("String", strs), ("byte", ["1", "-128"]), ("char", ["'a'", "'\\uffff'"]), ("boolean", ["true"]), ("short", ["-300"])])
        o.append("%s %s f%d = %s;" % (r.choice(["public static final", "private static final", "protected", "static volatile", "transient", "public final"]), t, i, r.choice(vs)))
    for i in range(r.randint(0, 8)):
        k = r.randrange(9)
        if k == 0:
            o.append("public long m%d(long a, double b) {return a + (long)b + %s;}" % (i, r.choice(longs)))
        elif k == 1:
            o.append("public Supplier<String> m%d(int x) {return () -> \"v\" + x + %s;}" % (i, r.choice(strs[:4])))
        elif k == 2:
            o.append("static int m%d(String s) {switch (s) {case \"a\": return 1; case \"bb\": return 2; default: return s.length();}}" % i)
        elif k == 3:
            o.append("int m%d(int n) {try {int[][] a = new int[n][3]; for (int i=0; i<n; i++) a[i][0]=i*%d; return a[0][0];} catch (RuntimeException e) {return 1;} finally {System.gc();}}" % (i, r.choice(ints[:-1])))
        elif k == 4:
            o.append("@SafeVarargs public static <T extends Comparable<T>> T m%d(T... x) {return x[0];}" % i)
        elif k == 5:
            o.append("native void m%d(byte a, char b, short c, float d, boolean[] e, String[][] f);" % i)
        elif k == 6:
            o.append("Function<Integer,Integer> m%d = Math::abs;" % i)
        elif k == 7:
            o.append("synchronized strictfp double m%d() {class Loc {double d=%s;} return new Loc().d;}" % (i, r.choice(dbl)))
        else:
            o.append("record R%d(int a, List<String> b) {} enum E%d {A, B {int q() {return 2;}}; int q() {return 1;}} interface I%d {default int z() {return 1;}} sealed interface S%d permits P%d {} record P%d(long q) implements S%d {}" % ((i,) * 7))
    if impl:
        o.append("public void run() {} public int compareTo(%s o) {return 0;}" % name)
    o.append("}")
    return "\n".join(o)


# ------------------------------------------------ C++ classes for compileClass
RET = {"void": "V", "bool": "Z", "char": "B", "short": "S", "int": "I", "unsigned": "I", "long": "J", "unsigned long": "J", "long long": "J", "unsigned long long": "J", "float": "F", "double": "D"}
ARG = {"int": "I", "float": "F", "double": "D"}
JWORDS = "abstract final import package native super byte boolean".split()


def cpp_class(r, name, std):
    """(text, expected Counter of 'name descriptor')"""
    exp = collections.Counter()
    used = set(["auto"])

    def nm():
        while True:
            n = r.choice(["x", "val", "aB", "Cap", "_u", "m", "get", "set", "q_", "longName", "i", "z9"] + ([r.choice(JWORDS)] if r.random() < .1 else []))
            if r.random() < .7:
                n += r.choice(["", "1", "_2", "Q", "value", "_"])
            if r.random() < .03:
                n += "w" * r.choice([120, 300])
            c = n[0].upper() + n[1:]
            if not {n, c, "get" + c, "set" + c} & used:
                used.update({n, c, "get" + c, "set" + c, n[0].lower() + n[1:]})
                return n
    def acc(n, d):
        c = n[0].upper() + n[1:]
        exp["%s (%s)%s" % (n, d, d)] += 1
        exp["get%s ()%s" % (c, d)] += 1
        exp["set%s (%s)V" % (c, d)] += 1

    def body(depth, cn):
        o = []
        hidden = False
        for _ in range(r.choice([0, 1, 2, 3, 6, 12] + ([60] if r.random() < .1 else []))):
            k = r.random()
            if k < .12:
                hidden = not hidden
                o.append(r.choice(["private:", "protected:"]) if hidden else "public:")
            n = nm()
            if k < .5:
                t = r.choice([x for x in RET if x != "void"])
                o.append("%s%s %s;" % (r.choice(["", "", "", "volatile "]) if False else "", t, n))
                if not hidden:
                    acc(n, RET[t])
            elif k < .55:
                o.append("static const int %s=%d;" % (n, r.randint(-5, 99)))
                if not hidden:
                    acc(n, "I")
            elif k < .60:
                o.append("enum E%s {e%s1, e%s2=%d}; E%s %s;" % (n, n, n, r.randint(2, 300), n, n))
                if not hidden:
                    acc(n, "I")
            else:
                t = r.choice(list(RET))
                args = [r.choice(list(ARG)) for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5, 9]))]
                o.append("%s%s %s(%s)%s {%s}" % (r.choice(["", "", "", "inline ", "virtual "]), t, n,
                         ", ".join(a + (" p%d" % i if r.random() < .5 else "") for i, a in enumerate(args)), r.choice(["", " const"]), "" if t == "void" else "return %s();" % t.split()[0] if " " not in t else "return 0;"))
                if not hidden:
                    exp["%s (%s)%s" % (n, "".join(ARG[a] for a in args), RET[t])] += 1
        return " ".join(o)
    txt = "#ifndef H_%s\n#define H_%s\n" % (name, name)
    base = []
    for i in range(r.choice([0, 0, 0, 1, 2])):
        b = "%sB%d" % (name, i)
        txt += "struct %s {\n%s\n};\n" % (b, body(1, b))
        base.append("public " + b)
    txt += "struct %s%s {\n%s\n};\n#endif\n" % (name, ": " + ", ".join(base) if base else "", body(0, name))
    exp["auto ()V"] += 1
    return txt, exp


def body(c):
    src = c.prepare()
    jd = os.path.join(c.work, "java")
    os.makedirs(jd)
    for f in glob.glob(os.path.join(vrt.REPO, "java", "*")):
        if f.endswith((".cc", ".h", ".java")):
            shutil.copyfile(f, os.path.join(jd, os.path.basename(f)))
    cd = ""
    for a in (["pack", "unpack"], ["-respect_private", "dump", "javaClass"]):
        r = c.sh([src + "/classdesc", "-I", src, "-nodef", "-i", src + "/javaClass.h"] + a, cwd=src)
        if r.rc:
            return c.violation("build:javaClass.cd", r.err[-1500:])
        cd += r.out
    open(os.path.join(c.work, "javaClass.cd"), "w").write(cd)
    INCS = INC + [jd]
    FL = ["-fPIC", "-Wl,--export-dynamic"]
    # --- builds
    exe = {}

    def build(j):
        what, std = j
        out = os.path.join(c.work, what + "-" + std)
        if what == "rtplain":
            ok = c.compile_or_violate("rt:" + std, out, [HN + "/c34rt.cc"], std=std, base=JB, incs=INCS, san=False)
        elif what == "rt":
            ok = c.compile_or_violate("rt:" + std, out, [HN + "/c34rt.cc"], std=std, base=JB, incs=INCS)
        elif what == "compileClass":
            ok = c.compile_or_violate("compileClass:" + std, out, [jd + "/compileClass.cc"], std=std, base=JB, incs=INCS, san=False, flags=FL, libs=("-ldl",))
        else:
            out += ".o"
            ok = c.compile_or_violate("JNIEx:" + std, out, [jd + "/JNIEx.cc"], std=std, base=JB, incs=INCS, san=False, flags=["-fPIC", "-c"])
        if ok:
            exe[j] = out
    stds = c.scale(["gnu++98", "gnu++17"], ["gnu++98", "gnu++11", "gnu++17"])
    c.pmap(build, [(w, s) for s in stds for w in ("rt", "rtplain", "compileClass", "JNIEx")])
    if c.sh(["javac", "-d", c.work, HN + "/c34V.java", jd + "/CppObject.java"], timeout=300).rc:
        raise vrt.Inconclusive("javac")

    # --- A: class files read and written again
    cls = os.path.join(c.work, "cls")
    os.makedirs(cls)
    rng = random.Random("C34:%d" % c.seed)

    def corpus(k):
        d = os.path.join(c.work, "js%d" % k)
        os.makedirs(d + "/out")
        r = random.Random("C34j:%d:%d" % (c.seed, k))
        fs = []
        for i in range(c.scale(12, 40)):
            n = "K%d_%d" % (k, i)
            t = java_source(r, n)
            if k == 0 and i == 0:   # more constants than fit 15 bits
                t = "public class %s {%s}" % (n, " ".join("static final int q%d=%d;" % (j, 70000 + j) for j in range(16500)))
            open(d + "/%s.java" % n, "w").write(t)
            fs.append(d + "/%s.java" % n)
        x = c.sh(["javac", "-nowarn", "-Xlint:none", "-g" if k % 2 else "-g:none", "-parameters", "-d", d + "/out"] + (["--release", "8"] if False else []) + fs, timeout=600)
        if x.rc:
            raise vrt.Inconclusive("javac: " + x.err[:600])
        for f in sorted(glob.glob(d + "/out/*.class")):
            shutil.copyfile(f, os.path.join(cls, "g-" + os.path.basename(f)))
    c.pmap(corpus, range(c.scale(6, 24)))
    x = c.sh(["java", "-cp", c.work, "c34V", "sample", cls, str(c.seed), str(c.scale(3000, 27500))], timeout=600)
    if x.rc:
        raise vrt.Inconclusive("sample: " + x.err[:600])
    files = sorted(glob.glob(cls + "/*.class"))
    rng.shuffle(files)
    files.sort(key=lambda f: 0 if "/g-" in f else 1)

    def rt(j):
        std, k, part, prog = j
        if (prog, std) not in exe:
            return
        w = os.path.join(c.work, "rt-%s-%d.d" % (std, k))
        os.makedirs(w)
        rest = list(part)
        while rest and not c.enough():
            open(w + "/list", "w").write("\n".join(rest) + "\n")
            x = c.sh([exe[(prog, std)], w + "/list", w], timeout=600, env={"ASAN_OPTIONS": vrt.ENV["ASAN_OPTIONS"] + ":quarantine_size_mb=8"})
            got, cur = {}, None
            for l in x.out.splitlines():
                if l.startswith("FILE "):
                    cur = l[5:]
                    got[cur] = []
                elif cur and l != "DONE":
                    got[cur].append(l)
            done = x.out.endswith("DONE\n")
            for f, ls in got.items():
                if not done and f == cur:
                    continue
                b = open(f, "rb").read()
                exp = parse(b)
                c.count("class_files_read")
                c.count("checks")
                c.count("structure_lines_compared", len(exp))
                bad = [l for l in ls if l.startswith("BAD")]
                read = [l for l in ls if not l.startswith(("BAD", "OK"))]
                for l in exp:
                    if l.startswith("cp"):
                        c.distinct("tag" + l.split()[2])
                c.distinct("methods%d" % min(30, sum(1 for l in exp if re.match(r"method \d", l))))
                if bad:
                    c.violation("rewrite:" + re.sub(r"\d+", "N", bad[0][4:]), "\n".join(bad[:5]), files=[f])
                if read != exp and not any("exception" in l for l in bad):
                    i = next((i for i in range(min(len(read), len(exp))) if read[i] != exp[i]), min(len(read), len(exp)))
                    e = exp[i] if i < len(exp) else "(nothing)"
                    g = read[i] if i < len(read) else "(nothing)"
                    c.violation("read:" + " ".join(e.split()[0:1] + (e.split()[2:3] if e.startswith("cp") else [])), "line %d of the structure read is '%s', the file holds '%s'" % (i, g, e), files=[f])
            if done:
                break
            if x.timeout:
                raise vrt.Inconclusive("timeout")
            c.violation("read:crash:" + vrt.crash_key(x.rc, x.err, c.src), "rc %s reading %s\n%s" % (x.rc, cur, x.err[-3000:]), files=[cur] if cur else [])
            if cur not in rest:
                break
            rest = rest[rest.index(cur) + 1:]
    # the buffers grow in steps, and each is a new mapping under ASan: large files are left to the plain build
    big = [f for f in files if os.path.getsize(f) > c.scale(25000, 60000)]
    files = [f for f in files if f not in set(big)]
    g = [f for f in files if "/g-" in f]
    j = [f for f in files if "/g-" not in f]
    parts = [(stds[i % len(stds)], 100 + i, big[i::4], "rtplain") for i in range(4)]
    for k in range(8):
        for i, s in enumerate(stds):
            mine = g[k::8] + [f for q, f in enumerate(j[k::8]) if q % len(stds) == i]
            parts.append((s, k, mine, "rt"))
    c.pmap(rt, parts)

    # --- B: class files for C++ classes
    def gen(i):
        std = stds[i % len(stds)]
        if any((w, std) not in exe for w in ("compileClass", "JNIEx")):
            return
        r = random.Random("C34c:%d:%d" % (c.seed, i))
        d = os.path.join(c.work, "cpp%d" % i)
        os.makedirs(d)
        names, exps, cc = [], {}, ""
        for k in range(r.choice([1, 2, 3])):
            n = r.choice(["T%d", "Long_name_of_class%d", "x%d"]) % k
            t, e = cpp_class(r, n, std)
            open(d + "/%s.h" % n, "w").write(t)
            names.append(n)
            exps[n] = e
        cdf = ""
        for n in names:
            x = c.sh([src + "/classdesc", "-nodef", "-respect_private", "-i", d + "/%s.h" % n, "javaClass"], cwd=d)
            if x.rc:
                return c.violation("javaClass:processor", x.err[-1000:], files=[d + "/%s.h" % n])
            cdf += x.out
        open(d + "/T.cd", "w").write(cdf)
        cc = "".join('#include "%s.h"\n' % n for n in names) + '#include "T.cd"\n#include "classdesc_epilogue.h"\n#include "JNIEx.h"\n' + \
            "namespace classdesc {template <class T> const char* javaClassName() {return \"java/lang/Object\";} template <class T> T getJavaVal(JNIEnv*, jobject) {return T();} template <class T> T getJavaVal(jvalue) {return T();}}\n" + \
            "namespace {%s}\n" % " ".join('classdesc::JNIRegister< ::%s> ex_%s("%s");' % (n, n, n) for n in names)
        open(d + "/T.cc", "w").write(cc)
        hs = [d + "/%s.h" % n for n in names] + [d + "/T.cd"]
        if not c.compile_or_violate("class", d + "/lib.so", [d + "/T.cc", exe[("JNIEx", std)]], std=std, base=JB, incs=INCS + [d], san=False, flags=["-fPIC", "-shared"], libs=(), keep=hs):
            return
        x = c.sh([exe[("compileClass", std)], d + "/lib.so"], cwd=d, timeout=120)
        if x.rc or x.err.strip():
            return c.violation("compileClass:" + vrt.crash_key(x.rc, x.err, c.src), "rc %s\n%s" % (x.rc, x.err[-2000:]), files=hs)
        x = c.sh(["java", "-Xshare:auto", "-XX:TieredStopAtLevel=1", "-Xverify:all", "-cp", d + ":" + c.work, "c34V"] + names, cwd=d, timeout=120)
        if not x.out.endswith("DONE\n"):
            return c.violation("java:" + str(x.rc), "the Java machine ended with %s\n%s\n%s" % (x.rc, x.out[-800:], x.err[-800:]), files=hs)
        sect = {}
        for l in x.out.splitlines():
            if l.startswith("CLASS "):
                cur = sect.setdefault(l[6:], [])
            elif l != "DONE":
                cur.append(l)
        for n in names:
            ls = sect[n]
            f = hs + [d + "/%s.class" % n]
            err = [l for l in ls if l.startswith("error ")]
            c.count("generated_classes")
            c.count("checks")
            if err:
                c.violation("class-rejected", err[0], files=f)
                continue
            got = collections.Counter()
            for l in ls:
                p = l.split()
                if p[0] == "method":
                    if p[1:-2] != ["public", "native"]:
                        c.violation("method-modifiers", l, files=f)
                    got[p[-2] + " " + p[-1]] += 1
            c.count("methods_checked", sum(got.values()))
            for l in exps[n]:
                c.distinct("sig " + l.split(" ", 1)[1])
            if got != exps[n]:
                c.violation("methods", "missing: %s\nunexpected: %s" % (sorted((exps[n] - got).elements())[:8], sorted((got - exps[n]).elements())[:8]), files=f)
            rest = [l for l in ls if not l.startswith("method")]
            want = ["super CppObject", "flags public", "ctor public 0", "fields 0", "new UnsatisfiedLinkError auto"]
            if rest != want:
                c.violation("class-shape", "expected %s, found %s" % (want, rest), files=f)
            try:
                parse(open(d + "/%s.class" % n, "rb").read())
            except Exception as e:
                c.violation("class-structure", repr(e), files=f)
        if i < 6:   # the Java disassembler accepts it as well
            x = c.sh(["javap", "-p", "-v"] + [d + "/%s.class" % n for n in names], timeout=120)
            c.count("javap_runs")
            if x.rc or "rror" in x.out + x.err and "Error" in x.err:
                c.violation("javap", x.out[-500:] + x.err[-500:], files=hs)
        shutil.rmtree(d)
    c.pmap(gen, range(c.scale(64, 600)))


vrt.main("C34", body, "class files compiled from random Java sources and drawn from the JDK are read with the library under ASan+UBSan, the structure compared with an independent reader and the rewritten bytes with the original; random C++ classes go through compileClass and the resulting class files are loaded, verified, reflected on and instantiated by the Java machine, against the expected list of native methods; distinct counts constant kinds, method counts and signatures")
