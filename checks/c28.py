#!/usr/bin/env python3
import collections, glob, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt, hdrcheck, hdrgen

DECL = re.compile(r"\n(typedef [^\n]*;\n)?CLASSDESC_ACCESS(?:_TEMPLATE)?\(\s*(\w+)[^\n]*?\);\n")
PRE = "#ifndef CLASSDESC_ACCESS_TEMPLATE\n#define CLASSDESC_ACCESS_TEMPLATE(x) CLASSDESC_ACCESS(x)\n#endif\n"


def body(c):
    c.prepare()
    tool = os.path.join(c.src, "insert-friend")

    def run(h, name, text):
        """the text with access declarations, checked to be the text otherwise"""
        f = h if isinstance(h, str) else h.write(name, text.replace("\r\n", "\n") if False else text)
        raw = open(f, "rb").read()
        o = c.sh([tool], stdin=raw, binary=True, timeout=60)
        out = (o.out if isinstance(o.out, bytes) else o.out.encode("latin-1"))
        c.count("texts")
        if o.rc or o.timeout:
            err = o.err if isinstance(o.err, str) else o.err.decode("latin-1")
            c.violation("failed", "exit %s%s: %s" % (o.rc, " (timeout)" if o.timeout else "", err[:500]), [f])
            return None
        got, want = out.decode("latin-1"), raw.decode("latin-1")
        names = [m.group(2) for m in DECL.finditer(got)]
        plain = DECL.sub("", got)
        c.count("bytes_compared", len(want))
        c.count("declarations", len(names))
        if plain != want:
            i = next((i for i in range(min(len(plain), len(want))) if plain[i] != want[i]), min(len(plain), len(want)))
            c.violation("text-changed", "apart from access declarations, byte %d %r became %r" % (i, want[i:i + 50], plain[max(0, i - 20):i + 60]), [f])
            return None
        return got, names

    def one(j):
        i, std = j
        h = hdrcheck.Header(c, "f%d-%s" % (i, std), std, "%d:%d:%s" % (c.seed, i, std), nclass=3 + i % 5)
        mine = collections.Counter(re.findall(r"CLASSDESC_ACCESS\((\w+)\);", h.g.text))
        bare = re.sub(r" ?CLASSDESC_ACCESS\(\w+\);", "", h.g.text)
        if not h.valid():
            return
        for v in range(2):
            t = bare if v == 0 else hdrgen.reformat(bare, h.rng)
            r = run(h, "in%d.h" % v, t)
            if not r:
                continue
            out, names = r
            for n, k in collections.Counter(names).items():
                if k > mine[n] and len(re.findall(r"\b(?:class|struct)\b[^;{}=]*\b%s\b[^;{}]*\{" % n, bare)) < k:
                    c.violation("declared-twice", "%d access declarations of %s, which is defined %d times" % (k, n, mine[n]), h.files())
            c.distinct(" ".join(names) + " %d" % len(out))
            h.write("gen.h", PRE + out)
            # descriptors that ignore access by default reach everything ...
            if h.describe(["-nodef"]) is None:
                return
            s = h.write("main%d.cc" % v, h.main())
            if h.build_run(s, "described", exe="t%d" % v):
                c.count("described")
            # ... and the header is as valid with the friends declared by the library
            s = h.write("own%d.cc" % v, "#include \"classdesc_access.h\"\n#include \"pack_base.h\"\n#include \"gen.h\"\nint main() {return 0;}\n")
            o = c.sh(["g++", "-std=gnu++" + std, "-w", "-fsyntax-only", "-I", h.dir, "-I", c.src, "-DTR1", "-DHAVE_LONGLONG", s], timeout=120)
            if o.rc:
                e = [l for l in o.err.split("\n") if "error" in l][:3]
                c.violation("invalid-with-declarations", "\n".join(e), h.files())
            c.count("compiled")
        c.sample("%d declarations in %s" % (len(names), h.name))
    c.pmap(one, [(i, s) for i in range(c.scale(int(os.environ.get("HN", 14)), 300)) for s in ("98", "11", "17")])
    # any text at all: headers of the library and of the compiler, and damaged ones
    import random
    rng = random.Random("%d c28 texts" % c.seed)
    real = sorted(glob.glob(c.src + "/*.h")) + sorted(glob.glob("/usr/include/c++/13/bits/*.h"))[:c.scale(120, 1000)]
    for f in real:
        if os.path.getsize(f):
            run(f, "", "")
    for k in range(c.scale(150, 1500)):
        raw = bytearray(open(rng.choice(real), "rb").read()[:6000])
        for _ in range(rng.randint(1, 12)):
            if raw:
                p = rng.randrange(len(raw))
                x = rng.random()
                if x < .4:
                    del raw[p:p + rng.choice([1, 1, 5, 100])]
                elif x < .7:
                    raw[p] = rng.randrange(256)
                else:
                    raw[p:p] = rng.choice([b"class ", b"struct X {", b"}", b"{", b"template <", b"\"", b"'", b"/*", b"*/", b"private:", b"\\\n", b"\r", b"enum class E {", b"friend ", b"<", b">", b"#", b"//"])
        if not raw:
            continue
        f = os.path.join(c.work, "text%d.h" % k)
        open(f, "wb").write(bytes(raw))
        if run(f, "", ""):
            os.unlink(f)


vrt.main("C28", body, "random headers (and layouts of them) without access declarations given to the processor: output compared byte for byte, counted, compiled, described and visited down to the private members; library headers and damaged texts compared byte for byte", evaluations="texts")
