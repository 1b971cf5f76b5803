"""Common runtime for the checks: scratch copy of /repo, builds, sanitizer runs,
violation keys, known findings, evidence."""
import os, sys, re, json, time, shutil, subprocess, tempfile, hashlib, random, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = os.cpu_count() or 4
GXX = "/usr/bin/g++" if os.path.exists("/usr/bin/g++") else "g++"
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=nonnull-attribute", "-fno-omit-frame-pointer"]
BASE = ["-g1", "-O1", "-w", "-D_GLIBCXX_ASSERTIONS", "-DXDR_PACK", "-DHAVE_LONGLONG", "-DTR1", "-I/usr/include/tirpc"]
ENV = {
    "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "HOME": "/tmp", "LC_ALL": "C",
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:detect_stack_use_after_return=1:"
                    "allocator_may_return_null=1:max_allocation_size_mb=4096:hard_rss_limit_mb=6000:"
                    "detect_odr_violation=0:handle_abort=1:print_summary=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "LSAN_OPTIONS": "exitcode=98:report_objects=0:print_suppressions=0",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=97:second_deadlock_stack=1",
}


class Inconclusive(Exception):
    pass


def norm(s):
    s = re.sub(r"0x[0-9a-f]+", "X", s)
    s = re.sub(r"-?\d+(\.\d+)?(e[+-]?\d+)?", "N", s)
    return s[:160]


def _frame(stderr, src):
    """First stack frame lying in classdesc's own sources (function @ file)."""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)", stderr):
        fn, path = m.group(1), m.group(2)
        if src and path.startswith(src):
            fn = re.sub(r"<.*", "", fn).split("(")[0].strip().split(" ")[-1]
            return fn + "@" + os.path.basename(path)
    return ""


def crash_key(rc, stderr, src):
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+(?: on unknown address)?)", stderr)
    fr = _frame(stderr, src)
    u = re.search(r"^(\S+?):(\d+):\d+: runtime error: (.*)$", stderr, re.M)
    if u:
        return "ubsan:%s@%s" % (norm(u.group(3)), os.path.basename(u.group(1)))
    if "LeakSanitizer" in stderr and not m:
        return "leak:" + fr
    if m:
        return "asan:%s:%s" % (m.group(1), fr)
    m = re.search(r"terminate called after throwing an instance of '(.*?)'", stderr)
    if m:
        return "terminate:" + m.group(1)
    m = re.search(r"Assertion .*? failed", stderr)
    if m:
        return "assert:" + norm(m.group(0))
    if "hard rss limit" in stderr:
        return "memory-exhausted"
    if rc is not None and rc < 0:
        return "signal:%s" % (signal.Signals(-rc).name)
    return "exit:%s" % rc


class Check:
    def __init__(self, prop, level="exploration"):
        self.prop, self.level = prop, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.t0 = time.time()
        self.rng = random.Random("%s:%d" % (prop, self.seed))
        self.viol = {}          # key -> (detail, files)
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.extra = {}
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.src = None
        self.hashes = set()
        self.known = []
        kf = os.path.join(VERIF, "known-findings.json")
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf)).get("findings", []) if k["property"] == prop]
        self.unlisted = 0       # violations seen which no known finding explains
        shutil.rmtree(os.path.join(VERIF, "evidence", "replay", prop), ignore_errors=True)

    # ------------------------------------------------------------------ scale
    def scale(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    # ------------------------------------------------------------ source tree
    def prepare(self, san_tools=False, regenerate_functiondb=False):
        """Copy /repo's top-level sources, build the processors and the .cd files."""
        src = os.path.join(self.work, "src")
        os.makedirs(src)
        files = subprocess.run(["git", "-C", REPO, "-c", "safe.directory=*", "ls-files", "-z"],
                               stdout=subprocess.PIPE, env=ENV).stdout.decode().split("\0")
        n = 0
        for f in files:
            if f and "/" not in f and os.path.isfile(os.path.join(REPO, f)):
                shutil.copyfile(os.path.join(REPO, f), os.path.join(src, f))
                n += 1
        # new untracked top-level sources (not generated ones) belong to the working tree as well
        for f in os.listdir(REPO):
            if f not in files and f.endswith((".h", ".cc", ".sh")) and os.path.isfile(os.path.join(REPO, f)) \
                    and not os.path.islink(os.path.join(REPO, f)) and f not in ("unpack_base.h", "json_unpack_base.h"):
                shutil.copyfile(os.path.join(REPO, f), os.path.join(src, f))
        for l, t in (("unpack_base.h", "pack_base.h"), ("json_unpack_base.h", "json_pack_base.h")):
            if not os.path.exists(os.path.join(src, l)):
                os.symlink(t, os.path.join(src, l))
        if not os.path.exists(os.path.join(src, "functiondb.h")) or regenerate_functiondb:
            with open(os.path.join(src, "functiondb.h"), "w") as o:
                subprocess.run(["bash", "functiondb.sh"], cwd=src, stdout=o, env=ENV, check=True)
        self.src = src
        jobs = [[GXX, "-std=c++98", "-g1", "-O1", "-w", "-I.", "classdesc.cc", "-o", "classdesc"],
                [GXX, "-std=c++98", "-g1", "-O1", "-w", "-I.", "insert-friend.cc", "-o", "insert-friend"]]
        if san_tools:
            jobs += [[GXX, "-std=c++98", "-g1", "-O1", "-w", "-I."] + SAN + ["-D_GLIBCXX_ASSERTIONS", t + ".cc", "-o", t + "-san"]
                     for t in ("classdesc", "insert-friend")]
        for r in self.pmap(lambda c: self.sh(c, cwd=src, timeout=600), jobs):
            if r.rc != 0:
                self.violation("build:processor", r.err[-2000:])
                raise Inconclusive("processor does not build") if r.timeout else BuildBroken()
        mk = open(os.path.join(src, "Makefile")).read()
        hdrs = re.search(r"^CDHEADERS=(.*)$", mk, re.M).group(1).split()
        descs = re.search(r"^DESCRIPTORS=(.*)$", mk, re.M).group(1).split()
        cds = []
        for d in descs:
            for h in hdrs:
                base = ["./classdesc", "-nodef"]
                if d == "typeName":
                    c = base + ["-typeName", "-i", h + ".h"]
                else:
                    acts = [d] if d in ("dump", "random_init", "RESTProcess", "xsd_generate") else [d, d.replace("pack", "unpack")]
                    c = base + ["-onbase", "-respect_private", "-i", h + ".h"] + acts
                cds.append((c, "%s-%s.cd" % (h, d)))

        def one(cd):
            r = self.sh(cd[0], cwd=src, timeout=120)
            with open(os.path.join(src, cd[1]), "w") as o:
                o.write(r.out)
            return r.rc, cd
        for rc, cd in self.pmap(one, cds):
            if rc != 0:
                self.violation("build:cd:" + cd[1], "classdesc exit %s" % rc)
        for d in descs:
            if not os.path.exists(os.path.join(src, d + "-allCDs.h")):
                with open(os.path.join(src, d + "-allCDs.h"), "w") as o:
                    o.write("#ifndef CLASSDESC_%s_allCDS_H\n#define CLASSDESC_%s_allCDS_H\n" % (d, d))
                    for h in hdrs:
                        o.write('#ifdef CLASSDESC_%s_H\n#include "%s-%s.cd"\n#endif\n' % (h.upper(), h, d))
                    o.write("#endif\n")
        return src

    # -------------------------------------------------------------- execution
    class R:
        __slots__ = ("rc", "out", "err", "timeout", "wall")

    def sh(self, cmd, cwd=None, timeout=300, env=None, stdin=None, binary=False):
        e = dict(ENV)
        e["TMPDIR"] = self.work
        if env:
            e.update(env)
        r = Check.R()
        t = time.time()
        p = subprocess.Popen(cmd, cwd=cwd or self.work, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        r.timeout = False
        try:
            out, err = p.communicate(stdin, timeout=timeout)
        except subprocess.TimeoutExpired:
            r.timeout = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            out, err = p.communicate()
        r.rc = p.returncode
        r.out = out if binary else out.decode("utf-8", "replace")
        r.err = err.decode("utf-8", "replace")
        r.wall = time.time() - t
        return r

    def pmap(self, f, items, workers=None):
        items = list(items)
        if not items:
            return []
        def guarded(x):
            if self.enough():
                return self.count("items_skipped")
            return f(x)
        with ThreadPoolExecutor(workers or NCPU) as ex:
            return list(ex.map(guarded, items))

    def enough(self):
        """Violations enough to report, or time nearly up: what remains is skipped, and counted as such."""
        t = time.time() - self.t0
        return self.unlisted >= 25 or (self.unlisted and t > self.scale(200, 3600)) or t > self.scale(720, 36000)

    def compile(self, out, srcs, std="c++98", flags=(), san=True, incs=(), libs=("-ltirpc",), defs=(), cxx=None, timeout=600, base=None):
        cmd = [cxx or GXX, "-std=" + std] + list(base if base is not None else BASE) + list(SAN if san is True else (san or [])) + list(flags) + list(defs)
        for i in incs:
            cmd += ["-I", i]
        cmd += ["-I", self.src, "-I", os.path.join(VERIF, "harness"), "-I", self.work] + list(srcs) + ["-o", out]
        if not any(f == "-c" for f in flags):
            cmd += list(libs)
        r = self.sh(cmd, timeout=timeout)
        if r.timeout:
            r = self.sh(cmd, timeout=timeout)
            if r.timeout:
                raise Inconclusive("compiler timed out on %s" % srcs)
        return r

    def compile_or_violate(self, key, out, srcs, keep=(), **kw):
        r = self.compile(out, srcs, **kw)
        if r.rc != 0:
            m = re.search(r"^.*?\b(?:error|undefined reference).*$", r.err, re.M)
            if "error:" in r.err or "undefined reference" in r.err:
                self.violation("compile:" + key, (m.group(0) if m else "") + "\n" + r.err[:3000], files=list(srcs) + list(keep))
                return False
            raise Inconclusive("compiler failed on %s: %s" % (key, r.err[-600:]))
        return True

    def run_harness(self, exe, args=(), key="", timeout=300, env=None, files=(), cwd=None, restart=None, max_restarts=6, ok_rc=(0,)):
        """Run a harness that speaks the line protocol.  `restart(progress)` gives
        new args after a crash, to carry on behind the case that crashed."""
        args = [str(a) for a in args]
        done = False
        for attempt in range(max_restarts + 1):
            pf = os.path.join(self.work, "progress-%s" % hashlib.md5((exe + str(args)).encode()).hexdigest()[:12])
            e = {"VERIF_PROGRESS": pf}
            if env:
                e.update(env)
            r = self.sh([exe] + args, timeout=timeout, env=e, cwd=cwd)
            if r.timeout:
                r = self.sh([exe] + args, timeout=timeout * 1.5, env=e, cwd=cwd)
            done = self._lines(r.out, key, files)
            prog = ""
            if os.path.exists(pf):
                prog = open(pf, errors="replace").readline().rstrip("\n")
                os.unlink(pf)
            if r.timeout:
                self.violation("%s:hang:%s" % (key, re.sub(r"\d+", "", prog.split("|")[0])), "no result within %ds (twice); at: %s" % (timeout, prog), files)
            elif r.rc not in ok_rc or not done:
                if r.rc in ok_rc and not done:
                    self.violation("%s:silent-exit" % key, "harness ended early with status %s at: %s" % (r.rc, prog), files)
                elif r.rc == 3 and not r.err.strip():
                    pass
                else:
                    k = crash_key(r.rc, r.err, self.src)
                    self.violation("%s:%s:%s" % (key, re.sub(r"\d+", "", prog.split("|")[0]) if not done else "end", k),
                                   "at: %s\n%s" % (prog, r.err[:6000]), files)
            else:
                return r
            if restart and prog and not done:
                a = restart(prog)
                if a is None:
                    break
                args = [str(x) for x in a]
            else:
                break
        return r

    def _lines(self, out, key, files):
        done = False
        for l in out.splitlines():
            p = l.split("\t")
            if p[0] == "V" and len(p) >= 3:
                self.violation((key + ":" if key else "") + p[1], "\t".join(p[2:]), files)
            elif p[0] == "N" and len(p) == 3:
                self.count(p[1], int(p[2]))
            elif p[0] == "S" and len(p) >= 2:
                if len(self.samples) < 12:
                    self.samples.append("\t".join(p[1:])[:700])
            elif p[0] == "DONE":
                done = True
        return done

    # -------------------------------------------------------------- reporting
    def count(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(str(s)[:700])

    def distinct(self, s):
        self.hashes.add(hashlib.md5(s.encode() if isinstance(s, str) else s).hexdigest())

    def violation(self, key, detail, files=()):
        if not any(re.fullmatch(k["key"], key) for k in self.known):
            self.unlisted += 1
        if key in self.viol:
            self.viol[key][2] += 1
            return
        saved = []
        d = os.path.join(VERIF, "evidence", "replay", self.prop, hashlib.md5(key.encode()).hexdigest()[:10])
        try:
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "violation.txt"), "w") as o:
                o.write("property %s\nkey %s\nseed %d tier %s\n\n%s\n" % (self.prop, key, self.seed, self.tier, detail))
            for f in files:
                if os.path.isfile(f) and os.path.getsize(f) < 5000000:
                    shutil.copy(f, d)
        except OSError:
            pass
        self.viol[key] = [detail, d, 1]

    def finish(self, rule, evaluations="checks", nontrivial="distinct"):
        known = self.known
        new = 0
        hit = {}
        for key, (detail, d, n) in sorted(self.viol.items()):
            m = None
            for k in known:
                if re.fullmatch(k["key"], key):
                    m = k
                    break
            if m:
                hit[m["what"]] = hit.get(m["what"], 0) + n
                continue
            new += 1
            if new <= 12:
                print("VIOLATION property=%s replay=%s" % (self.prop, os.path.join(d, "violation.txt")))
                print("  key: %s (%d times)" % (key, n))
                print("  " + detail[:1500].replace("\n", "\n  "))
        for w, n in sorted(hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        ev = int(self.counts.get(evaluations, 0))
        dn = int(self.counts.get(nontrivial, 0)) + (len(self.hashes) if nontrivial == "distinct" else 0)
        cov = dict(evaluations=ev, distinct_nontrivial=min(dn, ev) if ev else dn, rule=rule, samples=self.samples or ["(none)"], observed=self.counts)
        cov.update(self.extra)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as o:
            json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                           assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=new), o, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if new:
            return 1
        if ev == 0:
            print("ERROR: nothing was observed", file=sys.stderr)
            return 2
        print("%s held: %d evaluations, %d distinct, %.1fs" % (self.prop, ev, dn, time.time() - self.t0))
        return 0


class BuildBroken(Exception):
    pass


def main(prop, body, rule, level="exploration", **kw):
    c = Check(prop, level)
    try:
        try:
            body(c)
        except BuildBroken:
            pass
        rc = c.finish(rule, **kw)
    except Inconclusive as e:
        print("INCONCLUSIVE: %s" % e, file=sys.stderr)
        rc = c.finish(rule, **kw) if c.viol else 2
        shutil.rmtree(c.work, ignore_errors=True)
    except BaseException:
        shutil.rmtree(c.work, ignore_errors=True)
        raise
    sys.exit(rc)
