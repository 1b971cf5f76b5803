#!/usr/bin/env python3
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrt, mpirt


def body(c):
    c.prepare()
    exes = {}

    def bld(j):
        e = mpirt.build(c, "c30", j[0], j[1], pie=j[2])
        if e:
            exes[j] = e
    variants = [("gnu++98", False, False), ("gnu++17", False, False), ("gnu++11", True, False)]
    pie = ("gnu++17", False, True)
    c.pmap(bld, variants + [pie])
    jobs, k = [], 0
    for v in variants:
        for n in c.scale([1, 2, 3, 4, 6], [1, 2, 3, 4, 5, 6, 7, 8]):
            for rep in range(c.scale(1 if n == 1 else 2, 12)):
                k += 1
                jobs.append((v, n, c.seed * 1000 + k, ""))
    jobs.append((pie, 2, c.seed, "pie:"))
    jobs.sort(key=lambda j: -j[1])
    steps = c.scale(1200, 5000)

    def one(j):
        v, n, seed, pre = j
        if v not in exes:
            return
        limit = c.scale(120, 300)
        r, logs, d = mpirt.run(c, exes[v], n, seed, 20 if n == 1 else steps, limit, "%s-%d-%d" % (v[0][-2:] + str(v[1]) + str(v[2]), n, seed))
        fs = [os.path.join(d, f) for f in os.listdir(d)]
        what = "%d processes, seed %d, -std=%s%s%s" % (n, seed, v[0], " HETERO" if v[1] else "", " position independent executable" if v[2] else "")
        bad = 0
        sent, order, bc, ran = {}, {s: [] for s in range(1, n)}, {}, {s: [] for s in range(n)}
        done = False
        for k, ls in sorted(logs.items()):
            for l in ls:
                if l[0] == "V":
                    bad += 1
                    c.violation(pre + l[1], "%s: %s" % (what, l[2]), files=fs)
                elif l[0] == "HANG":
                    bad += 1
                    c.violation(pre + "hang" + (":" + l[1] if k == 0 else ":slave"), "%s: no progress in %s on rank %d" % (what, l[1], k), files=fs)
                elif l[0] == "N":
                    c.count(l[1], int(l[2]))
                elif l[0] == "D":
                    sent[int(l[1])] = (l[2], int(l[3]))
                    order[int(l[3])].append(int(l[1]))
                elif l[0] == "B":
                    bc[int(l[1])] = l[2]
                elif l[0] == "X":
                    ran[k].append((int(l[1]), l[2], l[3]))
                elif l[0] == "DONE":
                    done = True
        if "ERROR: AddressSanitizer" in r.err or "runtime error" in r.err:
            return c.violation(pre + ("crash" if pre else vrt.crash_key(r.rc, r.err, c.src)), what + "\n" + r.err[:4000], files=fs)
        if bad:
            return
        if r.timeout:
            raise vrt.Inconclusive("mpirun did not end: " + what)
        if not done or r.rc:
            return c.violation(pre + "ended:%s" % r.rc, "%s: mpirun ended with %s, master %s\n%s" % (what, r.rc, "finished" if done else "did not finish", r.err[:3000]), files=fs)
        # every request ran once, on the slave it was given to, with the arguments sent
        for k in range(1, n):
            if not any(l[0] == "EXIT" for l in logs.get(k, [])):
                c.violation(pre + "shutdown", "%s: slave %d did not end normally" % (what, k), files=fs)
            got = ran[k]
            for i, m, ok in got:
                c.count("executions")
                c.distinct("%d %d %s %d" % (n, seed, m, i))
                if ok != "1":
                    c.violation(pre + "arguments", "%s: request %d reached slave %d with other arguments" % (what, i, k), files=fs)
                if i in sent and sent[i] != (m, k) or i in bc and bc[i] != m or i not in sent and i not in bc:
                    c.violation(pre + "dispatch", "%s: slave %d ran %s for request %d, which was %s" % (what, k, m, i, sent.get(i) or bc.get(i)), files=fs)
            ids = [i for i, m, ok in got]
            want = sorted(order[k] + list(bc))
            if sorted(ids) != want:
                c.violation(pre + "once", "%s: slave %d ran %s, but was given %s" % (what, k, sorted(ids)[:60], want[:60]), files=fs)
            elif [i for i in ids if i in sent] != order[k]:
                c.violation(pre + "order", "%s: slave %d ran requests in another order" % (what, k), files=fs)
        c.count("runs")
    c.pmap(one, jobs, workers=3)


vrt.main("C30", body, "a master dispatches random requests to its slaves, collects replies in the order they come, broadcasts, waits and shuts down, under mpirun with ASan+UBSan; the idle list is checked at every step against the requests outstanding, and the log of executions on each slave against the log of dispatches afterwards; distinct counts executions of different requests")
