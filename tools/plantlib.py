"""Development aid: records and verifies a planted bug under /verif/seeded/<id>."""
import os, subprocess, json, sys
S = "/verif/seeded"
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
DEMO = """#!/bin/bash
# run with cwd /repo after the build: exit 0 if the property holds
D=$(cd "$(dirname "$0")" && pwd)
rm -rf /tmp/classdesc-demo-%(id)s; mkdir -p /tmp/classdesc-demo-%(id)s || exit 2
trap 'rm -rf /tmp/classdesc-demo-%(id)s' EXIT
T=/tmp/classdesc-demo-%(id)s
%(body)s
"""
CPP = """%(cd)sg++ -std=%(std)s -g1 -O1 -w %(san)s -DXDR_PACK -DHAVE_LONGLONG -DTR1 -I/usr/include/tirpc -I"$T" -I"$D" -I. "$D/demo.cc" %(xdr)s -o "$T/demo" %(libs)s || exit 1
cd "$T" && timeout %(to)d ./demo
"""
def plant(id, prop, needs, breaks, edits, cc=None, h=None, std="c++11", actions="pack unpack", opts="-nodef -onbase", xdr=True, san="", body=None, files={}, to=60, run=True, build=True, libs="", nocheck=False):
    d = os.path.join(S, id); os.makedirs(d, exist_ok=True)
    if cc is not None: open(d+"/demo.cc","w").write(cc)
    if h is not None: open(d+"/demo.h","w").write(h)
    for f,t in files.items(): open(os.path.join(d,f),"w").write(t)
    if body is None:
        cd = '' if h is None else './classdesc %s -i "$D/demo.h" %s > "$T/demo.cd" || exit 1\n' % (opts, actions)
        body = CPP % dict(cd=cd, std=std, san=san, xdr="xdr_pack.cc" if xdr else "", to=to, libs=(libs+" -ltirpc") if xdr else libs)
    open(d+"/demo.sh","w").write(DEMO % dict(id=id, body=body)); os.chmod(d+"/demo.sh",0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d+"/meta.json","w"), indent=1)
    assert sh("git -C /repo status --short").stdout==b"", "repo dirty"
    sh("bash /opt/vp/build.sh")
    r = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo")
    if r.returncode: print(id,"DEMO FAILS ON CLEAN", r.stdout.decode()[-1500:]); return False
    try:
        for f,a,b in edits:
            p="/repo/"+f; s=open(p).read()
            if s.count(a)!=1: print(id,"EDIT MATCHES",s.count(a),f,a); return False
            open(p,"w").write(s.replace(a,b))
        open(d+"/patch.diff","wb").write(sh("git -C /repo diff").stdout)
        r=sh("bash /opt/vp/build.sh")
        if r.returncode: print(id,"BUILD FAILS",r.stdout.decode()[-1500:]); return False
        sh("bash /opt/vp/test.sh /tmp/o.json")
        o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
        miss=[x for x in b['stable'] if x not in set(o['passed'])]
        if miss: print(id,"TESTS FAIL",miss[:5]); return False
        r = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo")
        print(id,"demo rc",r.returncode, r.stdout.decode()[-200:].strip().replace("\n"," / "))
        if r.returncode==0: return False
        if nocheck or not os.path.exists("/verif/checks/%s.py"%prop.lower()): print(id,"planted, no check run"); return True
        r = sh("VERIF_TIER=quick VERIF_SEED=1 timeout 900 python3 checks/%s.py" % prop.lower(), cwd="/verif")
        v=[l for l in r.stdout.decode().splitlines() if "key:" in l]
        print(id,"CHECK",prop,"rc",r.returncode, "CAUGHT" if r.returncode==1 else "*** MISSED", [x.strip()[:110] for x in v[:3]])
        return r.returncode==1
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
