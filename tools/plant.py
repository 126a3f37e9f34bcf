"""plant.py ID [CHECK..]: rebuild patch.diff of seeded/ID from seeded/ID/edit.py-like spec, confirm it, and run checks.
plant.py new ID PROPERTY FILE  (old / new / needs / breaks / demo.cc body read from a file /tmp/plant/ID.txt, sections separated by lines '%%%')."""
import sys, os, subprocess, json, shutil
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): sh("git -C /repo checkout -- .")
def confirm(i, checks):
    d = "%s/seeded/%s" % (V, i)
    r = sh("git -C /repo apply %s/patch.diff" % d); assert r.returncode == 0, r.stdout
    try:
        b = sh("bash /opt/vp/build.sh"); print(i, "build", b.returncode)
        if b.returncode: print(b.stdout[-1500:]); return
        t = sh("bash /opt/vp/test.sh /tmp/plant-%s.json" % i)
        o = json.load(open("/tmp/plant-%s.json" % i)); base = json.load(open("/opt/vp/BASELINE.json"))
        names = base.get("stable") or base.get("tests") or base.get("passing") or base
        txt = json.dumps(o)
        failed = o.get("failed")
        print("tests lost:", sorted(set(base["stable"]) - set(o["passed"])))
        m = sh("cd /repo && bash %s/demo.sh" % d); print("demo with bug:", m.returncode, m.stdout.strip()[:300])
        for c in checks:
            r = sh("cd /verif && ./check %s" % c); print(c, r.returncode, "\n".join(x[:250] for x in r.stdout.splitlines()[-3:]))
    finally:
        clean()
    sh("bash /opt/vp/build.sh")
    m = sh("cd /repo && bash %s/demo.sh" % d); print("demo without:", m.returncode, m.stdout.strip()[:300])
def new(i, prop, f):
    s = open("/tmp/plant/%s.txt" % i).read().split("%%%\n")
    needs, breaks = s[0].strip().split("\n")
    demo, edits = s[1], s[2:]
    clean()
    for k in range(0, len(edits), 2):
        old, nw = edits[k].rstrip("\n"), edits[k + 1].rstrip("\n")
        p = "/repo/" + f; t = open(p).read(); assert t.count(old) == 1, (t.count(old), old)
        open(p, "w").write(t.replace(old, nw))
    d = "%s/seeded/%s" % (V, i); os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout); clean()
    shutil.copy(V + "/tools/toy/demo.sh", d); shutil.copy(V + "/tools/toy/toy.hh", d)
    open(d + "/demo.cc", "w").write('#include "toy.hh"\n' + demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
if sys.argv[1] == "new":
    new(sys.argv[2], sys.argv[3], sys.argv[4]); confirm(sys.argv[2], sys.argv[5:])
else: confirm(sys.argv[1], sys.argv[2:])
