#!/usr/bin/env python3
"""Development tool for planted bugs (no check uses it).
  seed.py try ID [PID ...] | seed.py all ID[:PID...] ...
                             demo on the clean tree, apply the patch, build, run
                             the repository's tests, run the demo, run the checks
                             (default: the bug's property), undo."""
import json, os, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def demo(d):
    r = sh("timeout 300 bash %s/demo.sh" % d, cwd=REPO)
    return r.returncode, r.stdout[-300:]
def one(sid, pids):
    d = os.path.join(ROOT, "seeded", sid)
    meta = json.load(open(d + "/meta.json"))
    pids = pids or [meta["property"]]
    rc0, o0 = demo(d)
    a = sh("git -C /repo apply %s/patch.diff" % d)
    assert a.returncode == 0, a.stdout
    try:
        t = sh("bash /opt/vp/test.sh /tmp/w/seed_o.%d.json" % os.getpid())
        o = json.load(open("/tmp/w/seed_o.%d.json" % os.getpid()))
        rc1, o1 = demo(d)
        res = {}
        for p in pids:
            t0 = time.time()
            r = sh("VERIF_SEED=1 python3 %s/bin/check.py %s quick" % (ROOT, p))
            v = [l for l in r.stdout.splitlines() if l.startswith("rejected") or "CHECK ERROR" in l]
            res[p] = (r.returncode, int(time.time() - t0), v[:1])
    finally:
        sh("git -C /repo checkout -- .")
    print(sid, "demo clean", rc0, "patched", rc1, "tests %d/%d" % (len(o["passed"]), len(o["failed"])),
          "OK" if rc0 == 0 and rc1 != 0 and not o["failed"] and len(o["passed"]) >= 78 else "*** INVALID " + o0 + o1 + t.stdout[-300:], flush=True)
    for p, (rc, s, v) in res.items(): print("   ", p, "CAUGHT" if rc == 1 else "missed" if rc == 0 else "ERROR %d" % rc, "%ds" % s, str(v)[:300], flush=True)

def main():
    # a private mount namespace shows a throw-away copy as /repo
    if not os.environ.get("SEED_NS"):
        w = tempfile.mkdtemp(prefix="seedrepo")
        try:
            subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
            subprocess.run(["git", "-C", w + "/repo", "checkout", "-q", "--", "."], check=True)
            e = dict(os.environ, SEED_NS="1")
            subprocess.run(["unshare", "-m", "--propagation", "private", "bash", "-c",
                            'mount --bind %s/repo /repo && exec python3 "$@"' % w, "x", os.path.abspath(__file__)] + sys.argv[1:], env=e, cwd="/tmp")
        finally: shutil.rmtree(w, ignore_errors=True)
        return
    if sys.argv[1] == "try": one(sys.argv[2], sys.argv[3:])
    else:
        for s in sys.argv[2:]: one(*([s.split(":")[0], s.split(":")[1:]]))
main()
