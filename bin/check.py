#!/usr/bin/env python3
"""check.py PID [quick|thorough]

Runs the check of one property:
  1. TLC model-checks the design modules of the property (small constants);
  2. TLC generates scenarios (behaviours of the specification);
  3. the harness driver is compiled against /repo's working tree;
  4. the driver replays the scenarios on the real code, recording a trace;
  5. TLC validates the trace against the specification's actions;
  6. a rejected scenario is replayed and validated again on its own; only a
     repeated rejection is reported.
Exit: 0 held, 1 VIOLATION, anything else: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, time, concurrent.futures as cf, tempfile, hashlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
HARN = os.path.join(ROOT, "harness")
NCPU = os.cpu_count() or 4
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class CheckError(Exception): pass
def log(*a):
    print(*a, flush=True)

# ------------------------------------------------------------------- TLC
def run_tlc(module, cfg, work, env=None, args=(), heap="2g", timeout=600, workers="1"):
    """Run TLC on SPEC/module.tla with SPEC/cfg; returns (rc, output)."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=work)
    cmd = ["java", "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + meta, "-cp", JARS,
           "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", workers,
           "-config", os.path.join(SPEC, cfg)] + list(args) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timeout on %s/%s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout

def tlc_counts(out):
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
    if m:
        return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
    m = re.findall(r"(\d[\d,]*) states checked", out) or re.findall(r"Progress: (\d[\d,]*) states", out)
    return (int(m[-1].replace(",", "")),) * 2 if m else (0, 0)

def model_check(m, work, tier):
    args = ["-coverage", "1"] if m.get("coverage", True) else []
    rc, out = run_tlc(m["module"], m.get("cfg_thorough", m["cfg"]) if tier == "thorough" else m["cfg"],
                      work, args=args, heap="4g", timeout=m.get("timeout", 400), workers="2" if not m.get("w") else m["w"])
    if rc != 0 or "No error has been found" not in out:
        raise CheckError("design model %s failed (rc %d):\n%s" % (m["module"], rc, out[-3000:]))
    # every action of the model must have been taken (no vacuous model)
    dead = []
    for name, n in re.findall(r"^<(\w+) line .*?>: \d+:(\d+)$", out, re.M):
        if int(n) == 0 and name not in m.get("may_be_dead", []):
            dead.append(name)
    if dead:
        raise CheckError("design model %s: actions never taken: %s" % (m["module"], dead))
    gen, dist = tlc_counts(out)
    acts = sorted(set(re.findall(r"^<(\w+) line .*?>: \d+:[1-9]\d*$", out, re.M)))
    return {"module": m["module"], "generated": gen, "distinct": dist, "actions": acts}

def generate(g, work, tier, seed):
    num = g.get("num_thorough", g["num"] * 6) if tier == "thorough" else g["num"]
    args = []
    if g.get("simulate", True):
        args = ["-simulate", "num=%d" % num, "-seed", str(seed * 7919 + g.get("salt", 1)), "-depth", str(g.get("depth", 60))]
    env = {"GEN_SEED": str(seed), "GEN_NUM": str(num), "GEN_TIER": tier}
    env.update(g.get("env", {}))
    cfg = g.get("cfg_thorough", g["cfg"]) if tier == "thorough" else g["cfg"]
    rc, out = run_tlc(g["module"], cfg, work, env=env, args=args, timeout=300, heap="3g")
    if rc != 0:
        raise CheckError("generator %s failed:\n%s" % (g["module"], out[-3000:]))
    scns, seen = [], set()
    for line in out.splitlines():
        if line.startswith('"SCN '):
            s = json.loads(line)[4:]
            if s in seen: continue
            seen.add(s)
            scns.append(json.loads(s))
    if not scns:
        raise CheckError("generator %s produced nothing:\n%s" % (g["module"], out[-2000:]))
    if g.get("max"): scns = scns[: g["max"] * (6 if tier == "thorough" else 1)]
    gen, dist = tlc_counts(out)
    return scns, gen

# ------------------------------------------------------------------- build
def build_driver(d, work):
    """compile every translation unit of a driver in parallel, then link"""
    exe = os.path.join(work, d["name"])
    objs, jobs = [], []
    for i, tu in enumerate(d["tus"]):
        obj = os.path.join(work, "%s_%d.o" % (d["name"], i))
        src = tu["src"].replace("@REPO", REPO)
        if not src.startswith("/"): src = os.path.join(HARN, src)
        cmd = [d.get("cxx", "g++")] + d["flags"] + tu.get("flags", []) + \
              ["-I" + HARN, "-I" + REPO + "/src", "-I" + REPO + "/libhifir/include", "-c", src, "-o", obj]
        jobs.append((cmd, obj)); objs.append(obj)
    def one(j):
        return j[0], subprocess.run(j[0], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return jobs, one, exe, objs, d

def build_all(drivers, work):
    plans = [build_driver(d, work) for d in drivers]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = [ex.submit(p[1], j) for p in plans for j in p[0]]
        for f in futs:
            cmd, r = f.result()
            if r.returncode:
                raise CheckError("compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    res = {}
    for jobs, one, exe, objs, d in plans:
        cmd = [d.get("cxx", "g++")] + d["flags"] + objs + ["-o", exe] + d.get("libs", ["-llapack", "-lblas", "-lpthread"])
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("link failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
        res[d["name"]] = exe
    return res

# ------------------------------------------------------------------- run
RUN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:exitcode=99:abort_on_error=0:symbolize=0",
           "UBSAN_OPTIONS": "halt_on_error=1:exitcode=98:symbolize=0", "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:symbolize=0",
           "OMP_NUM_THREADS": "4", "OPENBLAS_NUM_THREADS": "1"}
def run_driver(exe, scns, work, tag, timeout=700, env=None):
    scn_f, out_f = os.path.join(work, tag + ".scn"), os.path.join(work, tag + ".trace")
    with open(scn_f, "w") as f:
        for s in scns: f.write(json.dumps(s) + "\n")
    e = dict(os.environ); e.update(RUN_ENV); e.update(env or {})
    scratch = tempfile.mkdtemp(prefix="scr", dir=work)
    e["VH_SCRATCH"] = scratch
    with open(os.path.join(work, tag + ".err"), "w") as err:
        try:
            r = subprocess.run([exe, scn_f, out_f], cwd=scratch, env=e, stdout=err, stderr=err, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("driver timeout: %s" % tag)
    shutil.rmtree(scratch, ignore_errors=True)
    if r.returncode: raise CheckError("driver %s rc %d (see %s.err)" % (exe, r.returncode, tag))
    return out_f

def validate(trace_module, cfg, trace_f, work, depth=0):
    """TLC-validate a trace file; returns (rejections, generated states, lines)"""
    nlines = sum(1 for _ in open(trace_f))
    rc, out = run_tlc(trace_module, cfg, work, env={"TRACE": trace_f}, heap="3g", timeout=700)
    rej = []
    for line in out.splitlines():
        if line.startswith('"REJ '):
            rej.append(json.loads(json.loads(line)[4:]))
    gen, dist = tlc_counts(out)
    if rc == 0 and ('"TRACE-END %d"' % nlines) in out:
        return rej, gen, nlines
    # the specification could not evaluate an observation (a malformed one):
    # no behaviour explains it; reject that scenario and validate the others
    m = re.findall(r"^/\\ pos = (\d+)|^pos = (\d+)", out, re.M)
    if not m or depth > 6:
        raise CheckError("trace validation %s failed (rc %d):\n%s" % (trace_module, rc, out[-3500:]))
    l = int(m[-1][0] or m[-1][1])
    lines = open(trace_f).read().splitlines()
    if os.environ.get("VERIF_DEBUG"): log("eval failure at line", l, out[-2500:])
    sid = json.loads(lines[min(l, len(lines)) - 1])["sid"]
    rest = [x for x in lines if json.loads(x)["sid"] != sid]
    rej.append({"l": l, "sid": sid, "why": ["observation outside the specification's domain"],
                "tlc": [x for x in out.splitlines() if "Error" in x or "Attempted" in x][:3]})
    sub = trace_f + ".r%d" % depth
    with open(sub, "w") as f: f.write("\n".join(rest) + ("\n" if rest else ""))
    if not rest: return rej, gen, nlines
    r2, g2, n2 = validate(trace_module, cfg, sub, work, depth + 1)
    return rej[-1:] + r2, gen + g2, nlines

def chunks(xs, k):
    k = max(1, min(k, len(xs)))
    return [xs[i::k] for i in range(k)]

def known_findings(pid):
    res = []
    fn = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r"finding: property=(\w+) match=/(.*?)/ (.*)$", line.strip())
            if m and m.group(1) == pid: res.append((re.compile(m.group(2)), m.group(3)))
    return res

def run_part(part, exes, work, tier, seed, stats, t0):
    """part = {name, gens:[..], driver, trace:(module,cfg), env}"""
    scns = []
    for g in part["gens"]:
        s, gen = generate(g, work, tier, seed)
        for x in s:
            x.update(g.get("tag", {}))
        scns += s; stats["gen_states"] += gen
    for i, s in enumerate(scns): s["sid"] = i + 1
    by = {s["sid"]: s for s in scns}
    k = part.get("shards", NCPU)
    cs = chunks(scns, k)
    def one(i):
        tr = run_driver(exes[part["driver"]], cs[i], work, "%s_%d" % (part["name"], i), env=part.get("env"))
        rej, gen, nl = validate(part["trace"][0], part["trace"][1], tr, work)
        return tr, rej, gen, nl
    rejs, nev, crashed = [], 0, 0
    seen = set()
    with cf.ThreadPoolExecutor(k) as ex:
        for tr, rej, gen, nl in ex.map(one, range(len(cs))):
            rejs += [(tr, r) for r in rej]
            stats["trace_states"] += gen; stats["events"] += nl
            for line in open(tr):
                e = json.loads(line)
                stats["ev"][e["ev"]] = stats["ev"].get(e["ev"], 0) + 1
                if e["ev"] == "Begin": seen.add(e["sid"])
                if e["ev"] == "Crash": crashed += 1
                if e["ev"] not in ("Begin", "End") and len(stats["samples"]) < 4 and len(line) < 1500:
                    stats["samples"].append(e)
    if len(seen) != len(scns) and not crashed:
        raise CheckError("driver of %s ran %d of %d scenarios" % (part["name"], len(seen), len(scns)))
    stats["scenarios"] += len(seen)
    need = part.get("need_events", [])
    if not crashed and not rejs:
        for n in need:
            if not stats["ev"].get(n): raise CheckError("no %s event was observed: the check would be vacuous" % n)
    if os.environ.get("VERIF_TRIAGE"):
        agg = {}
        with open(os.environ["VERIF_TRIAGE"], "a") as f:
            rs = {r["sid"]: r for _, r in rejs}
            for x in scns: f.write(json.dumps({"part": part["name"], "scn": x, "rej": rs.get(x["sid"])}) + "\n")
        for tr, r in rejs: agg.setdefault(json.dumps([r.get("ev"), r["why"]]), []).append(r)
        for k, v in sorted(agg.items(), key=lambda kv: -len(kv[1])):
            log("TRIAGE %d x %s" % (len(v), k), v[0].get("tlc", ""))
            for r in v[:3]: log("    ", json.dumps(by[r["sid"]])[:700])
    # confirm every rejection on a fresh run of that scenario alone
    out, done = [], set()
    for tr, r in rejs:
        if r["sid"] in done: continue
        done.add(r["sid"])
        if len(done) > 6: break
        s = by[r["sid"]]
        tr2 = run_driver(exes[part["driver"]], [s], work, "%s_c%d" % (part["name"], r["sid"]), env=part.get("env"))
        rej2, _, _ = validate(part["trace"][0], part["trace"][1], tr2, work)
        if not rej2:
            log("note: rejection of scenario %d did not repeat: %s" % (r["sid"], r))
            stats["unrepeated"] += 1
            continue
        lines = open(tr2).read().splitlines()
        out.append({"part": part["name"], "scn": s, "rej": rej2, "trace": lines[: 400]})
    return out

def main():
    import registry
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = registry.CHECKS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    stats = {"gen_states": 0, "trace_states": 0, "events": 0, "scenarios": 0, "ev": {}, "samples": [], "unrepeated": 0}
    try:
        models = [m for m in chk.get("models", []) if tier == "thorough" or not m.get("thorough_only")]
        parts = [p for p in chk["parts"] if tier == "thorough" or not p.get("thorough_only")]
        dn = {p["driver"] for p in parts}
        with cf.ThreadPoolExecutor(4) as ex:
            fb = ex.submit(build_all, [registry.DRIVERS[n] for n in sorted(dn)], work)
            fm = [ex.submit(model_check, m, work, tier) for m in models]
            exes = fb.result()
            tb = time.time() - t0
            mres = [f.result() for f in fm]
        viol = []
        for p in parts:
            viol += run_part(p, exes, work, tier, seed, stats, t0)
        kf = known_findings(pid)
        real, known = [], []
        for v in viol:
            key = v["part"] + " " + json.dumps(v["scn"], sort_keys=True) + " " + json.dumps(v["rej"], sort_keys=True)
            hit = [d for rx, d in kf if rx.search(key)]
            (known if hit else real).append((v, hit))
        for d in sorted({h[0] for _, h in known}):
            log("KNOWN-FINDING: property=%s %s" % (pid, d))
        states = sum(m["distinct"] for m in mres) + stats["trace_states"] + stats["gen_states"]
        trans = sum(m["generated"] for m in mres) + stats["trace_states"] + stats["gen_states"]
        ev = {"property": pid, "tier": tier, "seed": seed, "level": chk.get("level", "model_checking"),
              "coverage": {"states": states, "transitions": trans,
                           "traces_validated_against_impl": stats["scenarios"],
                           "samples": stats["samples"] or ["no sample"],
                           "design_models": mres, "generator_states": stats["gen_states"],
                           "trace_states": stats["trace_states"], "trace_events": stats["events"],
                           "events_by_kind": stats["ev"], "unrepeated_rejections": stats["unrepeated"]},
              "wall_s": round(time.time() - t0, 1),
              "violations": len(real),
              "assumptions": chk.get("assumptions", [])}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        log("%s %s: models %d states, %d scenarios, %d events, build %.0fs, total %.0fs" %
            (pid, tier, sum(m["distinct"] for m in mres), stats["scenarios"], stats["events"], tb, time.time() - t0))
        if real:
            os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
            for v, _ in real[:3]:
                path = os.path.join(ROOT, "replay", "%s-%s-%d.json" % (pid, v["part"], v["scn"]["sid"]))
                with open(path, "w") as f: json.dump(v, f, indent=1)
                log("rejected: %s" % json.dumps(v["rej"])[:600])
                log("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        return 0
    finally:
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(work, ignore_errors=True)
        else: log("work kept in", work)

if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        log("CHECK ERROR:", e)
        sys.exit(3)
