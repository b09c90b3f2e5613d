#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--replay FILE] [--keep]

One property check:  rebuild /repo -> TLC model-checks the specification -> TLC generates scripts
-> the scripts are replayed into the real code -> TLC validates every recorded trace against the
monitor -> evidence/<ID>.json.   Exit 0 / exit 1 with "VIOLATION property=<ID> replay=<path>".
Any other exit is a failure of the machinery itself.
"""
import argparse, concurrent.futures as cf, hashlib, importlib, json, os, random, re, shutil, signal
import subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4
sys.path.insert(0, VERIF)


class Machinery(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


# ---------------------------------------------------------------- build
def build():
    import fcntl
    env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION="1.0.0", PYTHONDONTWRITEBYTECODE="1", HOME=os.environ.get("HOME", "/root"))
    os.makedirs("/tmp/.verif", exist_ok=True)
    with open("/tmp/.verif/build.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run([PY, "/opt/vp/build_ext.py"], cwd=REPO, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode:
        raise Machinery("build of /repo failed:\n" + r.stdout[-3000:])


# ---------------------------------------------------------------- TLC
def tla_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v if v.startswith("@") and False else json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla_value(x) for x in sorted(v, key=repr)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla_value(x) for x in v) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla_value(x)) for k, x in v.items()) + "]"
    raise TypeError(v)


class TLC:
    """One TLC run in its own directory. Everything in spec/ is visible to it."""
    n = 0
    lock = threading.Lock()

    def __init__(self, work, module, constants=None, spec="Spec", invariants=(), properties=(), constraints=(),
                 action_constraints=(), view=None, workers=2, args=(), heap="3g", text=None, env=None, timeout=840, symmetry=None):
        with TLC.lock:
            TLC.n += 1
            self.dir = os.path.join(work, "tlc%d-%s" % (TLC.n, module))
        os.makedirs(self.dir)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(self.dir, f))
        if text is not None:
            with open(os.path.join(self.dir, module + ".tla"), "w") as f:
                f.write(text)
        # constants that are sets/sequences/records go through a root module with definitions
        cfg, defs = ["SPECIFICATION " + spec, "CHECK_DEADLOCK FALSE"], []
        root = module
        for k, v in (constants or {}).items():
            if isinstance(v, (bool, str)) and v != "" or (isinstance(v, int) and v >= 0):
                cfg.append("CONSTANT %s = %s" % (k, tla_value(v)))
            else:
                defs.append("Def_%s == %s" % (k, tla_value(v)))
                cfg.append("CONSTANT %s <- Def_%s" % (k, k))
        if defs:
            root = "MC_" + module
            with open(os.path.join(self.dir, root + ".tla"), "w") as f:
                f.write("---- MODULE %s ----\nEXTENDS %s\n%s\n====\n" % (root, module, "\n".join(defs)))
        for w, xs in (("INVARIANT", invariants), ("PROPERTY", properties), ("CONSTRAINT", constraints), ("ACTION_CONSTRAINT", action_constraints)):
            cfg += ["%s %s" % (w, x) for x in xs]
        if view:
            cfg.append("VIEW " + view)
        with open(os.path.join(self.dir, root + ".cfg"), "w") as f:
            f.write("\n".join(cfg) + "\n")
        self.cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap, "-XX:TieredStopAtLevel=4",
                    "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(self.dir, "meta"), "-noGenerateSpecTE",
                    *args, "-config", root + ".cfg", root + ".tla"]
        self.env = dict(os.environ, **(env or {}))
        self.timeout = timeout

    def run(self):
        t = time.time()
        out = os.path.join(self.dir, "out.txt")
        with open(out, "w") as f:
            try:
                r = subprocess.run(self.cmd, cwd=self.dir, env=self.env, stdout=f, stderr=subprocess.STDOUT, timeout=self.timeout)
                self.rc = r.returncode
            except subprocess.TimeoutExpired:
                self.rc = -1
        self.path, keep = out, []
        with open(out, errors="replace") as f:
            for line in f:
                if not line.startswith('"'):
                    keep.append(line)
        self.out = "".join(keep[:400] + keep[400:][-400:])
        self.wall = time.time() - t
        m = re.findall(r"([\d,]+) states generated(?:[^,\n]*), ([\d,]+) distinct states found", self.out)
        self.generated, self.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        if not m:
            m = re.findall(r"The number of states generated: ([\d,]+)", self.out)
            if m:
                self.generated = int(m[-1].replace(",", ""))
        self.ok = "Model checking completed. No error has been found." in self.out
        self.violated = re.findall(r"Invariant (\S+) is violated", self.out) + \
            (["temporal"] if "Temporal properties were violated" in self.out else [])
        return self

    def json_lines(self):
        with open(self.path, errors="replace") as f:
            for line in f:
                if line.startswith('"'):
                    try:
                        yield json.loads(json.loads(line))
                    except ValueError:
                        pass


# ---------------------------------------------------------------- driver shards
def run_shard(pid, k, scripts, work, limit):
    """Run scripts in one worker process; crashes and hangs become trace events."""
    src, dst = os.path.join(work, "in%d.jsonl" % k), os.path.join(work, "out%d.jsonl" % k)
    out, start, incidents = [], 0, 0
    while start < len(scripts) and incidents < 3:
        with open(src, "w") as f:
            for s in scripts[start:]:
                f.write(json.dumps(s) + "\n")
        open(dst, "w").close()
        env = dict(os.environ, PYTHONPATH=VERIF + os.pathsep + REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONFAULTHANDLER="1",
                   PYTHONHASHSEED="0", VERIF_WORK=work)
        env.pop("VERIF_TIER", None)
        errp = os.path.join(work, "err%d.txt" % k)
        with open(errp, "a") as err:
            p = subprocess.Popen([PY, "-m", "harness.worker", pid, src, dst], cwd=work, env=env, stdout=err, stderr=err, start_new_session=True)
            last, lasttime, hung = -1, time.time(), False
            while True:
                try:
                    p.wait(0.2 if time.time() - lasttime > 1 else 0.02)
                    break
                except subprocess.TimeoutExpired:
                    sz = os.path.getsize(dst)
                    if sz != last:
                        last, lasttime = sz, time.time()
                    elif time.time() - lasttime > limit:
                        hung = True
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        break
        got = []
        with open(dst) as f:
            for line in f:
                if line.endswith("\n"):
                    got.append(json.loads(line))
        out += got
        start += len(got)
        if p.returncode == 0 and not hung:
            if start != len(scripts):
                raise Machinery("worker ended early: " + open(errp).read()[-2000:])
            break
        if p.returncode == 3:   # the driver itself reported a harness problem
            raise Machinery("driver failed: " + open(errp).read()[-3000:])
        if start < len(scripts):
            incidents += 1
            s = scripts[start]
            out.append({"cfg": s[0], "ev": [{"op": "hang" if hung else "crash"}], "crashed": p.returncode,
                        "stderr": open(errp).read()[-1500:]})
            start += 1
        else:
            # every script was run and recorded, the process died afterwards (at interpreter exit)
            incidents += 1
            out.append({"cfg": scripts[-1][0], "ev": [{"op": "crash"}], "crashed": p.returncode, "stderr": open(errp).read()[-1500:]})
            scripts = scripts + [scripts[-1]]
            break
    return scripts[:len(out)], out


def drive(pid, scripts, work, limit, shards):
    n = max(1, min(shards, len(scripts) // 20 or 1))
    parts = [scripts[i::n] for i in range(n)]
    with cf.ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda a: run_shard(pid, a[0], a[1], work, limit), enumerate(parts)))
    pairs = []
    for ss, tt in res:
        pairs += list(zip(ss, tt))
    return pairs


# ---------------------------------------------------------------- trace validation
def validate(mon, traces, work, jvms, heap="3g"):
    """TLC decides every trace. Returns ({index: (pos, clauses)}, states, generated)."""
    tmpl = open(os.path.join(SPEC, "Trace.tla.in")).read().replace("@MON@", mon)
    total = sum(len(t["ev"]) for t in traces)
    n = max(1, min(jvms, total // 15000 + 1))
    idx = [list(range(i, len(traces), n)) for i in range(n)]

    def one(ix):
        path = os.path.join(work, "traces-%s-%d.json" % (mon, ix[0]))
        with open(path, "w") as f:
            json.dump([{"cfg": traces[i]["cfg"], "ev": traces[i]["ev"]} for i in ix], f)
        t = TLC(work, "Trace", text=tmpl, workers=max(1, CORES // n), env={"TRACES": path}, heap=heap).run()
        if not t.ok:
            raise Machinery("trace validation failed:\n" + t.out[-3000:])
        rej = {}
        for x in t.json_lines():
            if x[0] == "REJECT":
                rej[ix[x[1] - 1]] = (x[2], sorted(x[3]))
        want = sum(len(traces[i]["ev"]) + 1 if i not in rej else rej[i][0] + 1 for i in ix)
        if t.distinct != want:
            raise Machinery("trace validation consumed %d states instead of %d" % (t.distinct, want))
        return rej, t.distinct, t.generated
    with cf.ThreadPoolExecutor(n) as ex:
        res = list(ex.map(one, [i for i in idx if i]))
    rej = {}
    for r, _, _ in res:
        rej.update(r)
    return rej, sum(r[1] for r in res), sum(r[2] for r in res)


# ---------------------------------------------------------------- known findings
def known_findings(pid):
    """Lines `finding: property=<id> clause=<substring> script=<sha1 prefix | *> <what fails>`."""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) clause=\"([^\"]*)\" script=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def script_id(s):
    return hashlib.sha1(json.dumps(s, sort_keys=True).encode()).hexdigest()[:12]


# ---------------------------------------------------------------- main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--no-model", action="store_true")
    ap.add_argument("--no-build", action="store_true")
    a = ap.parse_args()
    pid = a.id
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = importlib.import_module("harness.props." + pid.lower())
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        code = check(P, pid, tier, seed, work, a)
    finally:
        if a.keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def check(P, pid, tier, seed, work, a):
    if not a.no_build:
        build()
    log("built")
    thorough = tier == "thorough"
    spec = P.spec(tier)
    rng = random.Random(seed)
    pool = cf.ThreadPoolExecutor(8)
    # --- the specification itself
    futs = []
    if not a.replay and not a.no_model:
        for m in spec.get("models", []):
            futs.append((m, pool.submit(TLC(work, m["module"], m.get("constants"), invariants=m.get("invariants", ()),
                                            properties=m.get("properties", ()), constraints=m.get("constraints", ()),
                                            spec=m.get("spec", "Spec"), view=m.get("view"), workers=m.get("workers", 3),
                                            heap=m.get("heap", "4g"), args=m.get("args", ())).run)))
    # --- scripts
    ginfo, scripts = [], []
    if a.replay:
        scripts = [json.load(open(a.replay))["script"]]
    else:
        gens = []
        for g in spec["gens"]:
            if g["mode"] == "all":      # one script per transition of the reachable graph
                t = TLC(work, g["module"], g.get("constants"), view=g.get("view", "View"), action_constraints=[g.get("emit", "EmitAll")],
                        constraints=g.get("constraints", ()), workers=1, spec=g.get("spec", "Spec"))
            elif g["mode"] == "states":   # one script per reachable state satisfying the emit condition
                t = TLC(work, g["module"], g.get("constants"), view=g.get("view"), invariants=[], constraints=[g.get("emit", "EmitEnd")],
                        workers=1, spec=g.get("spec", "Spec"))
            else:                       # random long behaviours
                t = TLC(work, g["module"], g.get("constants"), constraints=[g.get("emit", "EmitEnd")], workers=1, spec=g.get("spec", "Spec"),
                        args=("-simulate", "num=%d" % g["num"], "-depth", str(g["depth"]), "-seed", str(seed + 7919 * len(gens))))
            gens.append((g, pool.submit(t.run)))
        seen = set()
        for g, f in gens:
            t = f.result()
            mine, n, cap = [], 0, g.get("cap") or 200000
            for x in t.json_lines():
                k = hashlib.md5(json.dumps(x, sort_keys=True).encode()).digest()
                if k in seen:
                    continue
                seen.add(k)
                n += 1
                if len(mine) < cap:
                    mine.append(x)
                elif rng.random() * n < cap:        # reservoir sampling
                    mine[rng.randrange(cap)] = x
            os.unlink(t.path)
            if not mine or (g["mode"] != "sim" and not t.ok) or (g["mode"] == "sim" and "Error:" in t.out):
                raise Machinery("generator %s failed:\n%s" % (g["module"], t.out[-3000:]))
            ginfo.append({"module": g["module"], "mode": g["mode"], "constants": repr(g.get("constants")), "scripts": n, "used": len(mine),
                          "states": t.distinct, "transitions": t.generated})
            log("gen", g["module"], g["mode"], n, "scripts, used", len(mine), "%.1fs" % t.wall)
            scripts += mine
        if hasattr(P, "extra_scripts"):
            ex = P.extra_scripts(tier, rng)
            scripts += ex
            ginfo.append({"module": "extra", "mode": "listed", "scripts": len(ex), "used": len(ex)})
    # --- the real code
    t0 = time.time()
    pairs = drive(pid, scripts, work, getattr(P, "LIMIT", 25), getattr(P, "SHARDS", CORES))
    log("drove", len(pairs), "scripts in %.1fs" % (time.time() - t0))
    traces, index = [], {}
    first = []
    for s, t in pairs:
        k = json.dumps([t["cfg"], t["ev"]], sort_keys=True)
        if k not in index:
            index[k] = len(traces)
            traces.append(t)
            first.append(s)
    ops = {}
    for t in traces:
        for e in t["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    # --- binding self test: corrupted copies of recorded traces must be refused
    ncorr, corr = len(traces), []
    if not a.replay and hasattr(P, "corruptions"):
        order = list(range(len(traces)))
        rng.shuffle(order)
        counts = {}
        for i in order:
            if any(e["op"] in ("crash", "hang", "livelock", "harness") for e in traces[i]["ev"]):
                continue
            for name, ev in P.corruptions(traces[i]["cfg"], traces[i]["ev"]):
                if counts.get(name, 0) < 3:
                    counts[name] = counts.get(name, 0) + 1
                    corr.append((name, i))
                    traces.append({"cfg": traces[i]["cfg"], "ev": ev})
    t0 = time.time()
    rej, tstates, tgen = validate(P.MONITOR, traces, work, 4 if thorough else 3)
    log("validated", len(traces), "traces,", tstates, "states in %.1fs" % (time.time() - t0))
    unrefused = [corr[i - ncorr] for i in range(ncorr, len(traces)) if i not in rej]
    unrefused = [(n, i) for n, i in unrefused if i not in rej]
    bad = {i: r for i, r in rej.items() if i < ncorr}
    # --- model results
    minfo, mfail = [], []
    for m, f in futs:
        t = f.result()
        good = bool(t.violated) if m.get("expect_violation") else t.ok
        minfo.append({"module": m["module"], "constants": repr(m.get("constants")), "states": t.distinct, "transitions": t.generated,
                      "invariants": list(m.get("invariants", ())) + list(m.get("properties", ())), "wall_s": round(t.wall, 1),
                      "expected_violation": bool(m.get("expect_violation"))})
        log("model", m["module"], "mutant" if m.get("expect_violation") else "", t.distinct, "states %.1fs" % t.wall, "ok" if good else "FAIL")
        if not good:
            mfail.append((m["module"], t.out[-2500:]))
    # --- verdict
    known = known_findings(pid)
    violations, kf = [], {}
    for i, (pos, clauses) in sorted(bad.items()):
        sid = script_id(first[i])
        left = []
        for c in clauses:
            for kc, ks, kd in known:
                if kc in c and (ks == "*" or sid.startswith(ks)):
                    kf[kd] = kf.get(kd, 0) + 1
                    break
            else:
                left.append(c)
        if left:
            violations.append((i, pos, left))
    for kd in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, kd))
    missing = [o for o in getattr(P, "MUST_SEE", ()) if not ops.get(o)]
    wall = time.time() - T0
    if not a.replay:
        evidence(P, pid, tier, seed, minfo, ginfo, traces[:ncorr], tstates, tgen, ops, corr, unrefused, violations, kf, wall, len(pairs))
    if violations:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        violations.sort(key=lambda v: len(first[v[0]]))
        i, pos, clauses = violations[0]
        path = a.replay or os.path.join(rd, "%s-%s.json" % (pid, script_id(first[i])))
        if not a.replay:
            with open(path, "w") as f:
                json.dump({"property": pid, "monitor": P.MONITOR, "clauses": clauses, "position": pos, "script": first[i], "trace": traces[i],
                           "how_to_replay": "python3 check.py %s --replay %s" % (pid, path)}, f, indent=1)
        by = {}
        for _, _, cs in violations:
            for c in cs:
                by[c] = by.get(c, 0) + 1
        for c, n in sorted(by.items(), key=lambda x: -x[1]):
            print("  %d traces: %s" % (n, c))
        if os.environ.get("VERIF_VERBOSE"):
            shown = set()
            for i2, pos2, cs in violations:
                for c in cs:
                    if c not in shown:
                        shown.add(c)
                        print("  --", c, "\n     script:", json.dumps(first[i2]), "\n     refused at %d of:" % pos2, json.dumps(traces[i2]["ev"][:pos2 + 1]))
        print("  shortest script:", json.dumps(first[i])[:1500])
        print("  refused at event %d of:" % pos, json.dumps(traces[i]["ev"][max(0, pos - 12):pos])[:2500])
        if traces[i].get("stderr"):
            print("  stderr:", traces[i]["stderr"][-800:])
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1
    if a.replay:
        print("replayed: no clause violated;", json.dumps(traces[0])[:3000])
        return 0
    if mfail:
        raise Machinery("the specification itself fails: " + repr(mfail[0][0]) + "\n" + mfail[0][1])
    # a kind of corruption that is never refused means the monitor is blind to it;
    # single accepted copies are unlucky picks (what was altered was not promised in that trace)
    blind = {n for n, i in corr if i not in rej} - {n for (n, i), j in zip(corr, range(ncorr, len(traces))) if j in rej and i not in rej}
    if blind:
        raise Machinery("corrupted traces were accepted: %r" % [(n, first[i], traces[ncorr + corr.index((n, i))]) for n, i in unrefused[:2]])
    if unrefused:
        log("NOTE corrupted copies accepted:", [(n, first[i]) for n, i in unrefused][:4])
    if missing:
        raise Machinery("vacuous: no %s event was ever observed" % missing)
    print("OK property=%s %d traces of %d executions validated, %d model states, %.1fs" % (pid, ncorr, len(pairs), sum(m["states"] for m in minfo), wall))
    return 0


def evidence(P, pid, tier, seed, minfo, ginfo, traces, tstates, tgen, ops, corr, unrefused, violations, kf, wall, nexec):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    samples = sorted(traces, key=lambda t: abs(len(t["ev"]) - 14))[:2]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(m["states"] for m in minfo if not m["expected_violation"]),
            "transitions": sum(m["transitions"] for m in minfo if not m["expected_violation"]),
            "traces_validated_against_impl": len(traces),
            "samples": samples,
            "executions": nexec,
            "trace_states": tstates,
            "models": minfo, "generators": ginfo,
            "events_observed": ops,
            "corrupted_traces_refused": len(corr) - len(unrefused),
            "corrupted_traces": len(corr),
        },
        "assumptions": getattr(P, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    if kf:
        ev["coverage"]["known_findings_seen"] = kf
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    T0 = time.time()
    try:
        main()
    except Machinery as e:
        print("MACHINERY:", e, flush=True)
        sys.exit(2)
