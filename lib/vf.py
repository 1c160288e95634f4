"""Framework shared by all checks.

One check = one TLA+ model (specs/MC*.tla, exhaustively explored by TLC, which also emits the
scenarios), one driver (drivers/cNN.py, executes the scenarios on the real code in /repo and
records a trace) and one trace specification (specs/Trace*.tla, TLC judges every recorded event).

Run as   /opt/venv/bin/python /verif/lib/vf.py C01 [quick|thorough]
"""
import importlib, json, math, multiprocessing, os, random, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar"
BIG, NAN = 1000000000, 1000000001
NPROC = int(os.environ.get("VF_PROCS", "8"))

# ---------------------------------------------------------------- numbers
def fx(v, scale=1000000):
    """float -> fixed point integer TLC can compare; NaN/inf -> sentinel, clamped."""
    try:
        v = float(v)
    except Exception:
        return NAN
    if math.isnan(v) or math.isinf(v):
        return NAN
    w = v * scale
    if abs(w) >= BIG:
        return BIG if w > 0 else -BIG
    return int(round(w))

def fxa(a, scale=1000000):
    """array -> nested list of fixed point integers"""
    import numpy as np
    a = np.asarray(a)
    if a.ndim == 0:
        return fx(a, scale)
    return [fxa(x, scale) for x in a]

def ints(a):
    import numpy as np
    a = np.asarray(a)
    if a.ndim == 0:
        v = float(a)
        if math.isnan(v) or math.isinf(v) or abs(v) > BIG or v != int(v):
            return NAN
        return int(v)
    return [ints(x) for x in a]

def call(f, *a, **k):
    """-> (value, exception class name or "none")"""
    try:
        return f(*a, **k), "none"
    except BaseException as e:                                  # noqa
        if isinstance(e, KeyboardInterrupt):
            raise
        return None, type(e).__name__

# ---------------------------------------------------------------- TLC
_tlc_cp = None
def tlc_cmd(heap="2g"):
    global _tlc_cp
    if _tlc_cp is None:
        # same class path as the installed `tlc` wrapper (CommunityModules)
        txt = open(shutil.which("tlc")).read()
        m = re.search(r"-cp\s+\"?([^\s\"]+)", txt)
        _tlc_cp = m.group(1) if m else TLA_CP
    return ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + os.environ.get("VF_WORK", "/tmp"), "-cp", _tlc_cp, "tlc2.TLC"]

class MachineryError(Exception):
    pass

def run_tlc(module, workdir, env=None, workers=1, timeout=700, heap="2g", cfg=None, extra=()):
    meta = tempfile.mkdtemp(prefix="meta", dir=workdir)
    cmd = tlc_cmd(heap) + ["-workers", str(workers), "-deadlock", "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(SPECS, (cfg or module) + ".cfg"), *extra, os.path.join(SPECS, module + ".tla")]
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        raise MachineryError(f"TLC on {module} exceeded {timeout}s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)

def tlc_counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        return int(m[-1][0]), int(m[-1][1])
    return 0, 0

def emitted(out, tag="VFSCEN "):
    """records emitted by a model with PrintT("VFSCEN " \\o ToJson(..))"""
    res = []
    for line in out.splitlines():
        if line.startswith('"' + tag):
            s = json.loads(line)
            res.append(json.loads(s[len(tag):]))
    return res

# ---------------------------------------------------------------- executing scenarios
def _run_chunk(args):
    modname, scs, out = args
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1); os.dup2(null, 2)              # the code under test prints a lot
    os.environ.setdefault("MPLBACKEND", "Agg")
    mod = importlib.import_module(modname)
    with open(out, "w") as f:
        for i, sc in scs:
            f.write(json.dumps({"start": i}) + "\n"); f.flush()
            try:
                evs = mod.execute(sc)
            except BaseException as e:                           # noqa
                evs = [{"ev": "exc", "exc": type(e).__name__, "msg": (str(e) + " | " + traceback.format_exc()[-400:])}]
            for ev in evs:
                ev["sc"] = i
                f.write(json.dumps(ev, default=lambda o: o.tolist()) + "\n")
            f.flush()

def execute_all(modname, scenarios, workdir, nproc=None, timeout=600, chunk=None):
    """Runs mod.execute(sc) for every scenario in subprocesses; returns list of events (with sc = index)."""
    nproc = nproc or NPROC
    n = len(scenarios)
    # interleave so that each process gets a similar mix
    parts = [[(i, scenarios[i]) for i in range(k, n, nproc)] for k in range(min(nproc, max(n, 1)))]
    procs = []
    ctx = multiprocessing.get_context("fork")
    for k, part in enumerate(parts):
        out = os.path.join(workdir, f"ev{k}.ndjson")
        p = ctx.Process(target=_run_chunk, args=((modname, part, out),))
        p.start()
        procs.append((p, out, part))
    t_end = time.time() + timeout
    events = {}
    for p, out, part in procs:
        p.join(max(1, t_end - time.time()))
        hung = p.is_alive()
        if hung:
            p.kill(); p.join()
        cur = None
        seen = set()
        if os.path.exists(out):
            for line in open(out):
                try:
                    ev = json.loads(line)
                except ValueError:
                    continue
                if "start" in ev and len(ev) == 1:
                    cur = ev["start"]; seen.add(cur); events.setdefault(cur, [])
                else:
                    events[ev["sc"]].append(ev)
        if hung or p.exitcode != 0:
            if cur is None:
                cur = part[0][0]
            events.setdefault(cur, []).append({"ev": "exc", "exc": "HANG" if hung else "CRASH", "msg": f"exit {p.exitcode}", "sc": cur})
    return events

# ---------------------------------------------------------------- trace validation
def validate(module, events, workdir, shards=None, timeout=700, heap="2g"):
    """events: {scenario index: [event]} -> list of (scenario index, event, clause); raises MachineryError"""
    order = sorted(events)
    total = sum(len(events[i]) for i in order)
    if total == 0:
        raise MachineryError("no events recorded")
    shards = shards or max(1, min(NPROC, total // 150 + 1))
    parts = [[] for _ in range(shards)]
    sizes = [0] * shards
    for i in order:
        k = sizes.index(min(sizes))
        parts[k].append(i)
        sizes[k] += sum(len(json.dumps(e)) for e in events[i]) + 50
    jobs = []
    for k, idx in enumerate(parts):
        if not idx:
            continue
        fn = os.path.join(workdir, f"trace{k}.ndjson")
        lines = []
        with open(fn, "w") as f:
            for i in idx:
                for ev in events[i]:
                    e = {kk: v for kk, v in ev.items() if kk != "msg"}
                    f.write(json.dumps(e) + "\n")
                    lines.append((i, ev))
        if lines:
            jobs.append((k, fn, lines))
    from concurrent.futures import ThreadPoolExecutor
    def one(job):
        k, fn, lines = job
        bad, gen, dist = [], 0, 0
        for attempt in range(6):
            rc, out = run_tlc(module, workdir, env={"VF_TRACE": fn}, timeout=timeout, heap=heap)
            st = tlc_counts(out)
            gen += st[0]; dist += st[1]
            for m in re.finditer(r'"VFBAD (\d+) ([^"]*)"', out):
                bad.append((lines[int(m.group(1)) - 1], m.group(2)))
            done = re.search(r'"VFDONE (\d+)"', out)
            if done and int(done.group(1)) == len(lines):
                return bad, (gen, dist)
            # Numbers or shapes the specification has no meaning for (an index outside a recorded
            # array, a product beyond TLC's integers): that event cannot be a behaviour of the
            # specification. Record it and go on behind its scenario.
            at = re.findall(r"^(?:/\\ )?l = (\d+)\s*$", out, re.M)
            if "TLC threw an unexpected exception" not in out and "Attempted to" not in out and "overflow" not in out.lower() and "evaluating" not in out.lower():
                at = []
            if not at or int(at[-1]) > len(lines):
                break
            n = int(at[-1])
            bad.append((lines[n - 1], "outside_the_specification"))
            rest = [x for x in lines[n:] if x[0] != lines[n - 1][0]]
            if not rest or attempt == 5:
                return bad, (gen, dist)
            lines = rest
            with open(fn, "w") as f:
                for i, ev in lines:
                    f.write(json.dumps({kk: v for kk, v in ev.items() if kk != "msg"}) + "\n")
        if bad:
            return bad, (gen, dist)
        raise MachineryError(f"trace validation of {module} did not finish:\n" + out[-3000:])
    bad, gen, dist = [], 0, 0
    with ThreadPoolExecutor(len(jobs)) as ex:
        for b, st in ex.map(one, jobs):
            bad += b; gen += st[0]; dist += st[1]
    res = [(i, ev, clause) for ((i, ev), clause) in bad]
    return res, total, (gen, dist)

# ---------------------------------------------------------------- known findings
def known_findings(prop):
    res = []
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res

# ---------------------------------------------------------------- main
def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.path.insert(0, REPO)
    sys.path.insert(0, os.path.join(VERIF, "drivers"))
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    for k, v in dict(MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0").items():
        os.environ[k] = v
    sys.dont_write_bytecode = True
    workdir = tempfile.mkdtemp(prefix=f"vf_{prop}_")
    sys.pycache_prefix = os.path.join(workdir, "pyc")
    os.environ["VF_WORK"] = workdir
    rc = 2
    try:
        rc = check(prop, tier, seed, workdir, t0)
    except MachineryError as e:
        print("MACHINERY ERROR:", e)
        rc = 2
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
    sys.exit(rc)

def check(prop, tier, seed, workdir, t0):
    modname = prop.lower()
    mod = importlib.import_module(modname)
    rng = random.Random(seed * 7919 + int(prop[1:]))
    states = trans = 0
    mc_scen = []
    mcs = mod.MC if isinstance(mod.MC, (list, tuple)) else [mod.MC]
    mcinfo = {}
    for m in mcs:
        cfg = m
        if tier == "thorough" and os.path.exists(os.path.join(SPECS, m + "_thorough.cfg")):
            cfg = m + "_thorough"
        rc, out = run_tlc(m, workdir, workers=getattr(mod, "MC_WORKERS", 4), cfg=cfg, timeout=800 if tier == "quick" else 7200, heap="8g",
                          env={"VF_TIER": tier})
        if rc != 0 or "Model checking completed. No error has been found." not in out:
            raise MachineryError(f"TLC on {m} failed (rc {rc}):\n" + out[-4000:])
        g, d = tlc_counts(out)
        trans += g; states += d
        em = sorted(emitted(out), key=lambda e: json.dumps(e, sort_keys=True))
        for e in em:
            e.setdefault("src", m)
        mcinfo[m] = dict(generated=g, distinct=d, scenarios=len(em))
        mc_scen += em
    t1 = time.time()
    scs = mod.scenarios(mc_scen, rng, tier)
    if not scs:
        raise MachineryError("no scenarios")
    events = execute_all(modname, scs, workdir, nproc=getattr(mod, "NPROC", None), timeout=getattr(mod, "TIMEOUT", 600) * (1 if tier == "quick" else 10))
    t2 = time.time()
    bad, total, (tg, td) = validate(mod.TRACE, events, workdir, timeout=700 if tier == "quick" else 7200, heap=getattr(mod, "HEAP", "3g"))
    t3 = time.time()
    # --- verdict
    kf = known_findings(prop)
    hits, viol = {}, []
    for i, ev, clause in bad:
        key = clause + "@" + str(scs[i].get("key", "")) if isinstance(scs[i], dict) else clause
        for m, txt in kf:
            if m == key:
                hits[m] = txt
                break
        else:
            viol.append((i, ev, clause))
    for m, txt in hits.items():
        print(f"KNOWN-FINDING: property={prop} {txt}")
    clauses = {}
    for ev_list in events.values():
        for ev in ev_list:
            clauses[ev.get("ev", "?")] = clauses.get(ev.get("ev", "?"), 0) + 1
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=states, transitions=trans, traces_validated_against_impl=len(events),
                            events_validated=total, trace_states=td, events_by_kind=clauses, models=mcinfo,
                            model_scenarios=len(mc_scen), scenarios_executed=len(scs),
                            samples=[_short(scs[k]) for k in sorted({0, len(scs) // 2, len(scs) - 1})]),
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        replay = os.path.join(VERIF, "evidence", prop + ".replay.json")
        with open(replay, "w") as f:
            json.dump([dict(clause=c, scenario=scs[i], event=e) for i, e, c in viol[:50]], f, indent=1, default=str)
        byc = {}
        for i, e, c in viol:
            byc[c] = byc.get(c, 0) + 1
        print("failing clauses:", byc)
        i, e, c = viol[0]
        print("first:", c, _short(scs[i]), _short(e))
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if os.environ.get("VF_TIMES"):
        print("times", [round(x - t0, 1) for x in (t1, t2, t3)])
    print(f"OK property={prop} tier={tier} model states={states} scenarios={len(scs)} events={total} wall={time.time()-t0:.1f}s")
    return 0

def _short(x, n=600):
    s = json.dumps(x, default=str)
    return json.loads(s) if len(s) <= n else s[:n] + "..."

if __name__ == "__main__":
    main()
