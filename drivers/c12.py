"""C12: CachingFieldTracer over histories of requests, processes, failures and kills.

Every process of the history is a real process.  It stops (a) in the wrapped tracer and (b) whenever the
code is about to open a file for writing, rename or link in the cache directory (seen by an audit hook, so
independent of how the files are written); there it can be told to go on, to fail, or be killed.  Failures
and kills in the middle of writing come from a file size limit."""
import json, os, resource, shutil, signal, subprocess, sys, tempfile
import numpy as np
from vf import fx, REPO
from zoidberg.fieldtracer import CachingFieldTracer

MC = ["MCCache", "MCCacheDeep"]
TRACE = "TraceCache"
ASSUMPTIONS = ["one cache name is used for one tracer only", "the cache directory is writable and a rename is atomic"]

# ------------------------------------------------------------------ requests
def R(x, z, y, **kw):
    return dict(x=x, z=z, y=y, kw=kw)
POOL = [
    R([1, 2], [3, 4], [0, 1]), R([1, 2], [3, 4], [0, 2]), R([1, 2], [3, 4], [1, 0]), R([3, 4], [1, 2], [0, 1]), R([2, 1], [4, 3], [0, 1]),
    R([1, 2, 3], [4, 5, 6], [0, 1]), R([[1, 2, 3], [4, 5, 6]], [[1, 2, 3], [4, 5, 6]], [0, 1]), R([[1, 2], [3, 4], [5, 6]], [[1, 2], [3, 4], [5, 6]], [0, 1]),
    R([1, 2, 3, 4, 5, 6], [1, 2, 3, 4, 5, 6], [0, 1]), R([[[1, 2]], [[3, 4]]], [[[1, 2]], [[3, 4]]], [0, 1]),
    R(1, 2, [0, 1]), R([1], [2], [0, 1, 2]), R(1, [2, 3], [0, 1]), R([2, 3], 1, [0, 1]), R([1.0], [11.0], [0, 1]), R([11.0], [1.0], [0, 1]), R([1.1], [1.0], [0, 1]),
    R([0.1, 0.2], [0.3, 0.4], [0, 0.5]), R([0.1, 0.2], [0.30000000000000004, 0.4], [0, 0.5]), R([0.1, -0.2], [0.3, 0.4], [0, 0.5]), R([-0.1, 0.2], [0.3, 0.4], [0, 0.5]),
    R([1, 2], [3, 4], [0, 1], rtol=1e-3), R([1, 2], [3, 4], [0, 1], rtol=1e-8), R([1, 2], [3, 4], [0, 1], chunk=3), R([1, 2], [3, 4], [0, 1], rtol=1e-3, chunk=3), R([1, 2], [3, 4], [0, 1], rtol=3, chunk=1e-3),
    R([1e-12, 2], [3, 4], [0, 1]), R([1.0000000001, 2], [3, 4], [0, 1]), R([1, 2], [3, 4], [0, 1e-9]), R([1, 2], [3, 4], [0, 1, 2, 3]), R([1, 2], [3, 4], [0.0, 1.5, 3.0]),
    R([1, 2, 3, 4], [0, 0, 0, 0], [0, 1]), R([1, 2], [3, 4, 5, 6][:2], [5, 6]), R([12, 3], [4, 5], [0, 1]), R([1, 23], [4, 5], [0, 1]), R(list(range(2000)), list(range(2000)), [0, 1]), R(list(range(1000)) + [5] + list(range(1001, 2000)), list(range(2000)), [0, 1]),
    R([1234567.125, 2], [3, 4], [0, 1]), R([1234567.25, 2], [3, 4], [0, 1]),
]

class Inner:
    """the wrapped tracer: a result which identifies the request"""
    def __init__(self, gate=None):
        self.calls = 0
        self.gate = gate
    def follow_field_lines(self, x, z, y, rtol=None, chunk=0):
        self.calls += 1
        if self.gate:
            self.gate("trace")
        x, z = np.atleast_1d(np.asarray(x, float)), np.atleast_1d(np.asarray(z, float))
        x, z = np.broadcast_arrays(x, z)
        y = np.asarray(y, float)
        n = np.arange(x.size).reshape(x.shape)
        s = (0 if rtol is None else -np.log10(rtol) * 0.011) + chunk * 0.017
        return np.array([[x + 0.25 * (v - y[0]) + 1e-3 * n + s * (v - y[0]), z - 3.5 * (v - y[0]) * (1 + 0.1 * n + 0.01 * v)] for v in y]).transpose((0,) + tuple(range(2, 2 + x.ndim)) + (1,)).copy()

def mk(v, how):
    if how == "list" or np.ndim(v) == 0:
        return v
    a = np.array(v)
    return a.astype(float) if how == "f" else a

def expected(r):
    return Inner().follow_field_lines(r["x"], r["z"], r["y"], **r["kw"])

# ------------------------------------------------------------------ one process of the history
class Killed(Exception):
    pass

def child(cmdr, evw, cachename, cachedir, how):
    state = dict(active=False, fault="none")
    out = os.fdopen(evw, "w", buffering=1)
    inp = os.fdopen(cmdr, "r")
    def gate(what):
        if not state["active"]:
            return
        out.write(json.dumps(dict(at=what)) + "\n"); out.flush()
        line = inp.readline()
        if not line:
            os._exit(3)
        c = json.loads(line)
        if c["do"] == "fail":
            state["fault"] = c["fault"]
            if what == "trace":
                raise RuntimeError("tracing failed")
            resource.setrlimit(resource.RLIMIT_FSIZE, (c["bytes"], resource.RLIM_INFINITY))
        elif c["do"] == "diewriting":
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (c["bytes"], resource.RLIM_INFINITY))
    def hook(ev, args):
        if not state["active"]:
            return
        if ev == "open" and isinstance(args[0], (str, bytes)):
            mode, flags = args[1], args[2] or 0
            wr = (isinstance(mode, str) and any(c in mode for c in "wax+")) or (flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
            if wr and os.path.abspath(os.fsdecode(args[0])).startswith(cachedir):
                gate("open")
        elif ev in ("os.rename", "os.link", "os.symlink", "shutil.move"):
            if os.path.abspath(os.fsdecode(args[0])).startswith(cachedir):
                gate("rename")
    sys.addaudithook(hook)
    inner = Inner(gate)
    tr = CachingFieldTracer(inner, cachename=cachename)
    while True:
        line = inp.readline()
        if not line:
            os._exit(0)
        c = json.loads(line)
        r = POOL[c["r"]]
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        inner.calls = 0
        state.update(active=True, fault="none")
        a = [mk(r["x"], how), mk(r["z"], how), mk(r["y"], how)]
        keep = [np.array(v, copy=True) for v in a]
        try:
            res = tr.follow_field_lines(*a, **r["kw"])
            o = dict(out="ok", res=[fx(v, 10**(6 if abs(v) < 900 else 2)) for v in np.ravel(res)][:400], shape=list(np.shape(res)))
            res[...] = -77.0                     # the caller may do what he wants with his result
        except Killed:
            raise
        except BaseException as e:
            o = dict(out=type(e).__name__, res=[], shape=[], err=str(e))
        state["active"] = False
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        w = expected(r)
        o.update(ev="end", calls=inner.calls, fault=state["fault"], want=[fx(v, 10**(6 if abs(v) < 900 else 2)) for v in np.ravel(w)][:400], wshape=list(w.shape),
                 kept=bool(all(np.array_equal(k, np.asarray(v)) for k, v in zip(keep, a))))
        out.write(json.dumps(o) + "\n"); out.flush()

class Proc:
    def __init__(self, pid, cachename, cachedir, how):
        self.p = pid
        cr, cw = os.pipe(); er, ew = os.pipe()
        self.ospid = os.fork()
        if self.ospid == 0:
            try:
                os.close(cw); os.close(er)
                child(cr, ew, cachename, cachedir, how)
            finally:
                os._exit(9)
        os.close(cr); os.close(ew)
        self.cw = os.fdopen(cw, "w", buffering=1)
        self.er = os.fdopen(er, "r")
        self.at = None       # None: idle
        self.r = None
    def send(self, **c):
        try:
            self.cw.write(json.dumps(c) + "\n"); self.cw.flush()
        except BrokenPipeError:
            pass
    def wait(self):
        """-> event or None (paused); dead -> 'dead'"""
        line = self.er.readline()
        if not line:
            return "dead"
        m = json.loads(line)
        if "at" in m:
            self.at = m["at"]
            return None
        self.at = None
        return m
    def close(self, kill=False):
        if True:      # idle or to be killed: nothing is lost
            try:
                os.kill(self.ospid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        try:
            self.cw.close()
        except BrokenPipeError:
            pass
        self.er.close()
        os.waitpid(self.ospid, 0)

def scenarios(mc, rng, tier):
    scs = []
    hs = [m["hist"] for m in mc]
    if tier == "quick":
        hs = rng.sample(hs, min(len(hs), 320))
    else:
        hs = rng.sample(hs, min(len(hs), 12000))
    n = len(POOL)
    for h in hs:
        a, b = rng.sample(range(n), 2)
        if rng.random() < 0.3:          # neighbours in the pool are easily confused requests
            a = rng.randrange(n - 1); b = a + 1
        scs.append(dict(hist=h, ab=[a, b], how=rng.choice(["list", "f", "a"]), bytes=rng.choice([0, 1, 30, 60, 4096]), ext=rng.choice(["", "", ".txt", ".gz"])))
    # all pairs in one directory, one process after the other
    for k in range(2 if tier == "quick" else 12):
        order = rng.sample(range(n), n)
        scs.append(dict(kind="all", order=order, how=rng.choice(["list", "f", "a"]), ext=""))
    # other interpreters
    scs.append(dict(kind="fresh", reqs=[0, 6, 11, 21, 23], ext=""))
    scs.append(dict(kind="forms", ext=""))
    # many requests, under the default name
    for k in range(2 if tier == "quick" else 6):
        scs.append(dict(kind="many", n=1500 if tier == "quick" else 6000, sub=k, seed=rng.randrange(10**6), ext=""))
    return scs

def execute(sc):
    d = tempfile.mkdtemp(prefix="cache_", dir=os.environ.get("VF_WORK"))
    try:
        name = os.path.join(d, "tr_%10.10s" + sc["ext"])
        return globals()["do_" + sc.get("kind", "hist")](sc, d, name)
    finally:
        shutil.rmtree(d)

def do_hist(sc, d, name):
    evs = [dict(ev="reset")]
    procs = {}
    rid = {"a": sc["ab"][0], "b": sc["ab"][1]}
    def note(P, m):
        if m == "dead":
            evs.append(dict(ev="kill", p=P.p)); P.close(); procs.pop(P.p)
        elif m is not None:
            m.update(p=P.p, r=P.r)
            evs.append(m)
    def get(p):
        if p not in procs:
            procs[p] = Proc(p, name, d, sc["how"])
        return procs[p]
    def begin(p, r):
        P = get(p)
        P.r = r
        evs.append(dict(ev="begin", p=p, r=r))
        P.send(r=r)
        note(P, P.wait())
    def finish(p):
        while p in procs and procs[p].at is not None:
            P = procs[p]; P.send(do="go"); note(P, P.wait())
    for h in sc["hist"]:
        p, a = h["p"], h["a"]
        if a == "restart":
            continue
        if a == "begin":
            finish(p)
            begin(p, rid[h["r"]])
            continue
        P = procs.get(p)
        if P is None or P.at is None:
            continue                          # it needed fewer steps than the model
        if a in ("traced", "written", "renamed"):
            P.send(do="go"); note(P, P.wait())
        elif a == "tracefail":
            if P.at == "trace":
                P.send(do="fail", fault="tracefail", bytes=0); note(P, P.wait())
        elif a == "writefail":
            P.send(do="fail", fault="writefail", bytes=sc["bytes"])
            note(P, P.wait()); finish(p)
        elif a == "killwriting":
            P.send(do="diewriting", bytes=sc["bytes"])
            m = P.wait(); note(P, m)
            if p in procs and procs[p].at is not None:        # not killed by the limit (no write before the next step)
                procs[p].close(kill=True); evs.append(dict(ev="kill", p=p)); procs.pop(p)
        elif a == "kill":
            P.close(kill=True); evs.append(dict(ev="kill", p=p)); procs.pop(p)
    for p in list(procs):
        finish(p)
    for p in list(procs):
        procs.pop(p).close()
    # afterwards everybody gets everything, the second time without tracing
    for rnd in range(2):
        for r in sc["ab"]:
            begin(9, r); finish(9)
    for p in list(procs):
        procs.pop(p).close()
    return evs

def do_all(sc, d, name):
    evs = [dict(ev="reset")]
    for rnd in range(2):
        P = Proc(rnd, name, d, sc["how"])
        for r in sc["order"] if rnd == 0 else sc["order"][::-1]:
            evs.append(dict(ev="begin", p=rnd, r=r))
            P.r = r; P.send(r=r)
            m = P.wait()
            while m is None:
                P.send(do="go"); m = P.wait()
            if m == "dead":
                evs.append(dict(ev="exc", exc="CRASH")); return evs
            m.update(p=rnd, r=r); evs.append(m)
        P.close()
    return evs

def do_fresh(sc, d, name):
    """interpreters started separately (their own hash seed)"""
    code = ("import sys, json; sys.path[:0] = %r; import c12\n"
            "for l in c12.fresh(%r, %r): print('EV ' + json.dumps(l))" % ([REPO, os.path.dirname(__file__), os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib")], name, sc["reqs"]))
    evs = [dict(ev="reset")]
    for seed in ("1", "2"):
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=dict(os.environ, PYTHONHASHSEED=seed), capture_output=True, text=True)
        if p.returncode:
            evs.append(dict(ev="exc", exc="CRASH", msg=p.stderr[-300:]))
        evs += [json.loads(l[3:]) for l in p.stdout.splitlines() if l.startswith("EV ")]
    return evs

def fresh(name, reqs):
    res = []
    inner = Inner(); tr = CachingFieldTracer(inner, cachename=name)
    for r in reqs:
        res.append(dict(ev="begin", p=1, r=r))
        res.append(one(tr, inner, POOL[r], r, "f"))
    return res

def one(tr, inner, r, rid, how):
    inner.calls = 0
    w = expected(r)
    try:
        v = tr.follow_field_lines(mk(r["x"], how), mk(r["z"], how), mk(r["y"], how), **r["kw"])
        o = dict(out="ok", res=[fx(q, 10**(6 if abs(q) < 900 else 2)) for q in np.ravel(v)][:400], shape=list(np.shape(v)))
    except Exception as e:
        o = dict(out=type(e).__name__, res=[], shape=[])
    o.update(ev="end", p=1, r=rid, calls=inner.calls, fault="none", want=[fx(q, 10**(6 if abs(q) < 900 else 2)) for q in np.ravel(w)][:400], wshape=list(w.shape), kept=True)
    return o

def do_forms(sc, d, name):
    """lists, integer and float arrays of the same numbers are the same request; so is another tracer object"""
    evs = [dict(ev="reset")]
    for rid in (0, 5, 7, 10, 12):
        for how in ("f", "list", "a"):
            inner = Inner(); tr = CachingFieldTracer(inner, cachename=name)
            evs.append(dict(ev="begin", p=1, r=rid))
            e = one(tr, inner, POOL[rid], rid, how)
            if how != "f":
                e["calls"] = 0          # a cache may or may not see these as one request; the answer counts
            evs.append(e)
    return evs

def do_many(sc, d, name):
    """hundreds of requests with the default name, in the current directory"""
    rng = np.random.default_rng(sc["seed"])
    reqs = []
    for i in range(sc["n"]):
        k = i % 4
        if k == 0:
            reqs.append(R([float(i)], [1.0], [0, 1]))
        elif k == 1:
            reqs.append(R(list(rng.uniform(-1, 1, 2)), list(rng.uniform(-1, 1, 2)), [0, 1]))
        elif k == 2:
            reqs.append(R([0.5], [0.5], [0, 1 + i * 1e-6]))
        else:
            reqs.append(R([0.5, 0.25], [0.5, 1.0], [0, 1], rtol=1e-8 * (i + 1)))
    here = os.getcwd()
    os.chdir(d)
    wrong = [0, 0]; calls = [0, 0]
    try:
        for rnd in range(2):
            inner = Inner(); tr = CachingFieldTracer(inner)
            for r in reqs if rnd == 0 else reqs[::-1]:
                v = tr.follow_field_lines(np.array(r["x"]), np.array(r["z"]), np.array(r["y"]), **r["kw"])
                w = expected(r)
                wrong[rnd] += int(np.shape(v) != w.shape or not np.allclose(v, w, rtol=1e-12, atol=1e-12))
            calls[rnd] = inner.calls
    finally:
        os.chdir(here)
    return [dict(ev="reset"), dict(ev="many", n=len(reqs), wrong=wrong, calls=calls)]
