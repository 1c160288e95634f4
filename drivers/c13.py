"""C13: FieldTracerWeb against a stand-in for the remote service, with planned failures"""
import json, os, shutil, signal, sys, tempfile, time, types
import numpy as np
from vf import fx, call
from flow import rec

MC = "MCWeb"
TRACE = "TraceWeb"
NPROC = 6
ASSUMPTIONS = ["the y positions of one request are monotonic", "an answer that arrives is right; a failing piece raises, does not answer in time, or answers with fewer lines"]
_sleep = time.sleep
NS = types.SimpleNamespace

# ------------------------------------------------------------------ the stand-in service
SRV = dict()        # plan of the current call: dir, fails[piece], mode[piece], f, natural, chunk, xs (first x of each piece)

def flow(f, x, z, y0, y1):
    d = y1 - y0
    return x + f["a"] * d + f["k"] * (y1**2 - y0**2), z + f["b"] * d + f["s"] * (x * d + f["a"] * d * d / 2)

def attempt(piece):
    """number of this attempt of the piece, counted over all processes"""
    k = 1
    while True:
        try:
            os.close(os.open(os.path.join(SRV["dir"], f"p{piece}_{k}"), os.O_CREAT | os.O_EXCL | os.O_WRONLY))
            return k
        except FileExistsError:
            k += 1

class Service:
    def trace(self, p, config, task, *a, **k):
        x1, x2, x3 = np.asarray(p.x1, float), np.asarray(p.x2, float), np.asarray(p.x3, float)
        R0, y0 = np.sqrt(x1**2 + x2**2), np.arctan2(x2, x1)
        sign = 1 if SRV["natural"] != bool(config.inverseField) else -1
        if hasattr(task, "lines"):                     # steps of a given length: direction check of the constructor
            ph = y0 + sign * task.step / R0
            return NS(lines=[NS(vertices=NS(x1=[a, r * np.cos(q)], x2=[b, r * np.sin(q)], x3=[c, c])) for a, b, c, r, q in zip(x1, x2, x3, R0, ph)])
        span = task.linesPhi.phi
        first = SRV["plan_first"]
        piece = first[(round(float(R0[0]), 3), round(float(x3[0]), 3))]
        # the first request of an attempt is the one with the shortest span
        if abs(abs(span) - SRV["span1"]) < 1e-6:
            Service.now = attempt(piece)
        n = Service.now
        if n <= SRV["fails"][piece] and abs(abs(span) - SRV["failspan"]) < 1e-6:
            mode = SRV["mode"][piece]
            if mode == "exc":
                raise RuntimeError("service failed")
            if mode == "hang":
                _sleep(120)
        y = SRV["y0"]
        R, Z = flow(SRV["f"], R0, x3, y, y + sign * abs(span))
        ph = y + sign * abs(span)
        lines = [NS(vertices=NS(x1=np.array([a, r * np.cos(ph)]), x2=np.array([b, r * np.sin(ph)]), x3=np.array([c, z]))) for a, b, c, r, z in zip(x1, x2, x3, R, Z)]
        if n <= SRV["fails"][piece] and abs(abs(span) - SRV["failspan"]) < 1e-6 and SRV["mode"][piece] == "short":
            lines = lines[:-1]
        return NS(lines=lines)

class Types:
    def __getattr__(self, name):
        return lambda *a, **k: NS()

class Client:
    def __init__(self, url, *a, **k):
        self.types, self.service = Types(), Service()

def install():
    osa = types.ModuleType("osa"); osa.Client = Client
    sys.modules["osa"] = osa
    req = types.ModuleType("requests")
    req.get = lambda *a, **k: NS(raise_for_status=lambda: None)
    sys.modules["requests"] = req
    time.sleep = lambda *_: None

# ------------------------------------------------------------------ scenarios
def scenarios(mc, rng, tier):
    scs = []
    ms = [m for m in mc]
    if tier == "quick":
        ms = rng.sample(ms, min(len(ms), 130))
    for m in ms:
        n = len(m["fails"])
        scs.append(dict(kind="split", fails=m["fails"], budget=m["budget"], mode=[rng.choice(["exc", "exc", "short"]) for _ in range(n)], **rnd(rng)))
    for _ in range(25 if tier == "quick" else 300):
        n = rng.randint(2, 6)
        scs.append(dict(kind="split", fails=[rng.choice([0, 0, 0, 1, 2]) for _ in range(n)], budget=rng.randint(1, 6), mode=[rng.choice(["exc", "short"]) for _ in range(n)], **rnd(rng)))
    for fails, budget in [([0, 1, 0], 3), ([1, 0], 1), ([0, 0, 2], 3), ([1, 1], 3)][: 2 if tier == "quick" else 4]:
        scs.append(dict(kind="split", fails=fails, budget=budget, mode=["hang"] * len(fails), timeout=6, **rnd(rng)))
    for fails in ([0], [1], [2]):
        for cfg in (False, True):
            for mode in ("exc", "short"):
                scs.append(dict(kind="single", fails=fails, budget=3, mode=[mode], config=cfg, **rnd(rng)))
    for fails in ([0, 0, 0], [0, 1, 0], [0, 0, 1], [1, 0]):
        scs.append(dict(kind="single", fails=fails, budget=3, mode=["exc"] * len(fails), config=True, **rnd(rng)))
    for sx, sz in [((), (3,)), ((3,), ()), ((2, 3), ()), ((2,), (3,)), ((2, 3), (3, 2)), ((), ()), ((3,), (3,)), ((2, 3), (2, 3)), ((3,), (2, 3))]:
        for ny in (1, 2, 3):
            scs.append(dict(kind="refuse", sx=list(sx), sz=list(sz), ny=ny))
    return scs

def rnd(rng):
    s, k = rng.choice([(0, 0), (1, 0), (-1, 0), (0, 1)])
    ys = sorted(rng.sample(range(-3, 4), rng.randint(2, 4)))
    if rng.random() < 0.5:
        ys = ys[::-1]
    return dict(f=dict(kind="poly", a=rng.randint(-1, 2), b=rng.randint(-2, 2), s=s, k=k), ys=ys, natural=rng.random() < 0.5, chunk=rng.choice([1, 2, 3, 5]),
                short=rng.randrange(5), where=rng.choice(["call", "init", "default"]), shape2=rng.random() < 0.4, late=rng.random() < 0.3, seed=rng.randrange(10**6))

def execute(sc):
    install()
    if sc["kind"] == "refuse":
        return do_refuse(sc)
    # in a process of its own: multiprocessing.Pool itself may (rarely) deadlock when it is terminated while
    # answers are outstanding, so only a hang that repeats counts
    for _ in range(3):
        d = tempfile.mkdtemp(prefix="web_", dir=os.environ.get("VF_WORK"))
        try:
            evs = isolated(sc, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if evs is not None:
            return evs
    return [dict(ev="exc", exc="HANG")]

def isolated(sc, d):
    out = os.path.join(d, "events.json")
    pid = os.fork()
    if pid == 0:
        os.setsid()
        try:
            try:
                evs = do_call(dict(sc), d)
            except BaseException as e:
                evs = [dict(ev="exc", exc=type(e).__name__, msg=str(e))]
            with open(out + ".tmp", "w") as f:
                json.dump(evs, f)
            os.rename(out + ".tmp", out)
        finally:
            os._exit(0)
    end = time.time() + (100 if "hang" in sc["mode"] else 45)
    done = False
    while time.time() < end and not done:
        done = os.waitpid(pid, os.WNOHANG)[0] == pid
        _sleep(0.005)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    if not done:
        os.waitpid(pid, 0)
    if not os.path.exists(out):
        return None
    with open(out) as f:
        return json.load(f)

def setup(sc, x, z, d):
    n = len(sc["fails"])
    c = sc["chunk"]
    first = {(round(float(x[i * c]), 3), round(float(z[i * c]), 3)): i for i in range(n)}
    spans = [abs(y - sc["ys"][0]) for y in sc["ys"][1:]]
    SRV.clear()
    SRV.update(dir=d, fails=sc["fails"], mode=sc["mode"], f=sc["f"], natural=sc["natural"], plan_first=first, span1=spans[0], failspan=spans[-1] if sc["late"] else spans[0], y0=sc["ys"][0])

def do_call(sc, d):
    from zoidberg.fieldtracer import FieldTracerWeb
    rng = np.random.default_rng(sc["seed"])
    n, c = len(sc["fails"]), sc["chunk"]
    if sc["kind"] == "single" and not sc["config"]:
        c = sc["chunk"] = 6
    N = n * c - (sc["short"] % c)
    if sc["kind"] == "split" and N <= c:
        N = n * c
    x = 20.0 + np.arange(N) if rng.random() < 0.5 else 20.0 + rng.permutation(N)
    z = rng.integers(-5, 6, N).astype(float)
    setup(sc, x, z, d)
    kw = dict(chunk=c)
    budget = sc["budget"]
    ikw, ckw = {}, {}
    if sc["where"] == "init":
        ikw = dict(retry=budget, chunk=c)
    elif sc["where"] == "default" and budget == 3:
        ikw = dict(chunk=c)
    else:
        ikw = dict(retry=17, chunk=10000); ckw = dict(retry=budget, chunk=c)
    ckw["timeout"] = sc.get("timeout", 60)
    tr = FieldTracerWeb(config=NS(), **ikw) if sc.get("config") else FieldTracerWeb(configId=3, **ikw)
    shp = (2, N // 2) if sc["shape2"] and N % 2 == 0 else (N,)
    X, Z, Y = x.reshape(shp).copy(), z.reshape(shp).copy(), np.array(sc["ys"], float)
    stdout = sys.stdout
    sys.stdout = open(os.devnull, "w")
    try:
        res, exc = call(tr.follow_field_lines, X, Z, Y, **ckw)
    finally:
        sys.stdout.close(); sys.stdout = stdout
    want = [len(sc["ys"])] + list(shp) + [2]
    asked = [len([f for f in os.listdir(d) if f.startswith(f"p{i}_")]) for i in range(n)]
    kept = bool(np.array_equal(X, x.reshape(shp)) and np.array_equal(Z, z.reshape(shp)))
    ok = exc == "none"
    good = ok and list(np.shape(res)) == want
    return [dict(ev="call", f=sc["f"], ys=sc["ys"], ps=[[2 * int(a), 2 * int(b)] for a, b in zip(x, z)], fails=sc["fails"], budget=budget, split=sc["kind"] == "split", chunk=c, npieces=len([1 for a in asked if a > 0]),
                 out="ok" if ok else exc, res=[rec(r) for r in res] if good else [], shape=list(np.shape(res)) if ok else [], want=want, asked=asked, kept=kept)]

def do_refuse(sc):
    from zoidberg.fieldtracer import FieldTracerWeb
    x, z = np.full(sc["sx"], 20.0), np.full(sc["sz"], 1.0)
    f = dict(kind="poly", a=0, b=0, s=0, k=0)
    d = tempfile.mkdtemp(prefix="web_", dir=os.environ.get("VF_WORK"))
    try:
        setup(dict(fails=[0], chunk=100, ys=[0, 1, 2], mode=["exc"], f=f, natural=True, late=False), np.full(1, 20.0), np.full(1, 1.0), d)
        _, exc = call(FieldTracerWeb(configId=3).follow_field_lines, x, z, np.arange(sc["ny"], dtype=float))
    finally:
        shutil.rmtree(d)
    return [dict(ev="refuse", sx=sc["sx"], sz=sc["sz"], ny=sc["ny"], exc=exc)]
