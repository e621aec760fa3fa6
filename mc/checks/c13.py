"""C13: saving and loading, and the disk state at every point of saving."""
import functools
import inspect
import os
import shutil
import sys

import fvhoe.initial_conditions as ics
from mc.fvlib import *

ID = "C13"
TECHNIQUE = "exhaustive crash-point and torn-write enumeration of the real saving code (every distinct disk state at line/system-event granularity and every byte prefix of every file being written), recovery by the real loading code; exhaustive round trips"
RULE = (
    "crash cases = configuration x previous content of the directory x overwrite, inside: every distinct disk state visited while saving and every byte prefix of each file written; each is handed to a new run; "
    "round-trip cases = initial condition x boundary x limiter x solver option x path spelling x number of snapshots; every sequence of runs (2 directories x 2 problems x overwrite x new or continuing solver) against a table of what each directory holds; refusal cases = every kind of existing directory"
)
BOUNDS = dict(
    quick="3 configurations x 3 previous contents x overwrite on/off, all byte prefixes; all 11 initial-condition classes, 9 boundary kinds, 22 limiter settings, 37 option settings, 20 path spellings, up to 260 snapshots, all run sequences of length 3; plus 274 combined settings covering every triple of option values that can be combined (mc/combos.py)",
    thorough="6 configurations, run sequences of length 4, overwriting recovery from every torn state",
)
ASSUMPTIONS = ["a killed process loses its unflushed buffers and nothing else; a file being written holds a prefix of its final bytes"]
CASE_TIMEOUT = 400


class Counting(Quick):
    calls = 0

    def f(self, t, u):
        self.calls += 1
        return super().f(t, u)


CFG = [
    dict(n=(4, 1, 1), p=(0, 0, 0), lim="off", npass=0),
    dict(n=(1, 4, 1), p=(0, 1, 0), lim="minmod", npass=1),
    dict(n=(2, 2, 1), p=(0, 0, 0), lim="convex", npass=0),
    dict(n=(1, 1, 5), p=(0, 0, 2), lim="forced", npass=2),
    dict(n=(2, 2, 2), p=(0, 0, 0), lim="local", npass=1),
    dict(n=(3, 1, 2), p=(1, 0, 1), lim="off", npass=0),
]
T = 0.02
BEATS = [0.007]


def build(cfg, a=1):
    return solver(cfg["n"], cfg["p"], w=state("mild", cfg["n"], npass=cfg["npass"], a=a), cls=Counting, **LIM[cfg["lim"]])


def tree(root):
    out = {}
    for d, dirs, files in os.walk(root):
        rel = os.path.relpath(d, root)
        out[rel] = None
        for f in files:
            p = os.path.join(d, f)
            try:
                out[os.path.join(rel, f)] = open(p, "rb").read()
            except FileNotFoundError:
                pass
    return out


def plant(root, t):
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    for rel, data in sorted(t.items(), key=lambda kv: (kv[0].count("/"), kv[0])):
        p = os.path.join(root, rel)
        if data is None:
            os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)


def equal(a, b):
    return (
        isinstance(a, list)
        and len(a) == len(b)
        and all(set(x) == set(y) and all(np.array_equal(np.asarray(x[k]), np.asarray(y[k])) for k in x) for x, y in zip(a, b))
    )


PATHS = ("plain", "nested", "relative", "dots", "pathlib", "slash", "spaces", "accents", "punctuation", "hidden", "pickle", "long", "relative nested", "double slash", "equals", "tilde", "dollar", "percent", "newline", "upper")
OPTIONS = [
    dict(NAD_vars=("rho", "P", "vx", "vy")), dict(NAD_vars=["vz", "rho"]), dict(NAD_vars=("rho", "vx", "vy", "vz", "P")), dict(PAD={}), dict(PAD={"rho": (-np.inf, np.inf)}),
    dict(PAD={"P": (0, 1e300), "vx": (-np.inf, 5)}), dict(PAD={"vy": [-np.inf, np.inf]}), dict(NAD=0), dict(NAD=np.inf), dict(SED=False, SED_tolerance=0.0), dict(convex=True), dict(slope_limiter=None), dict(CFL=1), dict(fixed_dt=1e-5),
    dict(gamma=2), dict(density_floor=1e-8, pressure_floor=1e-9), dict(cupy=True), dict(snapshots_as_fv_averages=False), dict(riemann_solver="llf"), dict(riemann_solver="advection_upwind"), dict(progress_bar=False), dict(slab_buffer_size=64),
    dict(x=(0, 1), y=(-1.5, 2)), dict(snapshot_helper_function=print), dict(snapshot_helper_function=lambda s: None), dict(csq_floor=0), dict(fixed_primitive_variables=("rho",)), dict(force_trouble=True),
    dict(nx=np.int64(6)), dict(ny=np.int32(4), py=np.int64(1)), dict(gamma=np.float32(1.5)), dict(NAD=np.float32(0.1)), dict(SED=np.bool_(False)), dict(PAD={"rho": (np.float32(0), np.inf), "P": np.array([0, np.inf])}),
    dict(x=(np.int64(0), np.float32(2))), dict(CFL=np.float64(0.5), fixed_dt=np.float32(2e-5)), dict(force_trouble=np.bool_(True), convex=np.bool_(False)),
]
# what a sequence of runs may do: directory, problem, overwrite, in a new solver or going on with the last one
OPS = [(d, q, ow, new) for d in (0, 1) for q in (0, 1) for ow in (False, True) for new in (True,)] + [(d, None, ow, False) for d in (0, 1) for ow in (False, True)]


def cases(tier):
    th = tier == "thorough"
    out = []
    for c, old, ow in itertools.product(range(6 if th else 3), ("absent", "complete", "complete and strays"), (False, True)):
        if old != "absent" and not ow:
            continue
        out.append(dict(k="crash", c=c, old=old, overwrite=ow, th=th))
    for nm, cls in inspect.getmembers(ics, inspect.isclass):
        if issubclass(cls, ics.InitialCondition) and cls is not ics.InitialCondition:
            for path in ("plain", "slash"):
                out.append(dict(k="ic", ic=nm, path=path))
    for v in ("conserved", "conserved averages", "partial", "callable object", "lambda"):
        out.append(dict(k="ic", ic=v, path="plain"))
    for b in ("none", "periodic", "free", "outflow", "reflective", "const", "func", "ic", "mixed", "wall"):
        for path in PATHS if b in ("none", "mixed") else PATHS[:5]:
            out.append(dict(k="bc", bc=b, path=path))
    for lim, dims, fv in itertools.product(LIM, ("x", "yz", "xyz"), (True, False)):
        if "convex" in lim and dims == "xyz":
            continue
        out.append(dict(k="lim", lim=lim, dims=dims, fv=fv))
    out += [dict(c, k="combo") for c in combo_cases(bounded=True)]
    for g in ("auto",) + tuple(INTEGRATORS):
        out.append(dict(k="chain", g=g))
    for i in range(len(OPTIONS)):
        for dims in ("x", "z", "xy"):
            out.append(dict(k="option", opt=i, dims=dims))
    for m, lim in itertools.product((1, 2, 9, 33, 101, 130, 260), ("off", "minmod")):
        out.append(dict(k="many", m=m, lim=lim))
    for i, j in itertools.product(range(len(OPS)), range(len(OPS))):
        if OPS[i][3]:
            out.append(dict(k="ops", first=[i, j], depth=4 if th else 3))
    for what in ("complete", "complete and strays", "empty", "garbage", "truncated", "a file", "appears during the run"):
        for c in range(3):
            out.append(dict(k="refuse", what=what, c=c))
    return out


def run(case, ctx):
    root = ctx.tmpdir()
    if case["k"] == "crash":
        return crash(case, ctx, root)
    if case["k"] == "refuse":
        return refuse(case, ctx, root)
    if case["k"] == "chain":
        return chain(case, ctx, root)
    if case["k"] == "many":
        return many(case, ctx, root)
    if case["k"] == "ops":
        return ops(case, ctx, root)
    make = maker(case)
    s = make()
    d = path_for(case.get("path", "plain"), root)
    cwd = os.getcwd()
    os.chdir(root)
    try:
        s.run(T=1e-4, downbeats=[4e-5], snapshot_dir=d)
        ctx.step()
        ctx.require(len(s.snapshots) == 3, f"{len(s.snapshots)} snapshots instead of 3")
        before = tree(root)
        ctx.require(any(v is not None for v in before.values()), "nothing was saved")
        ctx.require(os.path.isdir(os.path.normpath(d)) and len(os.listdir(os.path.normpath(d))) > 0, "the snapshots are not in the directory asked for")
        s2 = make()
        u = U(s2)
        s2.run(T=1e-4, downbeats=[4e-5], snapshot_dir=d)
        ctx.step()
        ctx.require(s2.calls == 0 and s2.step_count == 0 and np.array_equal(u, U(s2)), "the second run simulated")
        ctx.require(equal(s2.snapshots, s.snapshots), "the snapshots loaded differ from those saved")
        ctx.require(list(s2.snapshot_times) == list(s.snapshot_times), f"snapshot times loaded {s2.snapshot_times} instead of {s.snapshot_times}")
        ctx.require(tree(root) == before, "loading changed the directory")
        s3 = make()
        s3.run(T=2e-4, snapshot_dir=d, overwrite=True)
        ctx.step()
        ctx.require(s3.calls > 0 and len(s3.snapshots) == 2, "the overwriting run did not simulate")
        s4 = make()
        s4.run(T=1.0, snapshot_dir=d)
        ctx.require(s4.calls == 0 and equal(s4.snapshots, s3.snapshots), "the snapshots loaded are not those of the overwriting run")
        ctx.state(repr(case))
        ctx.outcome("round trip")
    finally:
        os.chdir(cwd)


def path_for(kind, root):
    import pathlib

    return {
        "plain": os.path.join(root, "out"), "slash": os.path.join(root, "out") + "/", "nested": os.path.join(root, "a", "b", "out"),
        "spaces": os.path.join(root, "my out 1", "second run"), "accents": os.path.join(root, "essai \u00e9t\u00e9 \u03c1"), "punctuation": os.path.join(root, "a,b;(c)[d]{e}'f'*?!#&@+"),
        "hidden": os.path.join(root, ".out"), "pickle": os.path.join(root, "arrs.pkl"), "long": os.path.join(root, "n" * 200), "relative nested": os.path.join("a", "..", "b", "c"),
        "double slash": root + "//deep///out", "equals": os.path.join(root, "run_nx=8_T=0.1_bc={'x': 1}"), "tilde": os.path.join(root, "~"), "dollar": os.path.join(root, "$HOME"), "percent": os.path.join(root, "100%s"),
        "newline": os.path.join(root, "two\nlines"), "upper": os.path.join(root, "OUT"),
        "relative": "out", "dots": os.path.join(root, "x", "..", "out"), "pathlib": pathlib.Path(root) / "out",
    }[kind]


def maker(case):
    n, p = (8, 8, 1), (1, 1, 0)
    kw = dict(fixed_dt=3e-5, progress_bar=False, nx=n[0], ny=n[1], nz=n[2], px=p[0], py=p[1], pz=p[2])
    if case["k"] == "ic":
        nm = case["ic"]
        if nm == "SedovBlast":
            return lambda: Counting(w0=ics.SedovBlast(), conservative_ic=True, **kw)
        if nm in dict(inspect.getmembers(ics, inspect.isclass)):
            return lambda: Counting(w0=getattr(ics, nm)(), **kw)
        w = state("mild", n, npass=1)
        u = cons(w)
        flat = lambda x, y, z: np.array([1 + 0 * x, 0.1 + 0 * x, 0 * x, 0 * x, 1 + 0.1 * np.sin(x)])
        if nm == "conserved":
            return lambda: Counting(w0=FuncIC(lambda x, y, z: flat(x, y, z) + np.array([0, 0, 0, 0, 3.0]).reshape(5, 1, 1, 1)), conservative_ic=True, **kw)
        if nm == "conserved averages":
            return lambda: Counting(w0=FuncIC(lambda x, y, z: u[:5]), conservative_ic=True, fv_ic=True, **kw)

        def g(x, y, z, k=1.0):
            return k * np.cos(x)

        class Obj:
            def __call__(self, x, y, z):
                return np.cos(x)

        ps = {"partial": functools.partial(g, k=2.0), "callable object": Obj(), "lambda": lambda x, y, z: x}[nm]
        return lambda: Counting(w0=FuncIC(flat), w0_passives={"dye": ps}, **kw)
    if case["k"] == "bc":
        b = case["bc"]
        con = cons(np.array([1, 0.1, 0, 0, 1.0]).reshape(5, 1, 1, 1)).reshape(-1)
        fun = lambda x, y, z, t: con.reshape(5, 1, 1, 1) * np.ones_like(x)
        kws = {
            "none": None, "const": dict(x="dirichlet", x_value=con), "func": dict(y=("free", "dirichlet"), y_value=(None, fun)), "ic": dict(x="ic", y="ic"),
            "mixed": dict(x=("dirichlet", "reflective"), x_value=(con, None), y=("outflow", "ic")),
            "wall": dict(x=("dirichlet", "free"), x_value=(con, None), y=("special-case-double-mach-reflection-y=0", "dirichlet"), y_value=(None, fun)),
        }
        bk = kws[b] if b in kws else dict(x=b, y=b)
        return lambda: Counting(w0=ics.Square(dims="xy", vx=0.1), bc=BoundaryCondition(**bk) if bk is not None else None, **kw)
    if case["k"] == "option":
        opt = dict(OPTIONS[case["opt"]])
        n, p = shape_for(case["dims"], 6), degrees_for(case["dims"], 1)
        kw.update(zip(("nx", "ny", "nz", "px", "py", "pz"), n + p))
        flat = lambda x, y, z: np.array([1 + 0 * x, 0.1 + 0 * x, 0 * x, 0 * x, 1 + 0.1 * np.sin(x + y + z)])
        return lambda: Counting(w0=FuncIC(flat), **dict(kw, a_posteriori_slope_limiting=True, **opt))
    if case["k"] == "combo":
        r = Regime(case["reg"], case["dims"])
        r.kw["fixed_dt"] = 3e-5
        return lambda: r.solver(degrees_for(case["dims"], case["p"]), case["lim"], case["rs"], cls=Counting)
    n = shape_for(case["dims"], 8 if case["dims"] == "x" else 5)
    p = degrees_for(case["dims"], 1)
    lim = dict(LIM[case["lim"]])
    lim["fixed_dt"] = 3e-5
    w = state("rough", n, npass=1)
    return lambda: solver(n, p, w=w, cls=Counting, snapshots_as_fv_averages=case["fv"], **lim)


def saved_bytes(cfg, root, a, T=T, beats=BEATS):
    s = build(cfg, a)
    s.run(T=T, downbeats=beats, snapshot_dir=os.path.join(root, "out"))
    return s


def states_while_saving(cfg, root, overwrite):
    """runs and saves in this (child) process; every distinct content of root, in order"""
    seen = [tree(root)]
    live = [False]

    def look():
        t = tree(root)
        if t != seen[-1]:
            seen.append(t)

    busy = [False]

    def hook(event, args):
        if busy[0]:
            return
        if event.split(".")[0] in ("os", "shutil", "tempfile") or event == "open":
            if any(isinstance(a, (str, bytes)) and str(a).startswith(root) for a in args) or live[0]:
                busy[0] = True
                try:
                    live[0] = True
                    look()
                finally:
                    busy[0] = False

    def tracer(frame, event, arg):
        if live[0] and not busy[0]:
            busy[0] = True
            try:
                look()
            finally:
                busy[0] = False
        return tracer

    s = build(cfg, 1)
    sys.addaudithook(hook)
    sys.settrace(tracer)
    try:
        s.run(T=T, downbeats=BEATS, snapshot_dir=os.path.join(root, "out"), overwrite=overwrite)
    finally:
        sys.settrace(None)
        busy[0] = True
    final = tree(root)
    if final != seen[-1]:
        seen.append(final)
    return seen, s.snapshots


def crash(case, ctx, root):
    cfg = CFG[case["c"]]
    work = os.path.join(root, "w")
    os.makedirs(work)
    old = None
    if case["old"] != "absent":
        old = saved_bytes(cfg, work, a=9, T=0.03, beats=[0.004, 0.011, 0.02]).snapshots
        if "strays" in case["old"]:
            os.makedirs(os.path.join(work, "out", "sub"))
            for f in ("notes.txt", os.path.join("sub", "old.pkl")):
                with open(os.path.join(work, "out", f), "w") as fh:
                    fh.write("stray")
    base = tree(work)
    states, new = isolated(states_while_saving, cfg, work, case["overwrite"])
    ctx.require(len(states) > 1, "nothing was written")
    final = states[-1]
    if "strays" in case["old"]:
        ctx.require(not any("notes" in k or "sub" in k for k in final), "files of the previous run survived overwriting")
    points = []
    for i, t in enumerate(states):
        prev = states[i - 1] if i else base
        for path, data in t.items():
            if data and prev.get(path) != data:
                lo = len(prev[path]) if prev.get(path) and data.startswith(prev[path]) else 0
                for m in range(lo, len(data)):
                    points.append((f"state {i}, {path} cut at {m} of {len(data)} bytes", dict(t, **{path: data[:m]}), m in (lo, (lo + len(data)) // 2)))
        points.append((f"state {i}", t, True))
    seen = set()
    for what, t, deep in points:
        key = repr(sorted((k, v) for k, v in t.items()))
        if key in seen:
            continue
        seen.add(key)
        rec = os.path.join(root, "r")
        plant(rec, t)
        out = os.path.join(rec, "out")
        there = os.path.exists(out)
        s = build(cfg, 1)
        err = None
        try:
            s.run(T=T, downbeats=BEATS, snapshot_dir=out)
        except Exception as e:
            err = e
        ctx.step()
        ctx.state(key)
        if err is None:
            ok = equal(s.snapshots, new) or (s.calls == 0 and old is not None and equal(s.snapshots, old))
            ctx.require(ok, f"{what}: a later run returned {len(s.snapshots)} snapshots that are neither the old nor the new set")
            ctx.outcome("recovered by " + ("loading" if s.calls == 0 else "running again"))
        else:
            ctx.outcome("refused: " + type(err).__name__)
        if there:
            ctx.require({k: v for k, v in tree(rec).items() if k.startswith("out")} == {k: v for k, v in t.items() if k.startswith("out")}, f"{what}: a run without overwrite modified the directory")
        if deep or case["th"]:
            plant(rec, t)
            s = build(cfg, 1)
            s.run(T=T, downbeats=BEATS, snapshot_dir=out, overwrite=True)
            s2 = build(cfg, 1)
            s2.run(T=T, downbeats=BEATS, snapshot_dir=out)
            ctx.step(2)
            ctx.require(s2.calls == 0 and equal(s2.snapshots, new), f"{what}: overwriting afterwards does not leave the new run's snapshots")
            ctx.require(sorted(k for k in tree(rec) if k.startswith("out")) == sorted(k for k in final if k.startswith("out")), f"{what}: overwriting afterwards leaves other files")


def chain(case, ctx, root):
    cfg = CFG[1]
    s = build(cfg)
    fn = s.run if case["g"] == "auto" else getattr(s, case["g"])
    made = []
    for i, (T1, ow) in enumerate(((0.01, False), (0.02, False), (0.03, True))):
        d = os.path.join(root, f"out{i}")
        fn(T=T1, downbeats=[0.004, 0.013], snapshot_dir=d, overwrite=ow)
        made.append((d, [dict(x) for x in s.snapshots]))
        ctx.step()
    for d, want in made:
        s2 = build(cfg)
        s2.run(T=9.0, snapshot_dir=d)
        ctx.require(s2.calls == 0 and equal(s2.snapshots, want), f"directory {os.path.basename(d)} of a chain of runs does not hold the snapshots at the time of saving")
        ctx.require(list(s2.snapshot_times) == [x["t"] for x in want], f"directory {os.path.basename(d)} of a chain of runs: times {s2.snapshot_times} loaded")
        ctx.state(case["g"], d[-1], len(want))
    ctx.outcome("chained")


def many(case, ctx, root):
    """runs with many snapshots, and loading them into a solver that has already run"""
    mk = lambda: solver((3, 1, 1), (0, 0, 0), w=state("mild", (3, 1, 1)), cls=Counting, **dict(LIM[case["lim"]], fixed_dt=2.0**-12))
    T1, d = case["m"] * 2.0**-12, os.path.join(root, "out")
    for how in ("every step", "output times"):
        s = mk()
        ask = dict(log_every_step=True) if how == "every step" else dict(downbeats=np.arange(case["m"]) * 2.0**-12)
        s.run(T=T1, snapshot_dir=d, overwrite=True, **ask)
        ctx.step()
        ctx.require(len(s.snapshots) == case["m"] + 1, f"{how}: {len(s.snapshots)} snapshots instead of {case['m'] + 1}")
        ctx.require(len({x["t"] for x in s.snapshots}) == len(s.snapshots), f"{how}: two snapshots of one time")
        s2 = mk()
        s2.run(T=T1, snapshot_dir=d, **ask)
        ctx.require(s2.calls == 0 and equal(s2.snapshots, s.snapshots), f"{how}: {len(s2.snapshots)} snapshots loaded, {len(s.snapshots)} saved, or other data")
        ctx.require(list(s2.snapshot_times) == list(s.snapshot_times), f"{how}: other snapshot times loaded")
        ctx.state(case["m"], case["lim"], how)
    ctx.outcome("many snapshots")


def ops(case, ctx, root):
    """every sequence of runs into two directories, against a table of what each directory holds"""
    mk = lambda q: solver((3, 1, 1), (0, 0, 0), w=state("mild", (3, 1, 1), a=1 + q), cls=Counting, **dict(LIM["off"], fixed_dt=0.01))
    free = range(len(OPS))
    for rest in itertools.product(free, repeat=case["depth"] - len(case["first"])):
        seq = [OPS[i] for i in (*case["first"], *rest)]
        held, s, T1 = {}, None, 0.0
        base = os.path.join(root, "w")
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        for step, (d, q, ow, new) in enumerate(seq):
            if new:
                s = mk(q)
            path = os.path.join(base, f"d{d}")
            T1 = s.t + 0.02
            calls, t0, u0 = s.calls, s.t, U(s)
            had = len(s.snapshots)
            before = tree(base)
            s.run(T=T1, snapshot_dir=path, overwrite=ow)
            ctx.step()
            say = f"{[f'd{a} problem {b} overwrite {c}' + (' new solver' if e else '') for a, b, c, e in seq[: step + 1]]}"
            if d in held and not ow:
                ctx.require(s.calls == calls and s.t == t0 and np.array_equal(U(s), u0), f"{say}: simulated although the directory existed")
                ctx.require(equal(s.snapshots, held[d]), f"{say}: {len(s.snapshots)} snapshots, the directory held {len(held[d])}, or other data")
                ctx.require(tree(base) == before, f"{say}: loading changed the files")
            else:
                ctx.require(s.calls > calls and s.t == T1, f"{say}: did not simulate")
                ctx.require(len(s.snapshots) == had + 2, f"{say}: {len(s.snapshots)} snapshots after {had}")
                held[d] = [dict(x) for x in s.snapshots]
                after = tree(base)
                ctx.require({k: v for k, v in after.items() if not k.startswith(f"d{d}") and k != "."} == {k: v for k, v in before.items() if not k.startswith(f"d{d}") and k != "."}, f"{say}: another directory changed")
            ctx.state(repr(seq[: step + 1]))
        for d, want in held.items():
            s2 = mk(0)
            s2.run(T=9.0, snapshot_dir=os.path.join(base, f"d{d}"))
            ctx.require(s2.calls == 0 and equal(s2.snapshots, want), f"{seq}: directory d{d} does not hold what was saved there last")
            ctx.require(list(s2.snapshot_times) == [x["t"] for x in want], f"{seq}: directory d{d}: times {s2.snapshot_times} loaded")
    ctx.outcome("sequences")


def refuse(case, ctx, root):
    cfg, what = CFG[case["c"]], case["what"]
    out = os.path.join(root, "out")
    ref = None
    if what.startswith("complete") or what == "truncated":
        ref = saved_bytes(cfg, root, a=9, T=0.03, beats=[0.01]).snapshots
        if "strays" in what:
            open(os.path.join(out, "notes.txt"), "w").write("mine")
        if what == "truncated":
            for f in os.listdir(out):
                p = os.path.join(out, f)
                data = open(p, "rb").read()
                open(p, "wb").write(data[: len(data) // 2])
    elif what == "empty":
        os.makedirs(out)
    elif what == "garbage":
        saved_bytes(cfg, root, a=9)
        for f in os.listdir(out):
            open(os.path.join(out, f), "wb").write(b"\x00garbage")
    elif what == "a file":
        open(out, "w").write("mine")
    before = tree(root)
    s = build(cfg)
    if what == "appears during the run":

        def helper(_):
            if not os.path.exists(out):
                os.makedirs(out)
                open(os.path.join(out, "notes.txt"), "w").write("mine")

        s = solver(cfg["n"], cfg["p"], w=state("mild", cfg["n"], npass=cfg["npass"]), cls=Counting, snapshot_helper_function=helper, **LIM[cfg["lim"]])
        ctx.raises(lambda: s.run(T=T, snapshot_dir=out), "directory created by someone else during the run")
        ctx.require(tree(root) == {".": None, "out": None, "out/notes.txt": b"mine"}, "the directory someone else created was modified")
    elif what.startswith("complete"):
        s.run(T=T, snapshot_dir=out)
        ctx.require(s.calls == 0 and equal(s.snapshots, ref), "the existing snapshots were not returned")
        ctx.require(tree(root) == before, "a run without overwrite modified the directory")
    else:
        ctx.raises(lambda: s.run(T=T, snapshot_dir=out), f"existing directory: {what}")
        ctx.require(tree(root) == before, "a run without overwrite modified the directory")
    ctx.step()
    ctx.state(repr(case))
    ctx.outcome("existing directory respected")
