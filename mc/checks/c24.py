"""C24: solver options have their documented effect or are refused."""
import subprocess
import sys

from fvhoe.hydro import HydroState
from fvhoe.initial_conditions import Sinus, Square
from mc.fvlib import *

ID = "C24"
TECHNIQUE = "exhaustive enumeration of documented options x values (legal and illegal) x dimensions on the real solver; effects observed on right-hand side, trouble record, times and output"
RULE = "refuse cases = every illegal value; effect cases = option x value pair x direction set; neutral cases = options that must not matter; default cases = omitted against explicit defaults"
BOUNDS = dict(quick="all documented options, 7 direction sets, 1-3 values each", thorough="the same, for all degrees 1-4 and three Riemann solvers")
ASSUMPTIONS = ["a refusal may come at construction or in the first steps"]

L = dict(a_posteriori_slope_limiting=True)

REFUSED = {
    "riemann_solver unknown": dict(riemann_solver="nonsense"),
    "riemann_solver None": dict(riemann_solver=None),
    "riemann_solver other case": dict(riemann_solver="HLLC"),
    "slope_limiter unknown": dict(slope_limiter="nonsense", force_trouble=True, **L),
    "slope_limiter empty": dict(slope_limiter="", force_trouble=True, **L),
    "slope_limiter 'none'": dict(slope_limiter="none", force_trouble=True, **L),
    "slope_limiter other case": dict(slope_limiter="Minmod", force_trouble=True, **L),
    "slope_limiter abbreviated": dict(slope_limiter="min", force_trouble=True, **L),
    "slope_limiter unknown, convex": dict(slope_limiter="nonsense", force_trouble=True, convex=True, **L),
    "slope_limiter unknown, first order": dict(slope_limiter="nonsense", force_trouble=True, p=4, **L),
    "riemann_solver empty": dict(riemann_solver=""),
    "riemann_solver abbreviated": dict(riemann_solver="hll"),
    "NAD_mode empty": dict(NAD_mode="", **L),
    "NAD_mode other case": dict(NAD_mode="Local", **L),
    "NAD_mode None": dict(NAD_mode=None, **L),
    "NAD_mode unknown, absolute": dict(NAD_mode="nonsense", NAD_range="absolute", **L),
    "NAD_mode None, absolute": dict(NAD_mode=None, NAD_range="absolute", **L),
    "NAD_mode unknown, first order": dict(NAD_mode="nonsense", p=0, **L),
    "NAD_range empty": dict(NAD_range="", **L),
    "NAD_range None": dict(NAD_range=None, **L),
    "NAD_range other case": dict(NAD_range="Absolute", **L),
    "NAD_range abbreviated": dict(NAD_range="abs", NAD_mode="local", **L),
    "NAD_range unknown, forced": dict(NAD_range="nonsense", force_trouble=True, **L),
    "NAD_vars unknown, forced": dict(NAD_vars=("rho", "nonsense"), force_trouble=True, **L),
    "PAD unknown variable, forced": dict(PAD={"rho": (0, 1), "nonsense": (0, 1)}, force_trouble=True, **L),
    "NAD_mode unknown": dict(NAD_mode="nonsense", **L),
    "NAD_range unknown": dict(NAD_range="nonsense", **L),
    "NAD_range unknown, local": dict(NAD_mode="local", NAD_range="nonsense", **L),
    "NAD_vars unknown": dict(NAD_vars=("nonsense",), **L),
    "NAD_vars partly unknown": dict(NAD_vars=("rho", "nonsense"), **L),
    "NAD_vars unknown, list": dict(NAD_vars=["density"], **L),
    "NAD_vars partly unknown, list": dict(NAD_vars=["rho", "v x"], **L),
    "NAD_vars other case": dict(NAD_vars=("RHO", "p"), **L),
    "NAD_vars with a scalar that is not there": dict(NAD_vars=["rho", "dye"], **L),
    "PAD other case": dict(PAD={"Rho": (0, 1)}, **L),
    "PAD unknown variable after a known one": dict(PAD={"P": (0, 1), "pressure": (0, 1)}, **L),
    "PAD unknown variable": dict(PAD={"nonsense": (0, 1)}, **L),
    "PAD one bound": dict(PAD={"rho": (0,)}, **L),
    "degree 9": dict(p=9),
    "degree 20": dict(p=20),
    "degree negative": dict(p=-1),
    "degree fractional": dict(p=1.5),
    "no cells": dict(n=0),
    "negative cells": dict(n=-3),
    "fractional cells": dict(n=2.5),
    "averages of primitive variables": dict(fv_ic=True),
    "initial condition not an InitialCondition": dict(w0=lambda x, y, z: np.ones((5,) + x.shape)),
    "initial condition of wrong size": dict(w0=FuncIC(lambda x, y, z: np.ones((3,) + x.shape))),
    "boundary not a BoundaryCondition": dict(bc=3),
    "scalar profile not a function": dict(w0_passives={"a": 1.0}),
}
BADBC = {
    "unknown type": lambda a: {a: "nonsense"},
    "empty type": lambda a: {a: ""},
    "no type": lambda a: {a: None},
    "other case": lambda a: {a: "Free"},
    "no type on the left": lambda a: {a: (None, "free")},
    "one type": lambda a: {a: ("free",)},
    "Dirichlet without a value on the right": lambda a: {a: ("free", "dirichlet")},
    "Dirichlet with the value on the other side": lambda a: {a: ("free", "dirichlet"), a + "_value": (np.ones(5), None)},
    "unknown type on the right": lambda a: {a: ("free", "nonsense")},
    "one-sided periodic": lambda a: {a: ("periodic", "free")},
    "three types": lambda a: {a: ("free", "free", "free")},
    "list": lambda a: {a: ["free", "free"]},
    "Dirichlet without a value": lambda a: {a: "dirichlet"},
    "Dirichlet with a number": lambda a: {a: "dirichlet", a + "_value": 3.0},
}

# option, value, other value: both must give different results
EFFECT = {
    "CFL": ({}, dict(CFL=0.3)),
    "fixed_dt": ({}, dict(fixed_dt=1e-3)),
    "gamma": ({}, dict(gamma=1.2)),
    "llf": ({}, dict(riemann_solver="llf")),
    "upwind": (dict(riemann_solver="llf"), dict(riemann_solver="advection_upwind")),
    "limiting": ({}, dict(**L)),
    "slope_limiter moncen": (dict(force_trouble=True, **L), dict(force_trouble=True, slope_limiter="moncen", **L)),
    "slope_limiter none": (dict(force_trouble=True, **L), dict(force_trouble=True, slope_limiter=None, **L)),
    "force_trouble": (dict(NAD=1e9, **L), dict(NAD=1e9, force_trouble=True, **L)),
    "NAD": (dict(SED=False, **L), dict(SED=False, NAD=0.5, **L)),
    "NAD_mode": (dict(SED=False, **L), dict(SED=False, NAD_mode="local", **L)),
    "NAD_range": (dict(SED=False, NAD=0.2, **L), dict(SED=False, NAD=0.2, NAD_range="absolute", **L)),
    "NAD_vars": (dict(SED=False, **L), dict(SED=False, NAD_vars=("rho",), **L)),
    "PAD": (dict(NAD=1e9, **L), dict(NAD=1e9, PAD={"rho": (1.0, 1.5)}, **L)),
    "SED": (dict(NAD=1e-7, **L), dict(NAD=1e-7, SED=False, **L)),
    "csq_floor": ({}, dict(csq_floor=9.0)),
    "averages or centres": ({}, dict(snapshots_as_fv_averages=False)),
    "boundary": ({}, "free"),
    "convex": (dict(SED=False, **L), dict(SED=False, convex=True, **L)),
}
NEUTRAL = {  # must not change anything
    "limiter options without limiting": [
        dict(),
        dict(slope_limiter="moncen", NAD=1e-8, NAD_mode="local", NAD_range="absolute", NAD_vars=("rho",), PAD={"rho": (5, 6)}, SED=False, convex=True, force_trouble=True),
    ],
    "defaults": [
        dict(),
        dict(CFL=0.8, riemann_solver="hllc", gamma=5 / 3, csq_floor=1e-10, fixed_dt=None, bc=None, w0_passives=None, conservative_ic=False, fv_ic=False, a_posteriori_slope_limiting=False, snapshots_as_fv_averages=True, slab_buffer_size=30),
    ],
    "limiter defaults": [
        dict(**L),
        dict(slope_limiter="minmod", NAD=1e-2, NAD_mode="global", NAD_range="relative", NAD_vars=None, PAD=None, SED=True, SED_tolerance=1e-10, convex=False, force_trouble=False, **L),
        dict(NAD_vars=("rho", "vx", "vy", "vz", "P"), **L),
        dict(NAD_vars=["rho", "vx", "vy", "vz", "P"], **L),
        dict(PAD={"rho": (0, np.inf), "P": (0, np.inf)}, **L),
        dict(PAD={"P": (0, np.inf), "rho": (0, np.inf)}, **L),
    ],
    "single name": [dict(NAD_vars=("rho",), SED=False, **L), dict(NAD_vars=["rho"], SED=False, **L)],
    "cupy falls back": [dict(), dict(cupy=True)],
    "no scalars": [dict(), dict(w0_passives={})],
    "periodic": [dict(), dict(bc="periodic")],
    "buffer": [dict(bc="ic", slab_buffer_size=30), dict(bc="ic", slab_buffer_size=12), dict(bc="ic", slab_buffer_size=45)],
    "buffer not needed": [dict(bc="free", slab_buffer_size=30), dict(bc="free", slab_buffer_size=1)],
}


def cases(tier):
    th = tier == "thorough"
    out = []
    for dims in DIMSETS:
        for k in REFUSED:
            out.append(dict(k="refuse", dims=dims, what=k))
        for a, k in itertools.product(dims, BADBC):
            out.append(dict(k="bad boundary", dims=dims, axis=a, what=k))
        for p in (1, 2, 3, 4) if th and len(dims) < 3 else (2,) if len(dims) < 3 else (1,):
            for k in EFFECT:
                if k == "convex" and len(dims) == 3:
                    continue
                if k == "averages or centres" and p == 1:
                    continue
                out.append(dict(k="effect", dims=dims, what=k, p=p))
            for k in NEUTRAL:
                if "convex" in k and len(dims) == 3:
                    continue
                out.append(dict(k="neutral", dims=dims, what=k, p=p))
            for o in ("density_floor", "pressure_floor", "fixed_primitive_variables"):
                out.append(dict(k="ignored", dims=dims, what=o, p=p))
            for o in ("monotone", "forced", "floor", "helper", "dt", "physical ranges"):
                out.append(dict(k="exact", dims=dims, what=o, p=p))
    for a, p in itertools.product(AX, range(5 if th else 3, 9)):
        out.append(dict(k="effect", dims=a, what="averages or centres", p=p))
    for dims, kind in itertools.product(DIMSETS, ("rough", "mild", "smooth", "faint", "ripple")):
        for opt in range(len(HONOURED)):
            if kind == "ripple" and (HONOURED[opt]["NAD"] > 1e-4 or "SED_tolerance" in HONOURED[opt]):
                continue
            if HONOURED[opt].get("SED_tolerance") == 0 and kind not in ("rough", "mild", "smooth"):
                continue  # rounding decides whether a stretch is flat
            if kind != "faint" or "SED_tolerance" in HONOURED[opt]:
                out.append(dict(k="honoured", dims=dims, kind=kind, opt=opt))
    out.append(dict(k="refuse", dims="xyz", what="convex in 3D"))
    for m in range(4):
        for have in itertools.product((0, 1), repeat=3):
            out.append(dict(k="passives", scalars=m, have=list(have)))
    for p in itertools.product(range(5), repeat=3):
        if max(p) and min(p) == 0:
            out.append(dict(k="auto", p=list(p)))
    for bar, how in itertools.product((False, True), ("n", "T")):
        out.append(dict(k="bar", bar=bar, how=how))
    return out


def run(case, ctx):
    ctx.state(repr(case))
    dict(refuse=refuse, effect=effect, neutral=neutral, ignored=ignored, exact=exact, passives=passives, auto=auto, bar=bar, honoured=honoured, **{"bad boundary": bad_boundary})[case["k"]](case, ctx)


def wave(dims, sharp=True):
    def f(x, y, z):
        r = sum(((i + 1) * c for i, (a, c) in enumerate(zip(AX, (x, y, z))) if a in dims), 0 * x)
        step = np.where(np.sin(2 * np.pi * r + 0.3) > 0.2, 1.0, 0.0) if sharp else 0.5 + 0.5 * np.sin(2 * np.pi * r)
        # a little structure on top, so that nothing is exactly flat
        q = 0.02 * np.sin(2 * np.pi * 2 * r + 1.0)
        return np.array([1 + step + q, 0.7 + 0.2 * step + q, -0.4 + 0.3 * step - q, 0.2 + 0.1 * step + 2 * q, 1 + 0.5 * step - q])

    return FuncIC(f)


def build(dims, p=2, n=None, sharp=True, rough=None, **kw):
    kw = dict(kw)
    if rough is not None:
        n = shape_for(dims, {1: 12, 2: 7, 3: 5}[len(dims)] if n is None else n)
        kw.setdefault("gamma", 5 / 3)
        bc = kw.pop("bc", None)
        if isinstance(bc, str):
            bc = bc_from({a: [bc, bc] for a in dims})
        return solver(n, degrees_for(dims, p), w=state(("rough", "mild", "smooth")[rough % 3], n, a=1 + rough, dims=dims), rs=kw.pop("riemann_solver", "hllc"), bc=bc, **kw)
    bc = kw.pop("bc", None)
    if isinstance(bc, str):
        bc = bc_from({a: [bc, bc] for a in dims})
    n = {1: 12, 2: 7, 3: 5}[len(dims)] if n is None else n
    args = dict(w0=wave(dims, sharp), progress_bar=False)
    for a in dims:
        args["n" + a], args["p" + a] = n, p
    args.update(kw)
    return Quick(bc=bc, **args)


def result(dims, p=2, steps=2, **kw):
    """everything observable: step size, right-hand side, times, state, snapshot data, trouble record"""
    s = build(dims, p, **kw)
    dt, d = rhs(s)
    s = build(dims, p, **kw)
    s.ssprk2(n=steps)
    out = [np.array([dt]), d, np.array(s.timestamps), U(s), np.array(s.snapshots[-1]["w"])]
    if "trouble" in s.snapshots[-1]:
        out.append(trouble(s))
    return out


def refuse(case, ctx):
    dims = case["dims"]
    kw = dict(REFUSED[case["what"]]) if case["what"] in REFUSED else dict(convex=True, force_trouble=True, **L)
    p = kw.pop("p", 1)

    def go():
        s = build(dims, p, **kw)
        s.run(n=2)

    ctx.step()
    ctx.raises(go, f"{case['what']} in {dims}")
    ctx.outcome("refused")


def bad_boundary(case, ctx):
    def go():
        s = build(case["dims"], 1, bc=BoundaryCondition(**BADBC[case["what"]](case["axis"])))
        s.run(n=1)

    ctx.step()
    ctx.raises(go, f"boundary {case['what']} along {case['axis']}")
    ctx.outcome("refused boundaries")


def differ(a, b):
    if len(a) != len(b):
        return True
    return any(x.shape != y.shape or np.max(np.abs(x - y)) > 1e-9 * max(1.0, np.max(np.abs(x))) for x, y in zip(a, b))


def effect(case, ctx):
    dims, (a, b) = case["dims"], EFFECT[case["what"]]
    b = dict(bc=b) if isinstance(b, str) else b
    # an option has an effect if some state of the alphabet shows it
    states = [dict(), dict(sharp=False)] + [dict(rough=r) for r in range(6)]
    if case["what"] == "SED":  # needs resolved extrema
        states = [dict(rough=r, n=12) for r in (2, 5)]
    for st in states:
        ra, rb = result(dims, case["p"], **st, **a), result(dims, case["p"], **st, **b)
        ctx.step(4)
        if differ(ra, rb):
            break
    else:
        ctx.require(False, f"{case['what']}: {a} and {b} give the same results for all states in {dims} at degree {case['p']}")
    ctx.outcome("effective")


def neutral(case, ctx):
    dims = case["dims"]
    base = None
    for kw in NEUTRAL[case["what"]]:
        if kw.get("convex") and len(dims) == 3 and kw.get("a_posteriori_slope_limiting"):
            continue
        r = result(dims, case["p"], **kw)
        ctx.step(2)
        if base is None:
            base = r
        ctx.require(not differ(base, r), f"{case['what']}: {kw} changes the results in {dims}")
    if case["what"] == "buffer":  # too small a buffer is refused
        for k in (1, 2):
            ctx.raises(lambda: result(dims, 3, bc="ic", slab_buffer_size=k), f"slab buffer of {k} cells for degree 3")
    ctx.outcome("neutral")


def ignored(case, ctx):
    dims, p, o = case["dims"], case["p"], case["what"]
    if o == "fixed_primitive_variables":
        for v, i in (("rho", 0), ("vx", 1), ("vy", 2), ("vz", 3), ("P", 4)):
            s = build(dims, p, fixed_primitive_variables=(v,))
            s.run(n=1)
            ctx.step()
            a, b = s.snapshots[0]["w"][i], s.snapshots[-1]["w"][i]
            if np.max(np.abs(a - b)) > 1e-9:
                ctx.record(o, f"{v} declared fixed changes by {np.max(np.abs(a - b)):.3g} in {dims}")
    else:
        # interpolated states around one: a floor of two must show
        a = rhs(build(dims, p))
        b = rhs(build(dims, p, **{o: 1.9}))
        ctx.step(2)
        if np.max(np.abs(a[1] - b[1])) <= 1e-9:
            ctx.record(o, f"{o}=1.9 has no effect on interpolated values down to 0.9 in {dims}")
        c = rhs(build(dims, p, **{o: 1e-6}))
        ctx.close(c[1], a[1], 1e-10, f"{o} below all values changes the right-hand side", scale=max(1.0, np.max(np.abs(a[1]))))
    ctx.outcome("ignored options")


def exact(case, ctx):
    dims, p, o = case["dims"], case["p"], case["what"]
    ctx.step()
    if o == "dt":
        for dt in (1e-3, 3.7e-4):
            s = build(dims, p, fixed_dt=dt)
            s.rk4(n=3)
            ctx.close(s.timestamps, dt * np.arange(4), 1e-13, "fixed step")
            ctx.close(rhs(s)[0], dt, 1e-14, "fixed step of the right-hand side")
        a = rhs(build(dims, p, CFL=0.8))[0]
        for c in (0.1, 0.4, 1.3):
            ctx.close(rhs(build(dims, p, CFL=c))[0], a * c / 0.8, 1e-12, f"step at CFL {c}", scale=a)
    elif o == "floor":
        # a sound speed floor above everything decides the step
        n = shape_for(dims, 4)
        for floor in (0.0, 1e-30, 1e-14, 1e-10, 1e-6):  # a cold gas at rest: the floor decides below it only
            w = np.array(state("rough", n))
            w[1:4] = 0
            w[4] *= 1e-12
            s = solver(n, (0, 0, 0), w=w, csq_floor=floor, gamma=5 / 3)
            want = 0.8 * 0.25 / np.max(len(dims) * np.sqrt(np.maximum(5 / 3 * w[4] / w[0], floor)))
            ctx.close(rhs(s)[0], want, 1e-9, f"step with csq_floor {floor} in a cold gas", scale=want)
        for floor in (1e4, 1e6):
            w = state("rough", n)
            s = solver(n, (0, 0, 0), w=w, csq_floor=floor)
            want = 0.8 * 0.25 / np.max(np.abs(w[1:4]).sum(axis=0) + len(dims) * math.sqrt(floor))
            ctx.close(rhs(s)[0], want, 1e-12, f"step with csq_floor {floor}", scale=want)
        s = solver(n, (0, 0, 0), w=state("rough", n), csq_floor=1e-12)
        t = solver(n, (0, 0, 0), w=state("rough", n), csq_floor=1e-3)
        ctx.close(rhs(s)[1], rhs(t)[1], 1e-12, "a floor below all sound speeds changes the right-hand side", scale=10)
    elif o == "forced":
        for lim in ("minmod", "moncen", None):
            s = build(dims, p, force_trouble=True, slope_limiter=lim, NAD=1e9, **L)
            s.ssprk3(n=2)
            ctx.require(np.all(trouble(s) == 1), "forced trouble is not recorded everywhere")
    elif o == "monotone":
        prev = None
        for nad in (0, 1e-8, 1e-3, 1e-2, 0.1, 1.0, 1e9):
            s = build(dims, p, NAD=nad, SED=False, PAD={}, **L)
            s.euler(n=1)
            f = trouble(s) > 0
            q = build(dims, p, NAD=nad, SED=True, PAD={}, **L)
            q.euler(n=1)
            g = trouble(q) > 0
            ctx.step(2)
            ctx.require(not np.any(g & ~f), f"smooth extrema detection adds trouble at NAD {nad}")
            if prev is not None:
                ctx.require(not np.any(f & ~prev), f"a larger NAD tolerance {nad} flags more cells")
            prev = f
        ctx.require(not np.any(prev), "cells flagged at an infinite tolerance")
    elif o == "physical ranges":
        # a step so long that densities and pressures turn negative: only the ranges given count, an empty set of ranges flags nothing
        n = shape_for(dims, {1: 12, 2: 7, 3: 5}[len(dims)])

        def flags(**kw):
            s = solver(n, degrees_for(dims, p), w=state("rough", n, a=2, dims=dims), bc=bc_from({a: ["free", "free"] for a in dims}), fixed_dt=0.2, NAD=1e9, **L, **kw)
            s.euler(n=1)
            ctx.step()
            return trouble(s) > 0

        inf = np.inf
        default = flags()
        rho, P = flags(PAD={"rho": (0.0, inf)}), flags(PAD={"P": (0.0, inf)})
        ctx.require(np.any(default), "no cell leaves the default physical ranges")
        ctx.require(np.array_equal(default, rho | P), "the default ranges are not those of density and pressure together")
        ctx.require(not np.any(flags(PAD={})), "cells flagged although no physical range is given")
        ctx.require(not np.any(flags(PAD={"rho": (-inf, inf)})), "cells flagged by an infinite physical range")
        ctx.require(np.array_equal(flags(PAD=None), default), "PAD=None is not the default")
        try:
            none = flags(PAD={}, NAD_vars=(), SED=False)
        except Exception:
            ctx.outcome("empty variable selection refused")
        else:
            ctx.require(not np.any(none), "cells flagged although no variable is selected")
    elif o == "helper":
        calls = []

        def helper(*args, **kw):
            calls.append((args, kw, len(args[0].snapshots), args[0].t, args[0].snapshots[-1]["t"]))

        s = build(dims, p, snapshot_helper_function=helper)
        s.run(n=1)
        s.run(T=s.t + 0.01, downbeats=[s.t + 0.004])
        ctx.require(len(calls) == len(s.snapshots), f"{len(calls)} calls for {len(s.snapshots)} snapshots")
        for i, (args, kw, m, t, ts) in enumerate(calls):
            ctx.require(len(args) == 1 and args[0] is s and not kw, "the helper gets the solver as sole argument")
            ctx.require(m == i + 1 and t == ts == s.snapshots[i]["t"], "the helper is called after its snapshot")
    ctx.outcome("exact " + o)


HONOURED = (
    [dict(NAD=e, NAD_mode=m, NAD_range=r, SED=False) for e in (0, 0.0, 1e-15, 1e-5, 0.3, 1.0, 5) for m in ("global", "local") for r in ("relative", "absolute")]
    + [dict(NAD=0.0, NAD_mode=m, SED_tolerance=t) for m in ("global", "local") for t in (0.0, 1e-30, 1e-16, 1e-12, 1e-8, 1e-3, 0.03, 0.3, 10)]
    + [dict(NAD=1e-3, SED=False, NAD_vars=v) for v in (("rho",), ("vx",), ("vy",), ("vz",), ("P",), ["P", "vy"], ("vz", "rho", "P"), ["vz", "vy", "vx"], ("P", "vz", "vx", "rho"))]
    + [dict(NAD=1e-3, NAD_vars=v) for v in (("vx",), ["P", "vy"], ("vz", "rho", "P"))]
    + [dict(NAD=1e9, PAD=q) for q in ({"rho": (0.5, 1.3)}, {"vx": (-0.1, 0.1)}, {"vy": (0.0, np.inf), "vz": (-np.inf, 0.05)}, {"P": (1, 1)}, {"rho": (-1e300, 1.1), "P": (0.9, 1e300)}, {})]
)
HONOURED = [{"NAD": q.get("NAD", 1e-2), **q} for q in HONOURED]


def honoured(case, ctx):
    """the flags of one forward step are those that exactly these detection options define"""
    from mc.checks.c17 import reference, match

    dims, opt = case["dims"], HONOURED[case["opt"]]
    p = degrees_for(dims, 2 if len(dims) < 3 else 1)
    n = shape_for(dims, {1: 12, 2: 7, 3: 5}[len(dims)])
    w = np.array(state("rough" if case["kind"] in ("faint", "ripple") else case["kind"], n, a=3))
    if case["kind"] == "ripple":
        # ripples of a ten-millionth on a plateau, next to one tall bump
        bump = np.zeros(w.shape[1:])
        bump[tuple(slice(0, 2) if m > 1 else slice(None) for m in bump.shape)] = 1.0
        w = np.array([1.0, 0.4, -0.3, 0.2, 1.0]).reshape(5, 1, 1, 1) + 1e-7 * w + 0.2 * bump
    kw, nv = {}, opt.get("NAD_vars")
    if case["kind"] == "faint":
        # one velocity component a ten-trillionth of the flow that carries it
        slow = {"x": 2, "y": 3, "z": 1, "xy": 3, "xz": 2, "yz": 1, "xyz": 3}[dims]
        w[slow] *= 1e-13
        for i in {1, 2, 3} - {slow}:
            w[i] = 1.0
        nv = (("vx", "vy", "vz")[slow - 1],)
        kw.update(riemann_solver="advection_upwind")
        opt = dict(opt, NAD_vars=nv, PAD={})
    rs = kw.pop("riemann_solver", "hllc")
    off = solver(n, p, w=w, rs=rs)
    dt, d = rhs(off)
    off.snapshot()
    star = solver(n, p, u=U(off) + dt * d, rs=rs)
    star.snapshot()
    wp, ws = np.array(off.snapshots[-1]["w"]), np.array(star.snapshots[-1]["w"])
    g = [(0, 0)] + [(3, 3) if a in dims else (0, 0) for a in AX]
    wrap = lambda a: np.pad(a, g, mode="wrap")
    s = dict(mode=opt.get("NAD_mode", "global"), rng=opt.get("NAD_range", "relative"), eps=opt["NAD"], sed=opt.get("SED_tolerance", 1e-10) if opt.get("SED", True) else None)
    nad, worst = reference(wrap(wp), wrap(ws), dims, s, opt.get("PAD", {"rho": (0, np.inf), "P": (0, np.inf)}), nv)
    on = solver(n, p, w=w, rs=rs, a_posteriori_slope_limiting=True, **opt)
    on.euler(n=1)
    ctx.step(2)
    sh = on.snapshots[-1]
    match(ctx, sh["trouble"], sh["NAD violation magnitude"], sh["PAD violation magnitude"], nad, worst, f"options {opt}, {case['kind']} state in {dims}")
    ctx.outcome("honoured, flagged", int(np.sum(nad | (worst > 0))))
    ctx.outcome("honoured, clean", int(np.sum(~(nad | (worst > 0)))))


def passives(case, ctx):
    names = ("a", "b", "c")[: case["scalars"]]
    have = {nm: (lambda x, y, z: x) for nm, h in zip("abc", case["have"]) if h}
    hs = HydroState(passive_scalars=names)
    x = np.meshgrid(*[np.arange(2.0)] * 3, indexing="ij")
    ctx.step()
    if set(names) <= set(have):
        out = Sinus().build_ic(hs, have)(*x)
        ctx.require(out.shape[0] == 5 + len(names), "number of variables")
        ctx.outcome("complete")
    else:
        ctx.raises(lambda: Square().build_ic(hs, have)(*x), f"scalars {names} with profiles for {sorted(have)}")
        ctx.outcome("missing profiles refused")


def auto(case, ctx):
    """run() picks the integrator matching the highest degree"""
    p = case["p"]
    dims = "".join(a for a, k in zip(AX, p) if k)
    mk = lambda: Quick(w0=wave(dims, sharp=False), nx=4 if p[0] else 1, ny=4 if p[1] else 1, nz=4 if p[2] else 1, px=p[0], py=p[1], pz=p[2], progress_bar=False)
    name = INTEGRATORS[min(max(p), 3)]
    a, b = mk(), mk()
    a.run(n=2)
    getattr(b, name)(n=2)
    ctx.step(2)
    ctx.close(U(a), U(b), 1e-13, f"run() at degrees {p} against {name}")
    for other in INTEGRATORS:
        if other != name:
            c = mk()
            getattr(c, other)(n=2)
            ctx.require(np.max(np.abs(U(c) - U(a))) > 1e-13, f"{other} cannot be told from {name}")
    ctx.outcome(name)


BAR = """
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, %r)
from fvhoe.solver import EulerSolver
s = EulerSolver(nx=8, progress_bar=%r)
s.euler(%s)
"""


def bar(case, ctx):
    import os

    env = {k: v for k, v in os.environ.items() if not k.startswith("TQDM")}
    code = BAR % ("/repo", case["bar"], "n=3" if case["how"] == "n" else "T=0.05")
    r = subprocess.run([sys.executable, "-B", "-c", code], env=env, capture_output=True, text=True, timeout=120, cwd=ctx.tmpdir())
    ctx.step()
    ctx.require(r.returncode == 0, f"exit {r.returncode}: {r.stderr[-300:]}")
    drawn = "|" in r.stderr or "it/s" in r.stderr or "%" in r.stderr or "|" in r.stdout
    ctx.require(drawn == case["bar"], lambda: f"progress_bar={case['bar']}: printed {r.stderr[-200:]!r}")
    ctx.outcome("bar" if drawn else "no bar")
