"""C25: the batch wrapper."""
import inspect
import os
import hashlib

from fvhoe.scripting import EulerSolver_wrapper
from mc.combos import combo_cases
from mc.fvlib import *

ID = "C25"
TECHNIQUE = "exhaustive enumeration of wrapper settings (integrators x snapshot counts x dimensions), of all pairs of settings differing in one option, and of all call sequences up to a depth on real directories, each against a directly run solver and a model of the directory's content"
RULE = (
    "direct cases = integrator x snapshot count x direction set x boundary x limiting; pair cases = every option variant sharing one parent directory with all others; "
    "history cases = every sequence of calls (settings A or B, overwrite or not) and of replacements of the stored data, up to the depth"
)
BOUNDS = dict(quick="5 integrators x 4 snapshot counts x 7 direction sets; 6 end times from 1e-6 to 1e4 x 5 snapshot counts x 5 integrators; the 274 combined settings of mc/combos.py; 60 settings in one parent; all histories of depth 4 over 6 operations", thorough="histories of depth 5; degrees 0-3")
ASSUMPTIONS = ["settings differ in at least one option passed to the wrapper; initial and boundary conditions are named by the project prefix"]

NAMES = {-1: "run", 1: "euler", 2: "ssprk2", 3: "ssprk3", 4: "rk4"}


def ic(a=1, size=1.0):
    def f(x, y, z):
        x, y, z = x / size, y / size, z / size
        q = sum((np.sin(2 * np.pi * (i + 1) * c + a + i) for i, c in enumerate((x, y, z))), 0 * x)
        return np.array([1 + 0.1 * q, 0.3 + 0.05 * q, -0.2 + 0.04 * q, 0.1 - 0.03 * q, 1 + 0.07 * q])

    return FuncIC(f)


def dye(x, y, z):
    return 1 + 0.3 * x


BASE = dict(nx=6, px=1, progress_bar=False)
# settings that must all keep apart
VARIANTS = [
    dict(),
    dict(nx=7),
    dict(nx=6, ny=2),
    dict(nx=6, nz=2),
    dict(px=2),
    dict(py=1),
    dict(pz=1),
    dict(px=0),
    dict(x=(0.0, 2.0)),
    dict(x=(-1.0, 1.0)),
    dict(y=(0.0, 2.0)),
    dict(z=(0.0, 2.0)),
    dict(CFL=0.4),
    dict(CFL=0.41),
    dict(gamma=1.4),
    dict(gamma=1.400001),
    dict(riemann_solver="llf"),
    dict(a_posteriori_slope_limiting=True),
    dict(a_posteriori_slope_limiting=True, slope_limiter="moncen"),
    dict(a_posteriori_slope_limiting=True, NAD=1e-3),
    dict(a_posteriori_slope_limiting=True, NAD=1e-4),
    dict(a_posteriori_slope_limiting=True, NAD_mode="local"),
    dict(a_posteriori_slope_limiting=True, SED=False),
    dict(fixed_dt=1e-3),
    dict(fixed_dt=5e-4),
    dict(csq_floor=1e-3),
    dict(snapshots_as_fv_averages=False),
    dict(T=0.004),
    dict(T=0.0050001),
    dict(n_snapshots=3),
    dict(n_snapshots=4),
    dict(integrator=1),
    dict(integrator=2),
    dict(integrator=3),
    dict(integrator=4),
    dict(project_pref="other"),
    dict(project_pref="q", nx=8),
    dict(w0_passives=None),
    dict(w0_passives={"dye": dye}),
    dict(w0_passives={"Dye": dye}),
    dict(w0_passives={"dye": dye, "Dye": dye}),
    dict(T=0.005000000000001),
    dict(T=0.00500001),
    dict(n_snapshots=11),
    dict(n_snapshots=12),
    dict(gamma=1.4 + 1e-13),
    dict(CFL=0.4 + 1e-15),
    dict(slab_buffer_size=31),
    dict(conservative_ic=False),
    dict(a_posteriori_slope_limiting=True, NAD_vars=("vx",)),
    dict(a_posteriori_slope_limiting=True, NAD_vars=("vy",)),
    dict(a_posteriori_slope_limiting=True, NAD_vars=("vx", "vy")),
    dict(a_posteriori_slope_limiting=True, PAD={"rho": (0.0, 1.0)}),
    dict(a_posteriori_slope_limiting=True, PAD={"rho": (0.0, 1.05)}),
    dict(a_posteriori_slope_limiting=True, PAD={"P": (0.0, 1.0)}),
    dict(a_posteriori_slope_limiting=True, SED_tolerance=1e-3),
    dict(a_posteriori_slope_limiting=True, force_trouble=True),
    dict(a_posteriori_slope_limiting=True, convex=True),
    dict(a_posteriori_slope_limiting=True, NAD_range="absolute"),
    dict(project_pref="Case"),
    dict(project_pref="case_x"),
]
OPS = ["A", "B", "A!", "B!", "A*", "B*"]  # call, call with overwrite, overwrite with another problem of the same name


def cases(tier):
    th = tier == "thorough"
    out = []
    for dims, integ, m in itertools.product(DIMSETS, NAMES, (2, 3, 4, 6)):
        for p in (0, 1, 2, 3) if th else (1,):
            out.append(dict(k="direct", dims=dims, integ=integ, m=m, p=p))
    if not th:
        for dims, integ, p in itertools.product(("x", "yz"), NAMES, (0, 2, 3, 4)):
            out.append(dict(k="direct", dims=dims, integ=integ, m=3, p=p))
    for bc, lim in itertools.product(("free", "periodic", "reflective", "ic"), ("off", "minmod")):
        out.append(dict(k="bc", bc=bc, lim=lim))
    out += [dict(k="pairs", order=o) for o in ("forward", "backward")]
    for v in VARIANTS:
        out.append(dict(k="again", v=VARIANTS.index(v)))
    for T, m, integ in itertools.product((1e-6, 0.3, 1.0, 7, 80.0, 1e4), (2, 3, 5, 11, 24), NAMES):
        out.append(dict(k="span", T=T, m=m, integ=integ))
    for j, c in enumerate(combo_cases(bounded=True)):
        out.append(dict(c, k="combo", m=(2, 3, 5)[j % 3]))
    for i in (0, -2, 5, 6, 2.5, None, "rk4"):
        out.append(dict(k="invalid", integ=i))
    for L in range(1, (5 if th else 4) + 1):
        for h in itertools.product(OPS, repeat=L):
            if not h[-1].endswith("*") and h.count("A*") + h.count("B*") <= 2:
                out.append(dict(k="history", h=list(h)))
    for m in (2, 4):
        out.append(dict(k="summary", m=m))
    return out


def run(case, ctx):
    ctx.state(repr(case))
    dict(direct=direct, span=span, combo=combo, bc=bcs, pairs=pairs, again=again, invalid=invalid, history=history, summary=summary)[case["k"]](case, ctx)


def straight(T=0.005, integrator=-1, n_snapshots=2, ic_=None, bc=None, project_pref=None, **kw):
    """the same problem without the wrapper"""
    s = Quick(w0=ic_ or ic(), bc=bc, **kw)
    getattr(s, NAMES[integrator])(T=T, downbeats=[T * i / (n_snapshots - 1) for i in range(n_snapshots)])
    return s.snapshots


def wrap(parent, T=0.005, integrator=-1, n_snapshots=2, ic_=None, bc=None, project_pref="case", overwrite=False, **kw):
    extra = {} if bc is None else dict(bc=bc)
    return EulerSolver_wrapper(project_pref, parent, ic=ic_ or ic(), T=T, integrator=integrator, n_snapshots=n_snapshots, overwrite=overwrite, **extra, **kw)


def same(ctx, got, want, T, m, what):
    ctx.require(len(got) == len(want) == m, f"{what}: {len(got)} snapshots instead of {m}")
    for i, (a, b) in enumerate(zip(got, want)):
        ctx.close(a["t"], T * i / (m - 1), 1e-14, f"{what}: time of snapshot {i}", scale=T)
        for k in ("w", "u") if "u" in b else ("w",):
            ctx.close(a[k], b[k], 1e-12, f"{what}: {k} of snapshot {i}")


def direct(case, ctx):
    dims, m = case["dims"], case["m"]
    kw = dict(progress_bar=False)
    for a in dims:
        kw.update({"n" + a: {1: 6, 2: 5, 3: 4}[len(dims)], "p" + a: case["p"]})
    d = ctx.tmpdir()
    T = 0.02
    s = wrap(d, T=T, integrator=case["integ"], n_snapshots=m, **kw)
    want = straight(T=T, integrator=case["integ"], n_snapshots=m, **kw)
    ctx.step(2)
    same(ctx, s.snapshots, want, T, m, "wrapper")
    ctx.require(len(os.listdir(d)) == 1, f"{os.listdir(d)} in the parent directory")
    # different integrators show (else the comparison says nothing)
    ctx.outcome("direct")


class Named:
    """a profile with a short name"""

    def __init__(self, f):
        self.f = f

    def __call__(self, x, y, z):
        return self.f(x, y, z)

    def __repr__(self):
        return "f"


def span(case, ctx):
    """short and long runs: the domain is as long as the sound travels"""
    T, m = case["T"], case["m"]
    kw = dict(nx=6, px=1, x=(0.0, T), y=(0.0, T), z=(0.0, T), progress_bar=False)
    d = ctx.tmpdir()
    s = wrap(d, T=T, integrator=case["integ"], n_snapshots=m, ic_=ic(size=T), **kw)
    want = straight(T=T, integrator=case["integ"], n_snapshots=m, ic_=ic(size=T), **kw)
    ctx.step(2)
    same(ctx, s.snapshots, want, T, m, "wrapper")
    ctx.close(s.t, T, 1e-14, "final time", scale=T)
    r = wrap(d, T=T, integrator=case["integ"], n_snapshots=m, ic_=ic(size=T), **kw)
    same(ctx, r.snapshots, want, T, m, "wrapper called again")
    ctx.outcome("spans")


def combo(case, ctx):
    """every option goes through the wrapper to the solver"""
    reg = Regime(case["reg"], case["dims"])
    kept = {}

    def catch(**kw):
        kept.update(kw)
        return Quick(**kw)

    reg.solver(degrees_for(case["dims"], case["p"]), case["lim"], rs=case["rs"], cls=catch)
    T, m = 1.7 * reg.span, case["m"]
    integ = {v: k for k, v in NAMES.items()}[reg.ig.replace("auto", "run")]
    ic_, bc = kept.pop("w0"), kept.pop("bc")
    if kept["w0_passives"]:
        kept["w0_passives"] = {k: Named(f) for k, f in kept["w0_passives"].items()}
    # options left at their defaults are not passed: the name of the directory must fit
    T, kept["gamma"] = float(f"{T:.2g}"), round(kept["gamma"], 2)
    for k in AX:
        if k not in case["dims"]:
            del kept[k]
    defaults = {k: v.default for k, v in inspect.signature(EulerSolver.__init__).parameters.items()}
    kept = {k: v for k, v in kept.items() if k == "progress_bar" or repr(defaults.get(k)) != repr(v)}
    length = lambda kw: len("case_" + "_".join(f"{k}={v}" for k, v in kw.items()) + f"_T={T}_integrator={integ}_n_snapshots={m}")
    todo, parts = [kept], []
    while todo:
        kw = todo.pop()
        if length(kw) <= 250:
            parts.append(kw)
        else:  # half of the limiter options at a time
            here = [k for k in kw if k in LOOSE] or [k for k in kw if k in AX]
            half = here[: (len(here) + 1) // 2]
            todo.append({k: v for k, v in kw.items() if k not in half})
            if len(half) < len(here):
                todo.append({k: v for k, v in kw.items() if k not in here or k in half})
    for kw in parts:
        through(case, ctx, T, integ, m, ic_, bc, kw)


LOOSE = ["NAD", "NAD_mode", "NAD_range", "NAD_vars", "PAD", "SED", "SED_tolerance", "slope_limiter", "convex", "force_trouble", "csq_floor", "snapshots_as_fv_averages"]


def through(case, ctx, T, integ, m, ic_, bc, kept):
    d = ctx.tmpdir()
    s = wrap(d, T=T, integrator=integ, n_snapshots=m, ic_=ic_, bc=bc, **kept)
    want = straight(T=T, integrator=integ, n_snapshots=m, ic_=ic_, bc=bc, **kept)
    ctx.step(2)
    same(ctx, s.snapshots, want, T, m, "wrapper")
    ctx.outcome("combined options")


def bcs(case, ctx):
    kw = dict(BASE, nx=12, **LIM[case["lim"]])
    bc = bc_from({"x": [case["bc"]] * 2})
    d = ctx.tmpdir()
    s = wrap(d, bc=bc, **kw)
    same(ctx, s.snapshots, straight(bc=bc_from({"x": [case["bc"]] * 2}), **kw), 0.005, 2, case["bc"])
    ctx.step(2)
    ctx.outcome("boundaries")


def pairs(case, ctx):
    d = ctx.tmpdir()
    vs = VARIANTS if case["order"] == "forward" else VARIANTS[::-1]
    for i, v in enumerate(vs):
        kw = {**BASE, **v}
        s = wrap(d, **kw)
        same(ctx, s.snapshots, straight(**kw), kw.get("T", 0.005), kw.get("n_snapshots", 2), f"settings {v}")
        ctx.require(len(os.listdir(d)) == i + 1, f"settings {v} share the directory of earlier ones")
        ctx.step(2)
    # nothing was overwritten: every directory still holds its own data
    for v in vs:
        kw = {**BASE, **v}
        s = wrap(d, **kw)
        same(ctx, s.snapshots, straight(**kw), kw.get("T", 0.005), kw.get("n_snapshots", 2), f"settings {v} read back")
        ctx.require(s.step_count == 0, f"settings {v} were simulated again")
        ctx.step()
    ctx.require(len(os.listdir(d)) == len(vs), "reading created directories")
    ctx.outcome("kept apart")


def again(case, ctx):
    d = ctx.tmpdir()
    kw = {**BASE, **VARIANTS[case["v"]]}
    wrap(d, **kw)
    before = disk(d)
    s = wrap(d, **dict(reversed(list(kw.items()))))  # keyword order does not matter
    ctx.step(2)
    ctx.require(s.step_count == 0, "the second call simulated")
    ctx.require(disk(d) == before, "the second call changed the files")
    ctx.outcome("reused")


def disk(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    return out


def invalid(case, ctx):
    d = ctx.tmpdir()
    ctx.step()
    ctx.raises(lambda: wrap(d, integrator=case["integ"], **BASE), f"integrator {case['integ']!r}")
    ctx.require(not os.listdir(d), "a refused call left files")
    ctx.outcome("refused")


SET = {"A": dict(nx=4, px=0, progress_bar=False), "B": dict(nx=4, px=0, progress_bar=False, CFL=0.3)}
_want = {}


def history(case, ctx):
    d = ctx.tmpdir()
    have = {}  # model: settings -> stored final state, None for that of the settings' own problem
    for k in SET:
        if k not in _want:
            _want[k] = straight(T=0.1, **SET[k])
    count = 0
    for op in case["h"]:
        k = op[0]
        ctx.step()
        if op.endswith("*"):  # change what is stored
            count += 1
            before = set(os.listdir(d))
            r = wrap(d, T=0.1, overwrite=True, ic_=ic(1 + count), **SET[k])
            new = set(os.listdir(d)) - before
            ctx.require(len(new) == (k not in have), f"{op}: new directories {sorted(new)}")
            have[k] = r.snapshots[-1]["w"].copy()
            continue
        before = set(os.listdir(d))
        s = wrap(d, T=0.1, overwrite=op.endswith("!"), **SET[k])
        new = set(os.listdir(d)) - before
        ctx.require(len(s.snapshots) == 2, f"{op}: {len(s.snapshots)} snapshots")
        w = s.snapshots[-1]["w"]
        if k not in have:
            ctx.require(len(new) == 1, f"{op}: new directories {sorted(new)}")
            have[k] = None
        else:
            ctx.require(not new, f"{op}: new directories {sorted(new)}")
            if op.endswith("!"):
                have[k] = None
            else:
                ctx.require(s.step_count == 0, f"{op} simulated although the result is stored")
        if have[k] is not None:
            ctx.close(w, have[k], 1e-14, f"{op}: does not return what is stored")
        else:
            ctx.close(w, _want[k][-1]["w"], 1e-12, f"{op}: final state")
            ctx.close(s.snapshots[0]["w"], _want[k][0]["w"], 1e-12, f"{op}: initial state")
        ctx.state(repr(sorted((k, None if v is None else v.tobytes()) for k, v in have.items())))
    ctx.outcome("history")


def summary(case, ctx):
    import matplotlib.pyplot as plt

    d, e = ctx.tmpdir(), ctx.tmpdir()
    m = case["m"]
    T = 0.01 * (m - 1)
    kw = dict(nx=4, ny=4, px=0, py=0, progress_bar=False, T=T, n_snapshots=m)
    s = EulerSolver_wrapper("plots", d, summary_parent_dir=e, ic=ic(), **kw)
    plt.close("all")
    ctx.step()
    same(ctx, s.snapshots, straight(**kw), T, m, "with plots")
    ctx.require(os.listdir(d) == os.listdir(e), "plots and snapshots have different directories")
    got = sorted(os.listdir(os.path.join(e, os.listdir(e)[0])))
    ctx.require(got == sorted(f"t={0.01 * i:.2f}.png" for i in range(m)), f"plots {got}")
    before = disk(e)
    EulerSolver_wrapper("plots", d, summary_parent_dir=e, ic=ic(), **kw)
    ctx.require(disk(e) == before, "reading back drew plots")
    ctx.outcome("plots")
