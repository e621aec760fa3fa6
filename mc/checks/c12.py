"""C12: all interleavings, splittings and insertions of observations, against the undisturbed run."""
import copy

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt

from mc.fvlib import *

ID = "C12"
TECHNIQUE = "stateless exploration of the real code: all interleavings of the operations of two solvers (also nested through callbacks), all splittings and all placements of observations; oracle: the undisturbed run in a fresh process"
RULE = (
    "pair cases = ordered pair of configurations x operation words x sharing of inputs, inside: every merge order of the two words; "
    "split cases = every composition of N steps or subset of intermediate end times; observe cases = every placement of observations between steps; "
    "after every operation all earlier snapshots and all user inputs must be unchanged"
)
BOUNDS = dict(
    quick="8 configurations, all 64 ordered pairs x 2 word pairs x shared/separate inputs x 20 merge orders; compositions of 5 steps; 11 splittings of 36 steps; 2^4 placements x 6 observations (plots with and without overlays); solvers that differ in one of 40 settings, 7 direction sets, 4 arrangements (against an unlimited and, for the limiter settings, a limited solver); all words of integrators up to length 3, the last step against a solver started from the state before it, also after 26 and 130 steps; 30 short-lived solvers in a row, each with other data; plus 274 combined settings covering every triple of option values that can be combined (mc/combos.py)",
    thorough="words of 4 operations (70 merge orders), compositions of 7 steps; splittings of 60 steps",
)
ASSUMPTIONS = ["states must agree to 1e-13 relative; interleaving at the granularity of calls and callbacks, single thread"]


def dirichlet(x, y, z, t):
    w = np.empty((6, *np.shape(x)))
    w[0], w[1], w[2], w[3], w[4], w[5] = 1 + 0.1 * np.sin(3 * x + t), 0.2, 0.1, 0.3, 1 + 0.05 * np.cos(t + z), 0.4
    return cons(w)


CONST = cons(np.array([1.1, 0.2, -0.1, 0.05, 0.9, 0.3]).reshape(6, 1, 1, 1)).reshape(-1)
CFG = [
    dict(n=(9, 1, 1), p=(3, 0, 0), lim="minmod", npass=2),
    dict(n=(1, 7, 1), p=(0, 1, 0), rs="llf", bc="reflective", lim="off", npass=0),
    dict(n=(6, 5, 1), p=(2, 2, 0), lim="convex", bc="free", npass=1),
    dict(n=(6, 1, 6), p=(1, 0, 2), lim="off", bc="dir", npass=1),
    dict(n=(4, 3, 3), p=(1, 1, 1), lim="local", npass=1),
    dict(n=(8, 1, 1), p=(0, 0, 0), rs="advection_upwind", lim="off", bc="ic", npass=1),
    dict(n=(9, 1, 1), p=(3, 0, 0), lim="absolute", npass=2, names=("b", "a"), gamma=1.7, a=3),
    dict(n=(9, 1, 1), p=(1, 0, 0), lim="forced moncen", npass=1, gamma=1.7, CFL=0.5, a=4),
]


class Inputs:
    """user-owned objects, possibly shared between solvers"""

    def __init__(self, c):
        cfg = CFG[c]
        self.arrays = []
        b = cfg.get("bc")
        n, a = cfg["n"], cfg.get("a", 1)
        if b == "dir":
            con = CONST.copy()
            self.arrays.append(con)
            self.bc = BoundaryCondition(x=("dirichlet", "free"), x_value=(con, None), z=("free", "dirichlet"), z_value=(None, dirichlet))
        elif b == "ic":
            self.bc = BoundaryCondition(x="ic")
        elif b is None:
            self.bc = BoundaryCondition()
        else:
            self.bc = BoundaryCondition(x=b, y=b, z=b)
        self.bc0 = (self.bc.x, self.bc.y, self.bc.z)
        npass = cfg["npass"]
        if b == "ic":  # needs a pointwise profile
            prof = lambda x, y, z: np.array([1 + 0.2 * np.sin(6 * x), 0.3 + 0 * x, 0.1 + 0 * x, 0 * x, 1 + 0.1 * np.cos(6 * x)])
            self.kw = dict(conservative_ic=False, fv_ic=False)
        else:
            w = state("mild", n, npass=npass, a=a)
            arr = cons(w, cfg.get("gamma", GAMMA))
            self.arrays.append(arr)
            prof = lambda x, y, z: arr[:5]  # the user's own array, not a copy
            self.kw = dict(conservative_ic=True, fv_ic=True)
        self.ic = FuncIC(prof)
        names = cfg.get("names") or [f"s{j}" for j in range(npass)]
        if b == "ic":
            self.passives = {nm: (lambda x, y, z: 0.5 + 0.1 * np.sin(6 * x)) for nm in names}
        else:
            self.passives = {nm: (lambda x, y, z, j=j: arr[5 + j]) for j, nm in enumerate(names)}
        self.pnames = list(self.passives)
        self.lim = copy.deepcopy(LIM[cfg["lim"]])
        if cfg["lim"] in ("minmod", "local"):
            self.lim["PAD"] = {"rho": (0.2, 5.0), "P": (0.1, np.inf)}
        self.lim0 = copy.deepcopy(self.lim)
        self.arrays0 = [x.copy() for x in self.arrays]

    def unchanged(self):
        return (
            all(np.array_equal(x, y) for x, y in zip(self.arrays, self.arrays0))
            and list(self.passives) == self.pnames
            and self.lim == self.lim0
            and (self.bc.x, self.bc.y, self.bc.z) == self.bc0
        )


def build(c, inp, **kw):
    cfg = CFG[c]
    n, p = cfg["n"], cfg["p"]
    extra = dict(self_kw)
    extra.update(kw)
    return Quick(
        w0=inp.ic, w0_passives=inp.passives or None, nx=n[0], ny=n[1], nz=n[2], px=p[0], py=p[1], pz=p[2],
        x=(0.0, 1.0), y=(-0.5, 0.7), z=(1.0, 1.8), gamma=cfg.get("gamma", GAMMA), CFL=cfg.get("CFL", 0.8),
        bc=inp.bc, riemann_solver=cfg.get("rs", "hllc"), progress_bar=False, **inp.kw, **inp.lim, **extra,
    )


self_kw = {}
DT = 0.013


def op(s, o, c):
    """one operation on solver s"""
    if o == "s":
        s.run(n=1)
    elif o == "S":
        s.rk4(n=1)
    elif o == "T":
        s.run(T=s.t + DT)
    elif o == "L":
        s.run(T=s.t + DT, log_every_step=True)
    elif o == "o":
        observe(s, "plot")
        observe(s, "snapshot")
    else:
        raise ValueError(o)


def observe(s, what):
    if what == "snapshot":
        s.snapshot()
    elif what == "plot":
        if not s.snapshots:
            s.snapshot()
        fig, ax = plt.subplots()
        kw = {a: 0.5 for a in AX if a not in s.dims}
        q = s.snapshots[-1]  # forced trouble, which no criterion explains, cannot be overlaid
        flags = "trouble" in q and np.array_equal(q["trouble"] > 0, (q["NAD violation magnitude"] > 0) | (q["PAD violation magnitude"] > 0))
        if s.ndim == 1:
            s.plot_1d_slice(ax, param="rho", **kw)
            s.plot_1d_slice(ax, param="v", **kw)
            if flags:
                s.plot_1d_slice(ax, param="trouble", **kw)
        else:
            kw = kw or dict(z=1.2)
            s.plot_2d_slice(ax, param="v", **kw)
            s.plot_2d_slice(ax, param="P", contour=True, **kw)
            if flags:
                s.plot_2d_slice(ax, param="rho", overlay_trouble=True, **kw)
                s.plot_2d_slice(ax, param="trouble", **kw)
        plt.close(fig)
    elif what == "get":
        for nm in list(s.am.arrays):
            s.am.get_numpy(nm)
            s.am.get_numpy(nm)[...] = -7.0  # a copy: scribbling on it is harmless
    elif what == "report":
        s.timer.report()
        s.am.to_dict()
        s.bc.to_dict()
        repr(s)
    elif what == "save":
        import tempfile
        import shutil

        d = tempfile.mkdtemp(prefix="mc_scratch_c12_")
        try:
            s.run(T=s.t, snapshot_dir=d + "/out")  # no step: only saves
        finally:
            shutil.rmtree(d)
    elif what == "edit snapshot copy":
        if s.snapshots:
            c = copy.deepcopy(s.snapshots[-1])
            c["w"][...] = -1


def digest(s):
    return dict(u=U(s), t=s.t, ts=list(s.timestamps), n=s.step_count, trouble=np.array(s.snapshots[-1].get("trouble", 0.0)))


def freeze(s):
    return [{k: np.array(v, copy=True) for k, v in d.items()} for d in s.snapshots]


def same(a, b):
    return len(b) >= len(a) and all(set(x) == set(y) and all(np.array_equal(x[k], np.asarray(y[k])) for k in x) for x, y in zip(a, b))


def solo(c, word):
    s = build(c, Inputs(c))
    for o in word:
        op(s, o, c)
    if not s.snapshots:
        s.snapshot()
    return digest(s)


_solo = {}


def reference(c, word):
    if (c, word) not in _solo:
        _solo[c, word] = isolated(solo, c, word)
    return _solo[c, word]


def merges(a, b):
    for pos in itertools.combinations(range(a + b), a):
        yield [0 if i in pos else 1 for i in range(a + b)]


def cases(tier):
    th = tier == "thorough"
    out = []
    C = range(len(CFG))
    W = [("sTs", "sos"), ("SsT", "oLs")] if not th else [("sTso", "sosL"), ("SsTs", "oLsT")]
    for ca, cb, (wa, wb) in itertools.product(C, C, W):
        out.append(dict(k="pair", a=ca, b=cb, wa=wa, wb=wb, share=False))
        if ca == cb:
            out.append(dict(k="pair", a=ca, b=cb, wa=wa, wb=wb, share=True))
    for ca, cb in itertools.product(C, C):
        out.append(dict(k="nested", a=ca, b=cb))
    N = 7 if th else 5
    for c in C:
        for g in INTEGRATORS + ["auto"]:
            out.append(dict(k="split n", c=c, N=N, g=g))
            out.append(dict(k="split T", c=c, g=g))
            out.append(dict(k="split long", c=c, g=g, N=60 if th else 36))
            out.append(dict(k="every", c=c, g=g))
        for what in ("snapshot", "plot", "get", "report", "save", "edit snapshot copy"):
            out.append(dict(k="observe", c=c, what=what))
        out.append(dict(k="repeat", c=c))
        for g in INTEGRATORS + ["auto"]:
            out.append(dict(k="mixed", c=c, g=g, depth=4 if th else 3))
    for dims in VBASE:
        for nm in variants(dims):
            out.append(dict(k="variant", dims=dims, what=nm))
        for nm in ("nothing", "boundary ic", "boundary function right", "minmod"):
            out.append(dict(k="lives", dims=dims, what=nm))
        # against a solver that limits, with every default of the limiter in use
        for nm in ("nothing", "limited", "limited, other range", "limited, narrow physical range", "limited, physical range of the pressure", "moncen", "tight", "forced", "local", "density only", "more scalars", "gamma"):
            out.append(dict(k="variant", dims=dims, what=nm, base="limited"))
    # every triple of option values, alone, split, observed and next to another setting
    cc = combo_cases(bounded=True)
    for i, c in enumerate(cc):
        o = cc[(i + 97) % len(cc)]
        out.append(dict(c, k="combo", other={q: o[q] for q in ("reg", "dims", "p", "lim", "rs")}))
    return out


# ---------------------------------------------------------------- solvers that differ in a single setting
def vprofile(k):
    def f(x, y, z):
        r = x + 1.3 * y - 0.7 * z
        return np.array([1 + 0.2 * np.sin((5 + k) * r), 0.3 + 0.1 * np.cos(4 * r), 0.1 + 0.1 * np.sin(3 * r), -0.2 + 0.05 * np.cos(7 * r), 1 + 0.1 * np.cos(6 * r + k)])

    return f


def vfunction(k, m):
    def f(x, y, z, t):
        w = np.empty((5 + m, *np.shape(x)))
        w[:5] = vprofile(k)(x, y, z)
        w[0] += 0.1 * np.sin(9 * t)
        w[5:] = 0.3 + 0.1 * np.sin(2 * x + y + z)
        return cons(w)

    return f


VBASE = {
    "x": dict(nx=9, px=2),
    "y": dict(ny=8, py=1),
    "z": dict(nz=9, pz=3),
    "xy": dict(nx=6, ny=5, px=2, py=1),
    "yz": dict(ny=5, nz=6, py=1, pz=2),
    "xz": dict(nx=6, nz=6, px=1, pz=1),
    "xyz": dict(nx=3, ny=4, nz=3, px=1, py=1, pz=1),
}
VBCS = {
    "function left, constant right": ("dirichlet", "dirichlet"), "ic": ("ic", "ic"), "free": ("free", "free"), "periodic": ("periodic", "periodic"),
    "ic left": ("ic", "free"), "function right": ("free", "dirichlet"),
}


def variants(dims):
    """name -> settings that differ from the base (bc = type of the first active direction)"""
    a, b = dims[0], dims[-1]
    base = VBASE[dims]
    v = {"nothing": {}}
    for d in dims:
        v[f"{d} shifted"] = {d: (0.3, 1.3)}
        v[f"{d} stretched"] = {d: (0.0, 2.0)}
        v[f"one cell more along {d}"] = {"n" + d: base["n" + d] + 1}
        v[f"degree up along {d}"] = {"p" + d: base["p" + d] + 1}
    if len(dims) > 1:
        v["degrees exchanged"] = {"p" + a: base["p" + b], "p" + b: base["p" + a]}
        v["cells exchanged"] = {"n" + a: base["n" + b], "n" + b: base["n" + a]}
        v["last direction inactive"] = {"n" + b: 1, "p" + b: 0}
    for k in VBCS:
        v["boundary " + k] = dict(bc=k)
    v.update({
        "gamma": dict(gamma=1.3), "CFL": dict(CFL=0.3), "fixed step": dict(fixed_dt=1e-3), "sound floor": dict(csq_floor=4.0),
        "llf": dict(riemann_solver="llf"), "upwind": dict(riemann_solver="advection_upwind"),
        "other profile": dict(prof=3), "other boundary function": dict(fun=2), "other boundary constant": dict(con=1.2),
        "no scalars": dict(npass=0), "more scalars": dict(npass=3), "scalars renamed": dict(names="ba"),
        "minmod": dict(lim="minmod"), "moncen": dict(lim="moncen"), "tight": dict(lim="tight no SED"), "forced": dict(lim="forced"), "local": dict(lim="local"),
        "density only": dict(lim="rho only"), "centres": dict(snapshots_as_fv_averages=False), "buffer": dict(slab_buffer_size=17),
        "limited, narrow physical range": dict(lim="minmod", PAD={"rho": (0.9, 1.1)}),
        "limited": dict(lim="defaults"), "limited, other range": dict(lim="defaults", NAD_range="absolute", NAD=1e-3),
        "limited, physical range of the pressure": dict(lim="defaults", PAD={"P": (0.95, 1.02), "vx": (-0.1, 0.35)}),
    })
    return v


def vbuild(dims, name, **extra):
    kw = dict(VBASE[dims], bc="function left, constant right", gamma=GAMMA, prof=0, fun=0, con=1.0, npass=2, names="ab", lim="off", progress_bar=False)
    kw.update(variants(dims)[name], **extra)
    lim = kw.pop("lim")
    lim = dict(a_posteriori_slope_limiting=True) if lim == "defaults" else dict(LIM[lim])
    m, names = kw.pop("npass"), kw.pop("names")
    names = list(names)[:m] + ["c"] * (m > 2)
    bc, prof, fun, con = VBCS[kw.pop("bc")], kw.pop("prof"), kw.pop("fun"), kw.pop("con")
    c = cons(np.array([con, 0.2, -0.1, 0.05, 0.9] + [0.3] * m).reshape(-1, 1, 1, 1)).ravel()
    d = dims[0]
    val = tuple((vfunction(fun, m) if i == 0 else c) if t == "dirichlet" else None for i, t in enumerate(bc))
    kwb = {d: bc, d + "_value": val}
    for o in dims[1:]:
        kwb[o] = "ic"
    passives = {nm: (lambda x, y, z, j=j: 0.5 + 0.1 * np.sin((6 + j) * (x + y + z))) for j, nm in enumerate(names)}
    ic = FuncIC(vprofile(prof))
    return Quick(w0=ic, w0_passives=passives or None, bc=BoundaryCondition(**kwb), **{**lim, **kw})


def vdigest(s):
    out = digest(s)
    out["w"] = np.array(s.snapshots[-1]["w"])
    # the scalars by name, as plotted
    ax = matplotlib.figure.Figure().add_subplot()
    kw = {a: (0.4 if a in s.dims else 0.5) for a in AX if a != s.dims[0]}
    out["lines"] = []
    for nm in s.hydro_state.passive_scalars:
        ax.clear()
        s.plot_1d_slice(ax, param=nm, **kw)
        out["lines"].append((nm, np.array(ax.lines[-1].get_ydata(), dtype=float)))
    return out


def vsolo(dims, name):
    s = vbuild(dims, name)
    s.run(n=2)
    return vdigest(s)


def vmixed(dims, name, how, base="nothing"):
    """base solver and a variant in one process, in several arrangements"""
    import gc

    if how == "base first":
        a = vbuild(dims, base)
        a.run(n=2)
        b = vbuild(dims, name)
        b.run(n=2)
    elif how == "variant first":
        b = vbuild(dims, name)
        b.run(n=2)
        a = vbuild(dims, base)
        a.run(n=2)
    elif how == "alternating":
        a, b = vbuild(dims, base), vbuild(dims, name)
        a.run(n=1)
        b.run(n=1)
        a.run(n=1)
        b.run(n=1)
    else:  # the first is gone before the second is built
        a = vbuild(dims, base)
        a.run(n=2)
        da = vdigest(a)
        del a
        gc.collect()
        b = vbuild(dims, name)
        b.run(n=2)
        return da, vdigest(b)
    return vdigest(a), vdigest(b)


def generations(dims, name, number):
    """one short-lived solver after another, each with its own profile: what one leaves behind must not reach the next"""
    import gc

    out = []
    for k in number:
        s = vbuild(dims, name, prof=k, fun=k, con=1 + 0.05 * k)
        s.run(n=1)
        out.append(vdigest(s))
        del s
        gc.collect()
    return out


def lives(case, ctx):
    dims, name = case["dims"], case["what"]
    ref = {k: isolated(generations, dims, name, [k])[0] for k in range(5)}
    order = [(2 * j + j // 5) % 5 for j in range(30)]
    for j, (k, got) in enumerate(zip(order, isolated(generations, dims, name, order))):
        agree(ctx, got, ref[k], f"{dims}, {name}: solver {j + 1} of {len(order)} in a row")
        ctx.close(got["w"], ref[k]["w"], 1e-13, f"{dims}, {name}: snapshot of solver {j + 1} in a row")
        ctx.step()
        ctx.state(dims, name, j)
    ctx.outcome("generations")


_vsolo = {}


def variant(case, ctx):
    dims, name, base = case["dims"], case["what"], case.get("base", "nothing")
    for nm in (base, name):
        if (dims, nm) not in _vsolo:
            _vsolo[dims, nm] = isolated(vsolo, dims, nm)
    for how in ("base first", "variant first", "alternating", "deleted"):
        for got, nm in zip(isolated(vmixed, dims, name, how, base), (base, name)):
            ref = _vsolo[dims, nm]
            what = f"{dims}, {how}: {'base solver' if nm == base else 'solver with ' + name}"
            agree(ctx, got, ref, what)
            ctx.close(got["w"], ref["w"], 1e-13, f"{what}: snapshot")
            ctx.require(len(got["lines"]) == len(ref["lines"]), f"{what}: scalars")
            for (na, a), (nb, b) in zip(got["lines"], ref["lines"]):
                ctx.require(na == nb and a.shape == b.shape, f"{what}: scalar {na} instead of {nb}")
                ctx.close(a, b, 1e-13, f"{what}: plot of scalar {na}")
            ctx.step(2)
            ctx.state(got["u"], how, nm)
    ctx.outcome("variants")


def agree(ctx, got, ref, what):
    ctx.close(got["u"], ref["u"], 1e-13, f"{what}: state")
    ctx.close(got["ts"], ref["ts"], 1e-13, f"{what}: times")
    ctx.require(got["n"] == ref["n"], f"{what}: {got['n']} steps instead of {ref['n']}")
    ctx.close(got["trouble"], ref["trouble"], 1e-12, f"{what}: trouble record")


def run(case, ctx):
    k = case["k"]
    if k == "combo":
        ref = {}
        for base, way in WAYS:
            if base not in ref:
                ref[base] = isolated(combined, case, base)
            got = isolated(combined, case, way)
            ctx.require(got is not None, "a snapshot already taken changed")
            agree(ctx, got, ref[base], way)
            ctx.step(4)
            ctx.state(got["u"])
        ctx.outcome("combined options")
    elif k == "variant":
        variant(case, ctx)
    elif k == "lives":
        lives(case, ctx)
    elif k == "pair":
        ra, rb = reference(case["a"], case["wa"]), reference(case["b"], case["wb"])
        for order, da, db, bad in isolated(pair, case):
            ctx.require(not bad, f"order {order}: {bad}")
            agree(ctx, da, ra, f"first solver, order {order}")
            agree(ctx, db, rb, f"second solver, order {order}")
            ctx.step(len(order))
            ctx.state(da["u"], db["u"], tuple(order))
        ctx.outcome("interleaved")
    elif k == "nested":
        ra = reference(case["a"], "ss")
        rb = reference(case["b"], "sss")
        da, db = isolated(nested, case)
        agree(ctx, da, ra, "outer solver")
        agree(ctx, db, rb, "solver stepped inside the other's snapshot callback")
        ctx.step(5)
        ctx.state(da["u"], db["u"])
        ctx.outcome("nested")
    elif k == "split n":
        N = case["N"]
        ref = isolated(split_n, case, [N])
        for cuts in itertools.product((0, 1), repeat=N - 1):
            parts, cur = [], 1
            for x in cuts:
                if x:
                    parts.append(cur)
                    cur = 1
                else:
                    cur += 1
            parts.append(cur)
            got = isolated(split_n, case, parts)
            agree(ctx, got, ref, f"steps split as {parts}")
            ctx.step(N)
            ctx.state(got["u"], tuple(parts))
        agree(ctx, isolated(split_n, case, [0, N, 0]), ref, "with empty runs around")
        ctx.outcome("split")
    elif k == "split long":
        N = case["N"]
        ref = isolated(split_n, case, [N])
        for parts in [[j, N - j] for j in (1, 9, 10, 11, 19, 20, 25, N - 1)] + [[m] * (N // m) for m in (1, 3, 12)]:
            agree(ctx, isolated(split_n, case, parts), ref, f"steps split as {parts}")
            ctx.step(N)
        ctx.outcome("split long")
    elif k == "split T":
        mids = [0.011, 0.02, 0.034]
        for r in range(len(mids) + 1):
            for sub in itertools.combinations(mids, r):
                ref = isolated(split_t, case, [0.05], list(sub))
                got = isolated(split_t, case, list(sub) + [0.05], [])
                agree(ctx, got, ref, f"run split at {sub}")
                ctx.step(ref["n"])
                ctx.state(got["u"], sub)
        ctx.outcome("split")
    elif k == "every":
        a, b = isolated(every, case, True), isolated(every, case, False)
        agree(ctx, a, b, "logging every step")
        ctx.step(a["n"])
        ctx.state(a["u"])
    elif k == "observe":
        ref = reference(case["c"], "sss")
        for where in itertools.product((0, 1, 2), repeat=4):
            if case["what"] in ("plot", "save") and max(where) == 2:
                continue
            got, bad = isolated(observed, case, where)
            ctx.require(not bad, f"{case['what']} at {where}: {bad}")
            agree(ctx, got, ref, f"{case['what']} at gaps {where}")
            ctx.step(3)
            ctx.state(got["u"], where)
        ctx.outcome("observed")
    elif k == "mixed":
        for word, got, want in isolated(mixed, case):
            agree(ctx, got, want, f"steps {word} on one solver, the last against a solver started from the state before it")
            ctx.step(len(word))
            ctx.state(got["u"], word)
        ctx.outcome("mixed integrators")
    elif k == "repeat":
        ref = reference(case["c"], "sTs")
        for i, got in enumerate(isolated(repeat, case)):
            agree(ctx, got, ref, f"repetition {i}")
            ctx.step(3)
            ctx.state(got["u"], i)


def pair(case):
    res = []
    for order in merges(len(case["wa"]), len(case["wb"])):
        ia = Inputs(case["a"])
        ib = ia if case["share"] else Inputs(case["b"])
        s = [build(case["a"], ia), build(case["b"], ib)]
        pos, bad = [0, 0], ""
        word, cf = (case["wa"], case["wb"]), (case["a"], case["b"])
        for j in order:
            frozen = [freeze(x) for x in s]
            other = U(s[1 - j])
            op(s[j], word[j][pos[j]], cf[j])
            pos[j] += 1
            if not (same(frozen[0], s[0].snapshots) and same(frozen[1], s[1].snapshots)):
                bad = "a snapshot already taken changed"
            if not np.array_equal(other, U(s[1 - j])):
                bad = "stepping one solver changed the state of the other"
            if not (ia.unchanged() and ib.unchanged()):
                bad = "an input object of the user was modified"
        for x in s:
            if not x.snapshots:
                x.snapshot()
        res.append((order, digest(s[0]), digest(s[1]), bad))
    return res


def nested(case):
    b = build(case["b"], Inputs(case["b"]))
    count = [0]

    def helper(_):
        if count[0] < 3:
            count[0] += 1
            b.run(n=1)

    a = build(case["a"], Inputs(case["a"]), snapshot_helper_function=helper)
    a.run(n=1)
    a.run(n=1)
    return digest(a), digest(b)


def split_n(case, parts):
    s = build(case["c"], Inputs(case["c"]))
    for m in parts:
        advance(s, case["g"], m)
    return digest(s)


def split_t(case, ends, beats):
    s = build(case["c"], Inputs(case["c"]))
    fn = s.run if case["g"] == "auto" else getattr(s, case["g"])
    for e in ends:
        fn(T=e, downbeats=beats)
    return digest(s)


def every(case, flag):
    s = build(case["c"], Inputs(case["c"]))
    fn = s.run if case["g"] == "auto" else getattr(s, case["g"])
    fn(T=0.05, downbeats=[0.02], log_every_step=flag)
    return digest(s)


def observed(case, where):
    inp = Inputs(case["c"])
    s = build(case["c"], inp)
    bad = ""
    for j in range(4):
        frozen = freeze(s)
        for _ in range(where[j]):
            u = U(s)
            observe(s, case["what"])
            if not np.array_equal(u, U(s)):
                bad = "observing changed the state"
        if j < 3:
            s.run(n=1)
        if not same(frozen, s.snapshots):
            bad = "a snapshot already taken changed"
    if not inp.unchanged():
        bad = "an input object of the user was modified"
    return digest(s), bad


def mixed(case):
    """every word of integrators: a step depends on nothing but state and time before it"""
    out, c = [], case["c"]
    long = (26, 130) if case["g"] == "euler" else (26,)
    for d in list(range(1, case["depth"] + 1)) + [m + 1 for m in long]:
        for tail in itertools.product(INTEGRATORS + ["auto"], repeat=d - 1) if d <= case["depth"] else [(case["g"],) * (d - 1)]:
            word = (case["g"],) + tail
            s = build(c, Inputs(c))
            if d > case["depth"]:  # a long history
                advance(s, case["g"], d - 1)
                word = (f"{d - 1} {case['g']}", case["g"])
            else:
                for g in word[:-1]:
                    advance(s, g, 1)
            f = build(c, Inputs(c))
            f.am("u")[...] = U(s)
            f.t = s.t
            for x in (s, f):
                advance(x, word[-1], 1)
            a, b = digest(s), digest(f)
            for x in (a, b):
                x["ts"], x["n"] = x["ts"][-1:], 1
            out.append((word, a, b))
    return out


def combined(case, way):
    """four steps of a setting: in one call, one by one, observed, or between the steps of another solver"""

    def make(c):
        r = Regime(c["reg"], c["dims"], npass=1)
        return r, r.solver(degrees_for(c["dims"], c["p"]), c["lim"], c["rs"])

    r, s = make(case)
    if way == "one call":
        advance(s, r.ig, 4)
    elif way == "next to another":
        q, o = make(case["other"])
        for _ in range(4):
            q.go(o, 1)
            advance(s, r.ig, 1)
            make(case)[0].go(make(case)[1], 1)
    elif way == "to a time":
        (s.run if r.ig == "auto" else getattr(s, r.ig))(T=2.6 * r.span, downbeats=[0.4 * r.span, 1.7 * r.span])
    elif way == "to a time, every step":
        (s.run if r.ig == "auto" else getattr(s, r.ig))(T=2.6 * r.span, downbeats=[0.4 * r.span, 1.7 * r.span], log_every_step=True)
    elif way == "to a time in parts":
        for t in (0.4, 1.7, 2.6):
            (s.run if r.ig == "auto" else getattr(s, r.ig))(T=t * r.span)
    else:
        for _ in range(4):
            old = [(x["t"], x["w"].copy()) for x in s.snapshots]
            advance(s, r.ig, 1)
            s.snapshot()
            if not all(t == x["t"] and np.array_equal(w, x["w"]) for (t, w), x in zip(old, s.snapshots)):
                return None
    return digest(s)


WAYS = (("one call", "one by one"), ("one call", "next to another"), ("to a time", "to a time, every step"), ("to a time", "to a time in parts"))


def repeat(case):
    inp = Inputs(case["c"])
    out = []
    for _ in range(3):
        s = build(case["c"], inp)
        for o in "sTs":
            op(s, o, case["c"])
        out.append(digest(s))
    return out
