"""C22: trouble records, snapshot data, plots and radial averages."""
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.colors import LogNorm

from fvhoe.fv import interpolate_cell_centers, interpolate_fv_averages
from fvhoe.visualization import plot_1d_slice, plot_2d_slice, sample_circular_average
from mc.fvlib import *

ID = "C22"
TECHNIQUE = "exhaustive enumeration of integrator histories (trouble records) and of plot requests over every variable, orientation, cell, time and trouble mode; the artists drawn by the real functions against reference arrays"
RULE = (
    "record cases = configuration x every sequence of integrators up to a depth and timed runs with output times, every snapshot compared; data cases = "
    "configuration x averages/centres; plot cases = source (solver, snapshot list) x variable x orientation x trouble mode, inside: all coordinates "
    "(every cell, off-centre, outside) x all times; radial cases = variable x centre x bins x time"
)
BOUNDS = dict(
    quick="records: integrator words up to length 3 in 1D, 2 in 2D, 1 in 3D; snapshot data for degrees 0-8 (1D), 0-8 (2D), 0-2 (3D) with periodic, open and reflecting boundaries and with inflow data that change in time; plots on 4x3x2 cells with 3 snapshots, flat meshes, partial snapshot lists, 4 scalars; plus 274 combined settings covering every triple of option values that can be combined (mc/combos.py)",
    thorough="records: words up to length 4 in 1D, 3 in 2D, 2 in 3D; plots on 5x4x3 cells with 4 snapshots",
)
ASSUMPTIONS = [
    "one-stage trouble flags are themselves decided by C17, interpolation between averages and centres by C08",
    "requests exactly half way between two cells or times are left out",
]

RECLIMS = ["minmod", "tight no SED", "local", "wide PAD", "convex tight", "rho only", "forced"]


def cases(tier):
    th = tier == "thorough"
    out = []
    for dims, lim, p in itertools.product(DIMSETS, RECLIMS, (1, 2, 3)):
        if len(dims) == 3 and ("convex" in lim or p > 1):
            continue
        depth = {1: 3, 2: 2, 3: 1}[len(dims)] + (1 if th else 0)
        for first in INTEGRATORS:
            if dims in ("x", "xy", "xyz") or (first, lim) in (("rk4", "minmod"), ("euler", "wide PAD")) or th:
                out.append(dict(k="record", dims=dims, lim=lim, p=p, first=first, depth=depth))
        for integ in INTEGRATORS if dims == "x" or th else ("ssprk3",):
            out.append(dict(k="timed", dims=dims, lim=lim, p=p, integ=integ))
    # every triple of option values
    out += [dict(c, k="combo") for c in combo_cases(lambda c: c["lim"] != "off", bounded=True)]
    for dims, p, bc, centres, lim in itertools.product(DIMSETS, range(9), ("periodic", "free", "reflective"), (False, True), ("off", "minmod")):
        if (len(dims) == 3 and p > 2) or (len(dims) == 2 and p > 4 and lim == "off" and not th):
            continue
        out.append(dict(k="data", dims=dims, p=p, bc=bc, centres=centres, lim=lim))
    for dims, p, centres, lim, g in itertools.product(DIMSETS, (1, 2, 3, 5), (False, True), ("off", "minmod"), INTEGRATORS):
        if (len(dims) == 1 or p < 5) and (len(dims) < 3 or (p < 3 and g == "rk4")):
            out.append(dict(k="inflow", dims=dims, p=p, centres=centres, lim=lim, g=g))
    n = [5, 4, 3] if th else [4, 3, 2]
    for src in ("solver", "list"):
        for prm in ("rho", "vx", "vy", "vz", "P", "v") + (("s0", "s1", "s2", "s3") if src == "solver" else ()):
            for o in AX:
                out.append(dict(k="1d", n=n, src=src, param=prm, along=o, mode=None, tol=0))
                out.append(dict(k="2d", n=n, src=src, param=prm, across=o, style="image", overlay=None, tol=0))
                out.append(dict(k="2d", n=n, src=src, param=prm, across=o, style="contour", overlay=None, tol=0))
        for o, mode, tol in itertools.product(AX, ("all", "NAD", "PAD"), (0, 0.033)):
            out.append(dict(k="1d", n=n, src=src, param="trouble", along=o, mode=mode, tol=tol))
        for o, ov, tol in itertools.product(AX, (False, True, "all", "NAD", "PAD"), (0, 0.033)):
            for prm in ("rho", "v", "trouble"):
                out.append(dict(k="2d", n=n, src=src, param=prm, across=o, style="image", overlay=ov, tol=tol))
        for o, prm in itertools.product(AX, ("trouble", "NAD", "PAD")):
            out.append(dict(k="2d", n=n, src=src, param=prm, across=o, style="image", overlay=None, tol=0))
        for o in AX:
            for style in ("log", "log limits", "levels"):
                out.append(dict(k="2d", n=n, src=src, param="rho", across=o, style=style, overlay=None, tol=0))
        for prm in ("rho", "vx", "vy", "vz", "P", "v") + (("s0", "s1", "s2", "s3") if src == "solver" else ()):
            out.append(dict(k="radial", n=n, src=src, param=prm))
    for part, prm in itertools.product(([0], [1], [2], [0, 1], [0, 2], [1, 2]), ("rho", "P", "v", "vy", "trouble")):
        for o in AX:
            out.append(dict(k="1d", n=n, src="list", param=prm, along=o, mode="all" if prm == "trouble" else None, tol=0, part=part))
            out.append(dict(k="2d", n=n, src="list", param=prm, across=o, style="image", overlay=None, tol=0, part=part))
        if prm != "trouble":
            out.append(dict(k="radial", n=n, src="list", param=prm, part=part))
    for flat, src, prm in itertools.product(([6, 1, 1], [1, 6, 1], [1, 1, 6], [5, 4, 1], [5, 1, 4], [1, 5, 4]), ("solver", "list"), ("rho", "v", "P", "trouble")):
        for o in AX:
            out.append(dict(k="1d", n=flat, src=src, param=prm, along=o, mode="all" if prm == "trouble" else None, tol=0))
        if sum(k > 1 for k in flat) == 2:
            o = AX[flat.index(1)]
            out.append(dict(k="2d", n=flat, src=src, param=prm, across=o, style="image", overlay=None, tol=0))
            out.append(dict(k="2d", n=flat, src=src, param=prm, across=o, style="image", overlay=True, tol=0))
        if prm != "trouble":
            out.append(dict(k="radial", n=flat, src=src, param=prm))
    for dims in ("x", "y", "z", "xy", "xz", "yz"):
        out.append(dict(k="fields", dims=dims))
    out.append(dict(k="refuse"))
    return out


def run(case, ctx):
    {"record": record, "timed": timed, "data": data, "combo": combo, "inflow": inflow, "1d": one_d, "2d": two_d, "radial": radial, "fields": fields, "refuse": refuse}[case["k"]](case, ctx)


# ---------------------------------------------------------------- trouble records
TAB = {  # explicit Runge-Kutta tableaux
    "euler": ([[]], [1]),
    "ssprk2": ([[], [1]], [0.5, 0.5]),
    "ssprk3": ([[], [1], [0.25, 0.25]], [1 / 6, 1 / 6, 2 / 3]),
    "rk4": ([[], [0.5], [0, 0.5], [0, 0, 1]], [1 / 6, 1 / 3, 1 / 3, 1 / 6]),
}
KEYS = ["trouble", "NAD violation magnitude", "PAD violation magnitude"]


def recs(s, i=-1):
    return [np.array(s.snapshots[i][k], dtype=float) for k in KEYS]


def ref_step(make, u, integ, room=None):
    """(dt, next state, mean records) from one-stage runs of fresh solvers"""
    A, b = TAB[integ]
    ks, rec, dt = [], [0, 0, 0], None
    for row in A:
        y = u + (dt or 0) * sum((a * k for a, k in zip(row, ks)), np.zeros_like(u)) if row else u
        s = make(y)
        d, k = rhs(s)
        s = make(y)
        s.euler(n=1)
        if dt is None:
            dt = d if room is None else min(d, room)
        ks.append(k)
        rec = [r + q / len(A) for r, q in zip(rec, recs(s))]
    return dt, u + dt * sum(w * k for w, k in zip(b, ks)), rec


def setup(case):
    dims, p = case["dims"], degrees_for(case["dims"], case["p"])
    n = shape_for(dims, {1: 10, 2: [6, 5], 3: [4, 3, 3]}[len(dims)])
    w = state("rough", n, npass=1)
    return n, lambda u: solver(n, p, u=u, bc={a: ["free", "free"] if a == "y" else ["periodic", "periodic"] for a in dims}, CFL=0.5, **LIM[case["lim"]]), cons(w)


def same_rec(ctx, got, ref, n, what):
    for k, g, r in zip(KEYS, got, ref):
        ctx.require(g.shape == n, f"{what}: {k} has shape {g.shape} for a mesh of {n}")
        fin = np.isfinite(r)
        ctx.require(np.array_equal(fin, np.isfinite(g)), f"{what}: {k} finite in other cells")
        ctx.close(np.where(fin, g, 0), np.where(fin, r, 0), 1e-9, f"{what}: {k}")


def record(case, ctx):
    n, make, u0 = setup(case)
    s = make(u0)
    cache = {(): (u0, None)}

    def node(word):
        if word not in cache:
            u, _ = node(word[:-1])
            _, v, rec = ref_step(make, u, word[-1])
            cache[word] = (v, rec)
        return cache[word]

    for d in range(1, case["depth"] + 1):
        for tail in itertools.product(INTEGRATORS, repeat=d - 1):
            word = (case["first"],) + tail
            s = make(u0)
            for k, integ in enumerate(word):
                getattr(s, integ)(n=1)
                ctx.step()
                u, rec = node(word[: k + 1])
                same_rec(ctx, recs(s), rec, n, f"after {word[: k + 1]}")
                # the snapshot opening the run shows the record of the step before
                same_rec(ctx, recs(s, -2), node(word[:k])[1] or [np.zeros(n)] * 3, n, f"before step {k + 1} of {word}")
            ctx.state(repr(case), word)
    for k in (1, 2):
        s = make(u0)
        getattr(s, case["first"])(n=k)
        ctx.step(k)
        same_rec(ctx, recs(s), node((case["first"],) * k)[1], n, f"{k} steps of {case['first']} in one call")
    u, rec = node((case["first"],))
    frac = np.mean((rec[0] > 0) & (rec[0] < 1))
    ctx.outcome("records with partly troubled steps" if frac > 0 else "records")


def combo(case, ctx):
    """records after each step of a setting"""
    dims, p = case["dims"], degrees_for(case["dims"], case["p"])
    r = Regime(case["reg"], dims)
    make = lambda u: r.solver(p, case["lim"], case["rs"], u=u)
    u = cons(r.w, r.gamma)
    s = make(u)
    integ = INTEGRATORS[min(max(p), 3)] if r.ig == "auto" else r.ig
    for k in range(2):
        _, v, rec = ref_step(make, u, integ)
        advance(s, r.ig, 1)
        ctx.step()
        same_rec(ctx, recs(s), rec, r.n, f"after step {k + 1}")
        u = U(s)
        ctx.state(u)
    ctx.outcome("records of combined options")


def timed(case, ctx):
    """snapshots at output times and at every step carry the record of the step that led to them"""
    n, make, u0 = setup(case)
    dt0, _ = rhs(make(u0))
    for every, beats in itertools.product((False, True), ([], [0.6], [1.3, 2.2])):
        T = 2.7 * dt0
        marks = sorted([b * dt0 for b in beats] + [T])
        s = make(u0)
        getattr(s, case["integ"])(T=T, downbeats=[b * dt0 for b in beats], log_every_step=every)
        t, u, want = 0.0, u0, [[np.zeros(n)] * 3]
        for m in marks:
            while t < m - 1e-9 * dt0:
                dt, u, rec = ref_step(make, u, case["integ"], room=m - t)
                t += dt
                ctx.step()
                if every or abs(t - m) <= 1e-9 * dt0:
                    want.append(rec)
        ctx.require(len(s.snapshots) == len(want), f"{len(s.snapshots)} snapshots instead of {len(want)}")
        for i, r in enumerate(want):
            same_rec(ctx, recs(s, i), r, n, f"snapshot {i} (every step: {every}, output times {beats})")
            ctx.state(repr(case), every, tuple(beats), i)
    ctx.outcome("timed")


# ---------------------------------------------------------------- snapshot data
def data(case, ctx):
    dims, p = case["dims"], degrees_for(case["dims"], case["p"])
    n = shape_for(dims, {1: max(9, 2 * case["p"] + 3), 2: [6, 5] if case["p"] < 3 else [2 * case["p"] + 3, 2 * case["p"] + 2], 3: [4, 5, 3] if case["bc"] != "reflective" else [5, 7, 6]}[len(dims)])
    dom = [(0, 1), (-1, 1), (2, 2.5)]
    kw = dict(LIM[case["lim"]])
    if case["centres"]:
        kw["snapshots_as_fv_averages"] = False
    s = solver(n, p, w=state("mild", n, npass=2), bc={a: [case["bc"]] * 2 for a in dims}, dom=dom, **kw)
    seen = []
    for step in range(3):
        before = U(s)
        if step == 0:
            s.run(n=0)
        else:
            s.run(n=1)
        ctx.step()
        for i, u in ((-2, before), (-1, U(s))):
            snap = s.snapshots[i]
            r = [-(-q // 2) * (1 if case["centres"] else 2) for q in p]
            g = u
            for ax in range(3):
                pw = [(0, 0)] * 4
                pw[1 + ax] = (r[ax], r[ax])
                g = np.pad(g, pw, mode={"periodic": "wrap", "free": "edge", "reflective": "symmetric"}[case["bc"]])
                if case["bc"] == "reflective" and r[ax]:
                    m = np.moveaxis(g[1 + ax], ax, 0)
                    m[: r[ax]] *= -1
                    m[-r[ax] :] *= -1
            w = prims(interpolate_cell_centers(g, p=p))
            if not case["centres"]:
                w = interpolate_fv_averages(w, p=p)
            ctx.close(snap["w"], w, 1e-12, "snapshot variables", scale=max(1.0, np.max(np.abs(w))))
            for j, a in enumerate(AX):
                c = dom[j][0] + (dom[j][1] - dom[j][0]) * (np.arange(n[j]) + 0.5) / n[j]
                ctx.close(snap[a], c, 1e-13, f"{a} coordinates", scale=3)
            ctx.state(w)
        ctx.require(s.snapshots[-1]["t"] == s.t == s.snapshot_times[-1], "snapshot time")
        ctx.require(("trouble" in s.snapshots[-1]) == (case["lim"] != "off"), "trouble record")
        seen.append([(q["t"], q["w"].copy()) for q in s.snapshots])
    # earlier snapshots are not touched by later steps
    for old in seen:
        for (t, w), q in zip(old, s.snapshots):
            ctx.require(t == q["t"] and np.array_equal(w, q["w"]), "an old snapshot changed")
    ctx.outcome("data")


def inflow(case, ctx):
    """boundary data that change in time enter a snapshot as they are at the time of the snapshot"""
    dims, p = case["dims"], degrees_for(case["dims"], case["p"])
    n = shape_for(dims, {1: 12, 2: [8, 7], 3: [4, 5, 3]}[len(dims)])
    kw = dict(LIM[case["lim"]])
    if case["centres"]:
        kw["snapshots_as_fv_averages"] = False

    def val(x, y, z, t):
        w = np.ones((6, *np.shape(x)))
        w[0] += 0.3 * np.sin(40 * t + x + 2 * y + 3 * z)
        w[1:4] *= 0.2
        w[5] = np.cos(60 * t)
        return cons(w)

    kwb = {}
    for i, a in enumerate(dims):
        kwb[a] = ("dirichlet", "free") if i % 2 == 0 else ("free", "dirichlet")
        kwb[a + "_value"] = (val, None) if i % 2 == 0 else (None, val)
    s = solver(n, p, w=state("mild", n, npass=1), bc=BoundaryCondition(**kwb), **kw)
    dt = rhs(s)[0]
    states = []
    for word in ({"n": 0}, {"n": 2}, {"T": 2.6 * dt, "downbeats": [2.2 * dt]}, {"n": 1}, {"T": 4.9 * dt}):
        k = len(s.snapshots)
        before = U(s)
        getattr(s, case["g"])(**word)
        ctx.step()
        # states at the ends of the call
        states += [(k, before), (len(s.snapshots) - 1, U(s))]
    for i, u in states:
        snap = s.snapshots[i]
        r = [-(-q // 2) * (1 if case["centres"] else 2) for q in p]
        w = prims(interpolate_cell_centers(s.bc.apply(u, gw=tuple(r), t=snap["t"]), p=p))
        if not case["centres"]:
            w = interpolate_fv_averages(w, p=p)
        ctx.close(snap["w"], w, 1e-12, f"snapshot {i} of {len(s.snapshots)}", scale=max(1.0, np.max(np.abs(w))))
        ctx.state(w)
    ctx.outcome("data with inflow")


# ---------------------------------------------------------------- plots
_S = {}


def subject(n):
    """a 3D run with three or four snapshots, some cells troubled by range, some by neighbours"""
    key = tuple(n)
    if key not in _S:
        w = state("rough", tuple(n), npass=4)
        s = solver(
            tuple(n), tuple(int(k > 1) for k in n), w=w, dom=[(0, 1), (-1, 1), (2, 2.5)], a_posteriori_slope_limiting=True, SED=False, NAD=1e-2,
            NAD_vars=("rho",), PAD={"vx": (-0.35, np.inf)}, fixed_dt=2e-2,
        )
        s.euler(T=0.07 if n[0] < 5 else 0.12, downbeats=[0.02, 0.05] if n[0] < 5 else [0.02, 0.05, 0.1])
        _S[key] = s
    return _S[key]


def source(case):
    s = subject(case["n"])
    snaps = s.snapshots
    if "part" in case:  # a list with some of the snapshots
        snaps = [snaps[i] for i in case["part"]]
    return (s if case["src"] == "solver" else snaps), snaps


VARS = ["rho", "vx", "vy", "vz", "P", "s0", "s1", "s2", "s3"]


def shown(snap, param, mode=None, tol=0, raw=True):
    w = snap["w"]
    if param == "v":
        return np.sqrt(w[1] ** 2 + w[2] ** 2 + w[3] ** 2)
    if param in VARS:
        return w[VARS.index(param)]
    if raw and param in ("trouble", "NAD", "PAD"):
        return snap[{"trouble": "trouble", "NAD": KEYS[1], "PAD": KEYS[2]}[param]]
    nad, pad = snap[KEYS[1]] > tol, snap[KEYS[2]] > 0
    return np.where({"all": nad | pad, "NAD": nad, "PAD": pad}[mode], 1.0, 0.0)


def requests(c):
    """(requested value, index) for one axis: all cells, off-centre, outside"""
    h = c[1] - c[0] if len(c) > 1 else 1.0
    out = []
    for i, v in enumerate(c):
        out += [(v, i), (v + 0.45 * h, i), (v - 0.3 * h, i)]
    out += [(c[0] - 10, 0), (c[-1] + 10, len(c) - 1)]
    return out


def times(snaps):
    t = [q["t"] for q in snaps]
    out = [(None, len(t) - 1), (-1.0, 0), (9.0, len(t) - 1)]
    for i, v in enumerate(t):
        out.append((v, i))
        if i + 1 < len(t):
            out += [(v + 0.4 * (t[i + 1] - v), i), (v + 0.6 * (t[i + 1] - v), i + 1)]
    return out


def one_d(case, ctx):
    src, snaps = source(case)
    along = "xyz".index(case["along"])
    others = [i for i in range(3) if i != along]
    coords = [np.array(snaps[0][a]) for a in AX]
    fn = src.plot_1d_slice if case["src"] == "solver" else lambda *a, **k: plot_1d_slice(src, *a, **k)
    fig, ax = plt.subplots()
    try:
        for (t, it), (a, ia), (b, ib) in itertools.product(times(snaps), requests(coords[others[0]]), requests(coords[others[1]])):
            kw = {AX[others[0]]: a, AX[others[1]]: b, "t": t}
            if case["mode"]:
                kw.update(trouble_mode=case["mode"], tol=case["tol"])
            for line in list(ax.lines):
                line.remove()
            fn(ax, param=case["param"], **kw)
            ctx.step()
            ctx.require(len(ax.lines) == 1, "one line is drawn")
            x, y = ax.lines[0].get_data()
            idx = [slice(None)] * 3
            idx[others[0]], idx[others[1]] = ia, ib
            full = shown(snaps[it], case["param"], case["mode"], case["tol"], raw=False)
            ctx.close(np.asarray(x), coords[along], 1e-13, f"abscissae for {kw}", scale=3)
            ctx.close(np.asarray(y), full[tuple(idx)], 1e-12, f"{case['param']} along {case['along']} for {kw}", scale=max(1e-6, np.max(np.abs(full))))
            ctx.state(repr(case), it, ia, ib)
    finally:
        plt.close(fig)
    if case["mode"]:
        ctx.outcome(f"trouble {case['mode']} {case['tol']}: {int(sum(shown(q, 'trouble', case['mode'], case['tol'], raw=False).sum() for q in snaps))} cells")
    else:
        ctx.outcome("lines")


def two_d(case, ctx):
    src, snaps = source(case)
    across = "xyz".index(case["across"])
    hor, ver = [i for i in range(3) if i != across]
    coords = [np.array(snaps[0][a]) for a in AX]
    fn = src.plot_2d_slice if case["src"] == "solver" else lambda *a, **k: plot_2d_slice(src, *a, **k)
    style, ov = case["style"], case["overlay"]
    reqs = list(itertools.product(times(snaps), requests(coords[across])))
    if style in ("contour", "levels"):
        reqs = reqs[:: 3 if style == "contour" else 5]
    lev = list(np.linspace(0.6, 1.9, 5))
    for (t, it), (a, ia) in reqs:
        kw = {AX[across]: a, "t": t}
        if ov is not None:
            kw.update(overlay_trouble=ov, tol=case["tol"])
        if style == "contour":
            kw.update(contour=True, levels=4)
        elif style == "levels":
            kw.update(contour=True, levels=lev)
        elif style == "log":
            kw.update(log=True)
        elif style == "log limits":
            kw.update(log=True, log_vmin=0.7, log_vmax=1.8)
        fig, ax = plt.subplots()
        try:
            idx = [slice(None)] * 3
            idx[across] = ia
            full = shown(snaps[it], case["param"])
            want = full[tuple(idx)]  # (hor, ver)
            what = f"{case['param']} across {case['across']} for {kw}"
            got = fn(ax, param=case["param"], **kw)
            ctx.step()
            if style in ("contour", "levels"):
                fig2, ax2 = plt.subplots()
                ref = ax2.contour(coords[hor], coords[ver], want.T, levels=lev if style == "levels" else np.linspace(want.min(), want.max(), 4))
                ctx.close(got.levels, ref.levels, 1e-12, f"{what}: levels")
                inner = slice(1, -1) if style == "contour" else slice(None)  # the extreme levels touch single points
                for A, B in zip(got.allsegs[inner], ref.allsegs[inner]):
                    # the same curves; their points may be listed in another order or direction
                    pa = np.concatenate(A) if len(A) else np.zeros((0, 2))
                    pb = np.concatenate(B) if len(B) else np.zeros((0, 2))
                    ctx.require((len(pa) > 0) == (len(pb) > 0), f"{what}: contour lines")
                    if len(pa):
                        da = np.abs(pa[:, None] - pb[None]).max(axis=2)
                        ctx.require(da.min(axis=0).max() < 1e-7 and da.min(axis=1).max() < 1e-7, f"{what}: contour lines")
                plt.close(fig2)
            else:
                ctx.require(len(ax.images) == 1, "one image is drawn")
                im = ax.images[0]
                arr = im.get_array()
                shownarr = np.ma.filled(np.ma.masked_invalid(arr.astype(float)), np.nan)
                # undo the drawing convention: columns run along the horizontal axis, rows downwards unless the origin is below
                grid = shownarr if im.origin == "lower" else shownarr[::-1]
                grid = grid.T
                ref = want.astype(float)
                if ov:
                    mode = "all" if ov is True else ov
                    bad = shown(snaps[it], "trouble", mode, case["tol"], raw=False)[tuple(idx)] > 0
                    ref = np.where(bad, np.nan, ref)
                ctx.require(grid.shape == ref.shape, f"{what}: image of shape {grid.shape}")
                ctx.require(np.array_equal(np.isnan(grid), np.isnan(ref)), lambda: f"{what}: trouble overlay in other cells")
                ctx.close(np.nan_to_num(grid), np.nan_to_num(ref), 1e-12, what, scale=max(1e-6, np.max(np.abs(full))))
                ext = im.get_extent()
                for e, c, k in ((ext[0], coords[hor], 0), (ext[1], coords[hor], -1), (ext[2], coords[ver], 0), (ext[3], coords[ver], -1)):
                    h = c[1] - c[0]
                    ctx.require(abs(e - c[k]) <= 0.51 * h, f"{what}: extent {ext}")
                ctx.require(isinstance(im.norm, LogNorm) == style.startswith("log"), f"{what}: colour scale")
                if style == "log limits":
                    ctx.require(np.isclose(im.norm.vmin, 0.7) and np.isclose(im.norm.vmax, 1.8), f"{what}: colour limits")
            ctx.state(repr(case), it, ia)
        finally:
            plt.close(fig)
    ctx.outcome(style if not ov else f"overlay {ov}")


def radial(case, ctx):
    src, snaps = source(case)
    coords = [np.array(snaps[0][a]) for a in AX]
    cells = list(itertools.product(*[range(len(c)) for c in coords]))
    bins = [np.array([0.0, 0.11, 0.4, 0.9, 1.7]), np.linspace(0.0, 3.0, 8), np.array([0.5, 0.77]), np.array([0.3, 5.0]), np.arange(0, 4), [0, 1, 3]]
    for (t, it), centre, radii in itertools.product(times(snaps), ((0.13, 0.21, 2.34), (0.5, -0.9, 2.02), (-1.03, 3.0, 0.07)), bins):
        got, rad = sample_circular_average(src, case["param"], t=t, center=centre, radii=radii)
        ctx.step()
        full = shown(snaps[it], case["param"])
        for k in range(len(radii) - 1):
            vals, rs = [], []
            for c in cells:
                r = math.sqrt(sum((coords[j][c[j]] - centre[j]) ** 2 for j in range(3)))
                if radii[k] < r <= radii[k + 1]:
                    vals.append(full[c])
                    rs.append(r)
            what = f"{case['param']} between {radii[k]} and {radii[k + 1]} of {centre} at {t}"
            if vals:
                ctx.close(got[k], np.mean(vals), 1e-11, what)
                ctx.close(rad[k], np.mean(rs), 1e-11, "mean radius: " + what)
                ctx.outcome("filled bins")
            else:
                ctx.require(np.isnan(got[k]) and np.isnan(rad[k]), what + ": value for an empty bin")
                ctx.outcome("empty bins")
        ctx.state(repr(case), it, centre, radii)


def fields(case, ctx):
    dims = case["dims"]
    n = shape_for(dims, 6 if len(dims) == 1 else [4, 5])
    s = solver(n, degrees_for(dims, 1), w=state("rough", n), dom=[(0, 1), (-1, 1), (2, 2.5)])
    s.run(T=0.05, downbeats=[0.02])
    fix = {a: float(s.snapshots[0][a][0]) for a in AX if a not in dims}
    for t, it in times(s.snapshots):
        fig, axs = s.plot_fields(t=t, **fix)
        ctx.step()
        try:
            snap = s.snapshots[it]
            idx = tuple(slice(None) if a in dims else 0 for a in AX)
            if len(dims) == 1:
                for ax, prm in zip(np.ravel(axs), ("rho", "P", "v" + dims)):
                    ctx.close(ax.lines[0].get_ydata(), shown(snap, prm)[idx], 1e-12, f"field {prm} at {t}")
            else:
                for ax, prm in zip(np.ravel(axs), ("rho", "P", "v", "vx", "vy", "vz")):
                    im = ax.images[0]
                    arr = np.asarray(im.get_array())
                    grid = (arr if im.origin == "lower" else arr[::-1]).T
                    ctx.close(grid, shown(snap, prm)[idx], 1e-12, f"field {prm} at {t}")
            ctx.state(repr(case), it)
        finally:
            plt.close(fig)
    ctx.outcome("fields")


def refuse(case, ctx):
    s = subject([4, 3, 2])
    fig, ax = plt.subplots()
    try:
        ctx.raises(lambda: s.plot_1d_slice(ax, param="rho", x=0.1, y=0.1, z=2.1), "1D slice at a point", exc=BaseException)
        ctx.raises(lambda: s.plot_2d_slice(ax, param="rho", x=0.1, y=0.1), "2D slice along a line", exc=BaseException)
        ctx.raises(lambda: s.plot_1d_slice(ax, param="nonsense", x=0.1, y=0.1), "unknown variable")
        ctx.raises(lambda: s.plot_2d_slice(ax, param="nonsense", x=0.1), "unknown variable")
        ctx.raises(lambda: s.plot_2d_slice(ax, param="rho", x=0.1, overlay_trouble="nonsense"), "unknown trouble mode")
        ctx.raises(lambda: plot_1d_slice(3, ax, param="rho", x=0.1, y=0.1), "neither solver nor list")
        ctx.state("refuse")
    finally:
        plt.close(fig)
