"""C17: trouble flags for every window of previous and candidate values, against an independent reference."""
from fvhoe.slope_limiting import detect_troubled_cells
from mc.fvlib import *

ID = "C17"
TECHNIQUE = "exhaustive enumeration of value windows, perturbation placements and detector settings on the real detector; oracle: independent reference criterion"
RULE = (
    "1D cases = direction x mode x range x tolerance x variable selection x physical bounds x smooth-extrema setting, on every 3-letter window of 7 candidate and 3 previous cells; "
    "2D/3D cases = every placement of a perturbation in the stencil of a cell on three base fields; solver cases = the flags recorded by a step against the reference applied to its candidate"
)
BOUNDS = dict(
    quick="59049 windows x 5 variables x 864 settings in 1D; 2D 49x2 placements x 4 letters x 5 variables x 3 bases x 144 settings; 3D 343 placements; 7 direction sets x degrees 0-3 x 14 limiter settings through the solver, and 8 more settings x 4 boundary kinds x degrees 1-5 with and without scalars",
    thorough="1D 1728 settings, 3D all settings",
)
ASSUMPTIONS = ["letters and tolerances are dyadic, so that comparisons are exact"]
VARS = ["rho", "vx", "vy", "vz", "P"]
PADS = {
    "none": None,
    "default": {"rho": (0.0, np.inf), "P": (0.0, np.inf)},
    "one": {"vx": (-0.5, 0.75)},
    "many": {"rho": (0.25, 1.0), "vz": (-np.inf, 0.5), "P": (-0.25, np.inf), "vy": (-0.5, 0.5)},
}
NV = {"all": None, "rho": ("rho",), "P,vx": ("P", "vx"), "v": ("vx", "vy", "vz")}
NV_ALL = dict(NV, five=("P", "vz", "vy", "vx", "rho"), four=("vy", "P", "rho", "vz"), two=("vz", "rho"))
LET = np.array([0.0, 0.5, -0.75])


def settings(th):
    out = []
    for mode, rng, eps, nv, pad, sed in itertools.product(("global", "local"), ("relative", "absolute"), (0.0, 1 / 64, 0.5), NV, PADS, (None, 1e-10, 0.125)):
        if not th and (sed == 0.125) and eps == 0.5:
            continue
        out.append(dict(mode=mode, rng=rng, eps=eps, nv=nv, pad=pad, sed=sed))
    return out


def cases(tier):
    th = tier == "thorough"
    out = []
    S = settings(th)
    for j, s in enumerate(S):
        for i, a in enumerate(AX):
            if th or i == j % 3 or (s["nv"] == "all" and s["pad"] in ("none", "many")):
                out.append(dict(k="1d", dims=a, s=s))
    for a, mode, rng, nv, sed in itertools.product(AX, ("global", "local"), ("relative", "absolute"), ("five", "four", "two"), (None, 1e-10)):
        out.append(dict(k="1d", dims=a, s=dict(mode=mode, rng=rng, eps=1 / 64, nv=nv, pad="none", sed=sed)))
    for a, mode, rng, sed, e in itertools.product(AX, ("global", "local"), ("relative", "absolute"), (None, 1e-10), (-40, -26, 26)):
        out.append(dict(k="1d", dims=a, s=dict(mode=mode, rng=rng, eps=1 / 64, nv="all", pad="none", sed=sed), exp=e))
    for a, mode, rng, sed, e in itertools.product(AX, ("global", "local"), ("relative", "absolute"), (None, 1e-10), ((1.0, -1), (4.0, -2), (2.0, -3))):
        out.append(dict(k="1d", dims=a, s=dict(mode=mode, rng=rng, eps=e[0], nv="all", pad="none", sed=sed), prev=e[1]))
    for a, j, sign in itertools.product(AX, range(7), (-1, 1)):
        out.append(dict(k="1d", dims=a, s=dict(mode="local", rng="relative", eps=0.0, nv="all", pad="none", sed=1e-10), exp=22, nudge=[j, sign]))
    for a in AX:
        out.append(dict(k="ratio", dims=a))
    for dims in DIMSETS:
        out.append(dict(k="pad", dims=dims))
    for j, s in enumerate(S):
        for i, d in enumerate(("xy", "xz", "yz")):
            if th or i == j % 3:
                out.append(dict(k="2d", dims=d, s=s))
    for j, s in enumerate(S):
        if th or (s["pad"] in ("none", "many") and s["nv"] in ("all", "P,vx") and s["eps"] != 0.5):
            out.append(dict(k="3d", dims="xyz", s=s, half=j % 2, th=th))
    lims = [l for l in LIM if l not in ("off",) and "pattern" not in l and "forced" not in l]
    for lim, dims, p, kind in itertools.product(lims, DIMSETS, (0, 1, 2, 3), ("rough", "mild", "blow")):
        if "convex" in lim and len(dims) == 3:
            continue
        out.append(dict(k="solver", lim=lim, dims=dims, p=p, kind=kind))
    # other boundaries, scalars, further options
    j = 0
    for opt, dims, bc in itertools.product(MORE, DIMSETS, ("periodic", "free", "reflective", "mixed")):
        for p, kind in itertools.product((1, 2, 3, 4, 5) if len(dims) == 1 or th else (1, 2, 3), ("rough", "mild", "blow", "smooth")):
            j += 1
            if len(dims) == 3 and (p > 2 or (j % 3 and not th)):
                continue
            if opt == "tolerance 0" and (bc not in ("periodic", "reflective") or kind == "smooth"):
                continue  # rounding decides whether a flat stretch is flat
            out.append(dict(k="solver", opt=opt, dims=dims, p=p, kind=kind, bc=bc, npass=(0, 2)[j % 2]))
    return out


MORE = {
    "defaults": {},
    "range of vx": dict(PAD={"vx": (-0.2, 0.3)}),
    "no range": dict(PAD={}, NAD=1e-3),
    "range of P and vy": dict(PAD={"P": (0.9, np.inf), "vy": (-np.inf, 0.25)}, NAD=0.5, SED=False),
    "tolerance 0": dict(SED_tolerance=0.0, NAD=1e-4),
    "tolerance 1e-2": dict(SED_tolerance=1e-2, NAD=1e-4, NAD_mode="local"),
    "velocities": dict(NAD_vars=("vz", "vx", "vy"), NAD=1e-3, NAD_mode="local"),
    "absolute": dict(NAD_range="absolute", NAD=1e-3, SED=False, convex=True),
}
SIDES = {"periodic": ("periodic", "periodic"), "free": ("free", "free"), "reflective": ("reflective", "reflective"), "mixed": ("free", "reflective")}


def averages(u, p, dims, sides):
    """primitive averages of the cells and three ghost cells a side"""
    from fvhoe.fv import interpolate_cell_centers, interpolate_fv_averages

    for ax, (a, q) in enumerate(zip(AX, p)):
        if a not in dims:
            continue
        r = 3 + 2 * (-(-q // 2))
        parts = []
        for side, t in enumerate(sides):
            pw = [(0, 0)] * 4
            pw[1 + ax] = (r, 0) if side == 0 else (0, r)
            g = np.pad(u, pw, mode={"periodic": "wrap", "free": "edge", "reflective": "symmetric"}[t])
            g = np.moveaxis(g, 1 + ax, 0)
            g = (g[:r] if side == 0 else g[-r:]).copy()
            if t == "reflective":
                g[:, 1 + ax] *= -1
            parts.append(np.moveaxis(g, 0, 1 + ax))
        u = np.concatenate([parts[0], u, parts[1]], axis=1 + ax)
    return interpolate_fv_averages(prims(interpolate_cell_centers(u, p=p)), p=p)


# ---------------------------------------------------------------- reference
def shift(a, ax, k, width=3):
    """interior of a (width cut on the active axis ax), shifted by k"""
    n = a.shape[ax]
    return np.take(a, range(width + k, n - width + k), axis=ax)


def interior(a, axes, width=3):
    for ax in axes:
        a = np.take(a, range(width, a.shape[ax] - width), axis=ax)
    return a


def smooth_1d(u, ax, eps):
    """True where cell and both neighbours show a smooth extremum or monotone smooth profile along ax"""

    def ok(k):
        """criterion at the cell k away"""
        s = lambda j: shift(u, ax, k + j)
        dm, d0, dp = (s(0) - s(-2)) / 2, (s(1) - s(-1)) / 2, (s(2) - s(0)) / 2
        dv = (dp - dm) / 4
        flat = np.abs(dv) <= eps
        good = np.where(dv > 0, np.minimum(d0 - dm, dp - d0), np.minimum(dm - d0, d0 - dp)) >= np.abs(dv)
        return flat | good

    return ok(-1) & ok(0) & ok(1)


def reference(u, cand, dims, s, pad, nv):
    axes = [1 + AX.index(d) for d in dims]
    c = interior(cand, axes)
    M, m = None, None
    for off in itertools.product((-1, 0, 1), repeat=len(axes)):
        v = u
        for ax, k in zip(axes, off):
            v = shift(v, ax, k)
        M = v if M is None else np.maximum(M, v)
        m = v if m is None else np.minimum(m, v)
    gM = np.max(u, axis=(1, 2, 3), keepdims=True)
    gm = np.min(u, axis=(1, 2, 3), keepdims=True)
    e = s["eps"]
    if s["rng"] == "relative":
        r = gM - gm if s["mode"] == "global" else M - m
        lo, hi = m - e * r, M + e * r
    else:
        lo, hi = ((1 - e) * gm, (1 + e) * gM) if s["mode"] == "global" else ((1 - e) * m, (1 + e) * M)
    out = (c < lo) | (c > hi)
    if s["sed"] is not None:
        sm = np.ones_like(out)
        for ax in axes:
            v = interior(cand, [a for a in axes if a != ax])
            sm = sm & smooth_1d(v, ax, s["sed"])
        out = out & ~sm
    if nv is not None:
        out = np.array([out[i] & (VARS[i] in nv) for i in range(5)])
    nad = np.any(out, axis=0)
    worst = np.zeros(nad.shape)
    for name, (a, b) in (pad or {}).items():
        q = c[VARS.index(name)]
        worst = np.maximum(worst, np.maximum(a - q, q - b))
    return nad, worst


def compare(ctx, u, cand, dims, s, what):
    pad, nv = PADS[s["pad"]], NV_ALL[s["nv"]]
    u0, c0 = u.copy(), cand.copy()
    tr, nm, pm = detect_troubled_cells(
        u=u, u_candidate=cand, dims=dims, NAD_eps=s["eps"], mode=s["mode"], range_type=s["rng"], NAD_vars=nv, PAD_bounds=pad,
        SED=s["sed"] is not None, **({"SED_eps": s["sed"]} if s["sed"] is not None else {}),
    )
    ctx.step()
    ctx.require(np.array_equal(u, u0) and np.array_equal(cand, c0), "the input was modified")
    nad, worst = reference(u, cand, dims, s, pad, nv)
    match(ctx, tr, nm, pm, nad, worst, what)
    ctx.outcome("flagged", int(np.sum(nad | (worst > 0))))
    ctx.outcome("clean", int(np.sum(~(nad | (worst > 0)))))
    return nad | (worst > 0)


def match(ctx, tr, nm, pm, nad, worst, what):
    want = nad | (worst > 0)
    tr, nm, pm = (np.asarray(a, dtype=float).reshape(want.shape) for a in (tr, nm, pm))
    for got, ref, name in ((tr > 0, want, "flag"), (nm > 0, nad, "numerical magnitude"), (pm > 0, worst > 0, "physical magnitude")):
        ctx.checks += ref.size
        if not np.array_equal(got, ref):
            j = tuple(int(k) for k in np.argwhere(got != ref)[0])
            ctx.require(False, f"{what}: {name} at {j} is {bool(got[j])}, expected {bool(ref[j])} (numerical {bool(nad[j])}, physical {float(worst[j])!r})")
    ctx.require(np.all((tr == 0) | (tr == 1)), f"{what}: flags other than 0 and 1")
    ctx.close(pm, worst, 1e-12, f"{what}: physical magnitude")
    ctx.require(np.all(nm >= 0), f"{what}: negative magnitude")


def ratio(case, ctx):
    """windows whose slope changes stand in a ratio just above or just below three, where the smoothness criterion turns"""
    dims, ws = case["dims"], []
    for e in itertools.product((1, 2, 3), repeat=4):
        u = [0, 0, 0]
        for x in e:  # u[j+1] - u[j] - u[j-1] + u[j-2] is twice the change of slope
            u.append(2**23 * x + u[-1] + u[-2] - u[-3])
        for j, n, sign in itertools.product(range(7), (-1, 1), (-1, 1)):
            w = np.array(u, dtype=float)
            w[j] += n
            d = (w[2:] - w[:-2]) / 2
            c = np.diff(d)
            if any(c[i] == 3 * c[i + 1] or c[i + 1] == 3 * c[i] for i in range(3)):
                continue
            ws.append(sign * w)
    cw = np.array(ws).T
    cand, prev = np.zeros((5,) + cw.shape), np.zeros((5,) + cw.shape)
    for v in range(5):
        cand[v] = np.roll(cw, 40 * v, axis=1)
        prev[v] = cand[v, 3] - (1, -2, 3, -1, 1)[v]
    ax = AX.index(dims)
    arrange = lambda a: np.ascontiguousarray({0: a[:, :, :, None], 1: a[:, None, :, :], 2: np.moveaxis(a, 1, 2)[:, :, None, :]}[ax])
    for nv in ("all", "rho", "P,vx"):
        for eps in (0.0, 1 / 64):
            s = dict(mode="local", rng="relative", eps=eps, nv=nv, pad="none", sed=1e-10)
            f = compare(ctx, arrange(prev), arrange(cand), dims, s, f"slope changes along {dims}, {s}")
            ctx.state(repr(s), dims, f)
    ctx.outcome("windows", cw.shape[1])


_W = {}


def windows():
    if not _W:
        N = 3**10
        k = np.arange(N)
        dig = np.array([(k // 3**j) % 3 for j in range(10)])
        _W["cand"], _W["prev"] = LET[dig[:7]], LET[dig[7:]]
    return _W["cand"], _W["prev"]


def run(case, ctx):
    if case["k"] == "solver":
        return through_solver(case, ctx)
    if case["k"] == "pad":
        return bounds(case, ctx)
    if case["k"] == "ratio":
        return ratio(case, ctx)
    s, dims = case["s"], case["dims"]
    if case["k"] == "1d":
        cw, pw = windows()
        N = cw.shape[1]
        cand, prev = np.zeros((5, 7, N)), np.zeros((5, 7, N))
        for v in range(5):
            r = (v * 4801) % N
            cand[v] = np.roll(cw, r, axis=1) * (1.0, 1.0, 2.0, -1.0, 0.5)[v]
            prev[v, 2:5] = np.roll(pw, r, axis=1) * (1.0, 1.0, 2.0, -1.0, 0.5)[v]
        cand, prev = cand * 2.0 ** case.get("exp", 0), prev * 2.0 ** (case.get("exp", 0) + case.get("prev", 0))
        if "nudge" in case:  # one part in four million
            cand[:, case["nudge"][0]] += case["nudge"][1]
        ax = AX.index(dims)
        shp = {0: (5, 7, N, 1), 1: (5, 1, 7, N), 2: (5, N, 1, 7)}[ax]
        arrange = lambda a: np.ascontiguousarray({0: a[:, :, :, None], 1: a[:, None, :, :], 2: np.moveaxis(a, 1, 2)[:, :, None, :]}[ax])
        f = compare(ctx, arrange(prev), arrange(cand), dims, s, f"windows along {dims}")
        ctx.state(repr(s), dims, f)
        ctx.outcome("windows", N)
    elif case["k"] == "2d":
        a1, a2 = (1 + AX.index(d) for d in dims)
        a3 = ({1, 2, 3} - {a1, a2}).pop()
        for b in range(3):
            jobs = [(None, 0, 0, 0.0)] + [(q, which, v, x) for q in np.ndindex(7, 7) for which in (0, 1) for v in range(5) for x in (0.25, -0.25, 1.0, -2.0)]
            base = field2(b)
            prev = np.repeat(base[..., None], len(jobs), axis=3)
            cand = prev.copy()
            for j, (q, which, v, x) in enumerate(jobs):
                if q is not None:
                    (prev if which else cand)[(v,) + q + (j,)] += x
            arr = lambda a: np.ascontiguousarray(np.moveaxis(a, (1, 2, 3), (a1, a2, a3)))
            f = compare(ctx, arr(prev), arr(cand), dims, s, f"placements in {dims}, base {b}")
            ctx.state(repr(s), dims, b, f)
            ctx.outcome("placements", len(jobs))
    else:
        for b in range(3):
            base = field3(b)
            for q in np.ndindex(7, 7, 7):
                dist = sum(abs(k - 3) for k in q)
                if not case["th"] and dist > 3 and sum(q) % 4 != 2 * case["half"]:
                    continue
                for which, v, x in ((0, (sum(q) + b) % 5, 1.0), (1, (sum(q) + 2) % 5, -2.0), (0, (sum(q) + 3) % 5, -0.25)):
                    prev, cand = base.copy(), base.copy()
                    (prev if which else cand)[(v,) + q] += x
                    compare(ctx, prev, cand, "xyz", s, f"placement {q} of {x} in {'previous' if which else 'candidate'} {VARS[v]}, base {b}")
            ctx.state(repr(s), b)


def bounds(case, ctx):
    """every variable at, just inside and just outside each kind of bound"""
    dims = case["dims"]
    tiny = [5e-324, 1e-300, 1e-17, 1e-9]
    for v in range(5):
        for lo, hi in ((0.0, np.inf), (-np.inf, 0.0), (0.75, np.inf), (-np.inf, -3.0), (-0.5, 0.25), (0.0, 0.0), (-np.inf, np.inf)):
            vals = [0.0, -0.0, 1.0, -1.0, *tiny, *[-t for t in tiny]]
            for b in (lo, hi):
                if np.isfinite(b):
                    vals += [b, np.nextafter(b, np.inf), np.nextafter(b, -np.inf), b + 1e-6, b - 1e-6]
            vals = np.array(vals)
            N = len(vals)
            shp = [5, 1, 1, 1]
            for d in dims:
                shp[1 + AX.index(d)] = 7
            line = [a for a in AX if a not in dims]
            if line:
                shp[1 + AX.index(line[0])] = N
                blocks = [vals]
            else:
                blocks = [vals[j:j + 1] for j in range(N)]
            for blk in blocks:
                cand = np.zeros(shp)
                sel = [slice(None)] * 3
                view = cand[v] if not line else np.moveaxis(cand[v], AX.index(line[0]), -1)
                view[...] = blk if line else blk[0]
                tr, nm, pm = detect_troubled_cells(
                    u=cand.copy(), u_candidate=cand, dims=dims, NAD_eps=1e-2, mode="global", range_type="relative", PAD_bounds={VARS[v]: (lo, hi)}, SED=False,
                )
                ctx.step()
                want = (blk < lo) | (blk > hi)
                got = (np.asarray(tr).ravel() > 0, np.asarray(pm).ravel() > 0)
                for g, name in zip(got, ("flag", "physical magnitude")):
                    ctx.checks += g.size
                    if not np.array_equal(g, want if line else want[:1]):
                        j = int(np.argmax(g != want))
                        ctx.require(False, f"{VARS[v]} = {float(blk[j])!r} with bounds {lo!r}, {hi!r}: {name} is {bool(g[j])}")
                ctx.state(VARS[v], lo, hi, blk)
    ctx.outcome("bounds")


def field2(b):
    i, j = np.meshgrid(np.arange(7) - 3, np.arange(7) - 3, indexing="ij")
    f = [np.zeros((7, 7)), 1.0 - (i * i + j * j) / 16.0, np.round(noise((7, 7), 2) * 8) / 8][b]
    return np.array([f, -f, f + 0.25 * i, 0.5 * f, f - 0.125 * j])


def field3(b):
    i, j, k = np.meshgrid(*[np.arange(7) - 3] * 3, indexing="ij")
    f = [np.zeros((7, 7, 7)), 1.0 - (i * i + j * j + k * k) / 16.0, np.round(noise((7, 7, 7), 2) * 8) / 8][b]
    return np.array([f, -f, f + 0.25 * i, 0.5 * f + 0.125 * k, f - 0.125 * j])


def through_solver(case, ctx):
    """one forward step: recorded flags against the reference on the unlimited candidate"""
    if "opt" in case:
        return bounded(case, ctx)
    dims, lim = case["dims"], LIM[case["lim"]]
    p = degrees_for(dims, case["p"])
    n = shape_for(dims, {1: 9, 2: 7, 3: 4}[len(dims)])
    w = state("rough" if case["kind"] == "blow" else case["kind"], n)
    kw = dict(fixed_dt=0.2) if case["kind"] == "blow" else {}
    off = solver(n, p, w=w, **kw)
    dt, d = rhs(off)
    off.snapshot()
    cand = U(off) + dt * d
    star = solver(n, p, u=cand, **kw)
    star.snapshot()
    wp, ws = np.array(off.snapshots[-1]["w"]), np.array(star.snapshots[-1]["w"])
    if not (np.all(np.isfinite(ws)) and np.all(np.isfinite(wp))):
        ctx.outcome("candidate not finite")
        return
    g = [3 if a in dims else 0 for a in AX]
    pad3 = [(0, 0)] + [(k, k) for k in g]
    wrap = lambda a: np.pad(a, pad3, mode="wrap")
    s = dict(mode=lim.get("NAD_mode", "global"), rng=lim.get("NAD_range", "relative"), eps=lim.get("NAD", 1e-2), sed=1e-10 if lim.get("SED", True) else None)
    pad = lim.get("PAD", PADS["default"])
    nad, worst = reference(wrap(wp), wrap(ws), dims, s, pad, lim.get("NAD_vars"))
    on = solver(n, p, w=w, **lim, **kw)
    on.euler(n=1)
    ctx.step(2)
    sh = on.snapshots[-1]
    match(ctx, sh["trouble"], sh["NAD violation magnitude"], sh["PAD violation magnitude"], nad, worst, "recorded by the solver")
    if lim.get("PAD") is None:
        bad = (ws[0] < 0) | (ws[4] < 0)
        ctx.require(np.all(np.asarray(sh["trouble"]).reshape(bad.shape)[bad] > 0), "negative density or pressure not flagged")
        ctx.outcome("negative cells", int(np.sum(bad)))
    ctx.state(repr(case), nad)
    ctx.outcome("flagged by the solver", int(np.sum(nad | (worst > 0))))


def bounded(case, ctx):
    """the same with every kind of boundary: ghost cells of the candidate are those of the candidate"""
    dims, lim, sides = case["dims"], dict(MORE[case["opt"]]), SIDES[case["bc"]]
    if len(dims) == 3:
        lim.pop("convex", None)
    p = degrees_for(dims, case["p"])
    n = shape_for(dims, {1: 12, 2: [9, 10], 3: [7, 8, 9]}[len(dims)])
    w = state("rough" if case["kind"] == "blow" else case["kind"], n, npass=case["npass"])
    kw = dict(bc={a: list(sides) for a in dims}, **(dict(fixed_dt=0.2) if case["kind"] == "blow" else {}))
    off = solver(n, p, w=w, **kw)
    dt, d = rhs(off)
    wp, ws = averages(U(off), p, dims, sides)[:5], averages(U(off) + dt * d, p, dims, sides)[:5]
    if not (np.all(np.isfinite(ws)) and np.all(np.isfinite(wp))):
        ctx.outcome("candidate not finite")
        return
    s = dict(mode=lim.get("NAD_mode", "global"), rng=lim.get("NAD_range", "relative"), eps=lim.get("NAD", 1e-2), sed=lim.get("SED_tolerance", 1e-10) if lim.get("SED", True) else None)
    nad, worst = reference(wp, ws, dims, s, lim.get("PAD", PADS["default"]), lim.get("NAD_vars"))
    on = solver(n, p, w=w, a_posteriori_slope_limiting=True, **lim, **kw)
    on.euler(n=1)
    ctx.step(2)
    sh = on.snapshots[-1]
    match(ctx, sh["trouble"], sh["NAD violation magnitude"], sh["PAD violation magnitude"], nad, worst, f"recorded by the solver, {case['opt']}, {case['bc']} boundaries")
    ctx.state(repr(case), nad)
    ctx.outcome("flagged by the solver", int(np.sum(nad | (worst > 0))))
