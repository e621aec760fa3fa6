"""C20: passive scalars neither touch the flow nor each other."""
from mc.fvlib import *

ID = "C20"
TECHNIQUE = "exhaustive enumeration of configurations x sets and orders of scalars; relational comparison of real runs"
RULE = (
    "Riemann solver x direction set x degree x boundary x limiter, inside each: runs with no, one, two and three scalars in all orders, "
    "renamed, scaled by positive and negative factors, uniform, and (unlimited) summed; pointwise cases repeat this with profile functions and initial-state boundaries"
)
BOUNDS = dict(
    quick="degrees 0-3 (0-2 in 3D), 3 Riemann solvers, 4 boundary kinds, 5 limiter settings, 3 steps; plus a table of 34 regimes (faint, supersonic, blast, long, stretched, ... : fvlib.REGIMES); plus 274 combined settings covering every triple of option values that can be combined (mc/combos.py)",
    thorough="degrees 0-5 (0-3 in 3D), all limiter settings, 6 steps, all integrators; regimes with more axis sets and degrees",
)
ASSUMPTIONS = ["comparisons up to rounding (1e-10 relative)"]

BCS = ["periodic", "free", "reflective", "mixed"]
LIMQ = ["off", "minmod", "convex", "moncen", "tight no SED"]


def cases(tier):
    th = tier == "thorough"
    out = []
    lims = [k for k in LIM if "pattern" not in k] if th else LIMQ
    for dims, p, rs, bc, lim in itertools.product(DIMSETS, range(6 if th else 4), ("hllc", "llf", "advection_upwind"), BCS, lims):
        if len(dims) == 3 and (p > (3 if th else 2) or "convex" in lim or (not th and (bc == "mixed" or lim in ("moncen",)))):
            continue
        if p == 0 and lim == "convex":
            continue
        out.append(dict(k="runs", dims=dims, p=p, rs=rs, bc=bc, lim=lim, steps=6 if th else 3, integ=INTEGRATORS if th and len(dims) == 1 else ["auto"]))
    for dims, p, rs, bc in itertools.product(DIMSETS, (0, 1, 2, 3), ("hllc", "llf"), ("ic", "free", "periodic")):
        if len(dims) == 3 and p > 1:
            continue
        out.append(dict(k="profiles", dims=dims, p=p, rs=rs, bc=bc))
    return out + regime_cases(["x", "yz", "xyz"] if not th else None) + combo_cases(bounded=True)


def run(case, ctx):
    {"runs": runs, "profiles": profiles, "regime": regime}[case["k"]](case, ctx)


def regime(case, ctx):
    """flow untouched by scalars of any size, scalars independent, a uniform one stays uniform, in every flow regime"""
    dims, p = case["dims"], degrees_for(case["dims"], case["p"])
    r = Regime(case["reg"], dims, npass=0)
    w, n = r.w[:5], r.n
    lim = case["lim"] != "off"
    A, B = 0.2 + noise(n, 101), noise(n, 202) - 0.5

    def go(*fields):
        s = r.solver(p, case["lim"], case["rs"], w=np.concatenate([w, *[f[None] for f in fields]]))
        r.go(s, r.steps)
        ctx.step(r.steps)
        rec = [np.array(s.snapshots[-1][k]) for k in ("trouble", "NAD violation magnitude", "PAD violation magnitude")] if lim else []
        return U(s), np.array(s.timestamps), rec

    base = go()
    ctx.state(base[0])
    ctx.require(np.all(np.isfinite(base[0])), "non-finite state")
    sz = np.max(magnitudes(base[0]), axis=(1, 2, 3)).reshape(-1, 1, 1, 1) + 1e-300
    rho = base[0][0]
    one = go(A)
    many = go(B, 1e6 * A, np.full(n, 0.7), np.zeros(n), A, -1e-5 * B, A)
    for what, q in (("one scalar", one), ("seven scalars", many)):
        ctx.close(q[0][:5] / sz, base[0] / sz, 1e-11, f"flow with {what}")
        ctx.close(q[1], base[1], 1e-11, f"times with {what}", scale=base[1][-1])
        for a, b in zip(q[2], base[2]):
            ctx.close(a, b, 1e-11, f"trouble record with {what}", scale=max(np.max(np.abs(b)), 1e-300))
    a = one[0][5] / rho
    m = many[0][5:] / rho
    for what, got, want, size in (
        ("repeated", m[4], a, 1), ("repeated last", m[6], a, 1), ("enlarged", m[1], 1e6 * a, 1e6), ("uniform", m[2], np.full(n, 0.7), 1), ("zero", m[3], np.zeros(n), 1e-30),
        ("shrunk", m[5], -1e-5 * m[0], 1e-5),
    ):
        ctx.close(got / size, want / size, 1e-9, f"{what} scalar")
    if not lim and max(p) == 0 and case["reg"] != "unstable step":
        lo, hi = A.min(), A.max()
        ctx.require(np.all(a >= lo - 1e-9) and np.all(a <= hi + 1e-9), "first-order scalar left its initial range")
    ctx.outcome("regime")


def bcspec(kind, dims):
    if kind == "mixed":
        return {a: (["free", "reflective"], ["periodic", "periodic"], ["reflective", "free"])["xyz".index(a)] for a in dims}
    return {a: [kind, kind] for a in dims}


def compare(case, ctx, go, limited):
    """go(dict name -> scalar field index or modified) -> (u, times, trouble)"""
    base = go([], None)
    nflow = base[0][:5]
    sc = max(1.0, np.max(np.abs(nflow)))
    ref = {}
    for names in (["A"], ["B"], ["A", "B"], ["B", "A"], ["A", "B", "C"], ["C", "A", "B"], ["B", "C", "A"]):
        r = go(names, None)
        what = f"with scalars {names}"
        ctx.close(r[0][:5], nflow, 1e-10, f"flow {what}", scale=sc)
        ctx.close(r[1], base[1], 1e-11, f"times {what}")
        if limited:
            for a, b in zip(r[2], base[2]):
                ctx.require(np.array_equal(a, b), lambda: f"trouble record {what} differs from the run without scalars")
        ctx.require(r[0].shape[0] == 5 + len(names), "number of variables")
        for j, nm in enumerate(names):
            if nm not in ref:
                ref[nm] = r[0][5 + j]
                ctx.state(repr(case), r[0][5 + j])
            ctx.close(r[0][5 + j], ref[nm], 1e-10, f"scalar {nm} {what}", scale=max(1.0, np.max(np.abs(ref[nm]))))
    # renaming
    r = go(["A", "B"], None, names=["zeta", "alpha"])
    for j, nm in enumerate("AB"):
        ctx.close(r[0][5 + j], ref[nm], 1e-10, f"renamed scalar {nm}", scale=max(1.0, np.max(np.abs(ref[nm]))))
    # scaling
    r = go(["A", "B", "A"], [3.0, -0.5, -2.0], names=["p", "q", "r"])
    ctx.close(r[0][:5], nflow, 1e-10, "flow with scaled scalars", scale=sc)
    for j, (nm, f) in enumerate(zip("ABA", (3.0, -0.5, -2.0))):
        ctx.close(r[0][5 + j], f * ref[nm], 1e-10, f"scalar {nm} times {f}", scale=max(1.0, 3 * np.max(np.abs(ref[nm]))))
    # uniform
    r = go(["one", "B"], [0.7, 1.0], names=["p", "q"])
    ctx.close(r[0][5] / r[0][0], np.full(r[0][0].shape, 0.7), 1e-10, "uniform scalar")
    ctx.close(r[0][6], ref["B"], 1e-10, "scalar next to a uniform one", scale=max(1.0, np.max(np.abs(ref["B"]))))
    if not limited:
        r = go(["sum"], None, names=["p"])
        want = 2 * ref["A"] - 0.5 * ref["B"]
        ctx.close(r[0][5], want, 1e-10, "linear combination of scalars", scale=max(1.0, np.max(np.abs(want))))
    ctx.outcome("limited" if limited else "unlimited")


def field(nm, n):
    f = {"A": 0.2 + noise(n, 101), "B": noise(n, 202) - 0.5, "C": 5 * noise(n, 303), "one": np.ones(n)}
    return 2 * f["A"] - 0.5 * f["B"] if nm == "sum" else f[nm]


def runs(case, ctx):
    dims, p = case["dims"], degrees_for(case["dims"], case["p"])
    n = shape_for(dims, {1: 9, 2: [5, 4], 3: [3, 4, 2]}[len(dims)])
    kw = LIM[case["lim"]]
    walls = case["bc"] in ("reflective", "mixed")
    if walls:  # mirrored ghost zones must fit
        g = mirror_width(p, limited=bool(kw))
        n = tuple(max(k, g) if AX[i] in dims else 1 for i, k in enumerate(n))
        if len(dims) == 3 and g > 6:
            return
    w = state("rough" if bool(kw) or case["p"] < 2 else "mild", n)
    if case["rs"] == "advection_upwind":  # it assumes a continuous velocity
        w[1], w[2], w[3] = 0.4, -0.3, 0.2
    for integ in case["integ"]:

        def go(which, factors, names=None):
            names = list(names or which)
            f = factors or [1.0] * len(which)
            full = np.concatenate([w] + [(k * field(nm, n))[None] for nm, k in zip(which, f)])
            s = solver(n, p, w=full, rs=case["rs"], bc=bcspec(case["bc"], dims), names=names, **kw)
            advance(s, integ, case["steps"])
            ctx.step(case["steps"])
            rec = [np.array(s.snapshots[-1][k]) for k in ("trouble", "NAD violation magnitude", "PAD violation magnitude")] if kw else []
            return U(s), np.array(s.timestamps), rec

        compare(case, ctx, go, bool(kw))


def profiles(case, ctx):
    dims, p = case["dims"], degrees_for(case["dims"], case["p"])
    n = shape_for(dims, {1: 8, 2: [5, 4], 3: [3, 4, 2]}[len(dims)])
    ph = lambda x, y, z: 2 * np.pi * (x + 0.5 * y - 0.7 * z)

    def flow(x, y, z):
        q = ph(x, y, z)
        return np.array([1 + 0.2 * np.sin(q), 0.3 + 0.1 * np.cos(q), 0.2 * np.sin(q + 1), 0.1 + 0 * q, 1 + 0.1 * np.cos(q - 1)])

    fs = {"A": lambda x, y, z: 0.5 + 0.3 * np.sin(ph(x, y, z) + 2), "B": lambda x, y, z: x - y * z, "C": lambda x, y, z: np.where(x + y + z > 0.8, 3.0, -1.0), "one": lambda x, y, z: np.ones_like(x)}
    fs["sum"] = lambda x, y, z: 2 * fs["A"](x, y, z) - 0.5 * fs["B"](x, y, z)

    def go(which, factors, names=None):
        names = list(names or which)
        f = factors or [1.0] * len(which)
        ps = {nm: (lambda x, y, z, g=fs[wh], k=k: k * g(x, y, z)) for nm, wh, k in zip(names, which, f)}
        s = Quick(
            w0=FuncIC(lambda x, y, z: flow(x, y, z)), w0_passives=ps or None,
            nx=n[0], ny=n[1], nz=n[2], px=p[0], py=p[1], pz=p[2], gamma=GAMMA,
            riemann_solver=case["rs"], bc=bc_from({a: [case["bc"]] * 2 for a in dims}), slab_buffer_size=12, progress_bar=False,
        )
        s.run(n=3)
        ctx.step(3)
        return U(s), np.array(s.timestamps), []

    compare(case, ctx, go, False)
