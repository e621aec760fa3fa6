"""C06: problems constant along a direction behave as if it were inactive."""
from mc.fvlib import *

ID = "C06"
TECHNIQUE = "exhaustive enumeration of embeddings on solver runs; oracle: lower-dimensional run"
RULE = (
    "case = active axes of the small problem x axes added x degrees along both x cells along the added axes x boundary type of the "
    "added axes x Riemann solver x integrator x limiter; the embedded run is compared with the small one cell by cell after every step"
)
BOUNDS = dict(
    quick="1D in 2D and 3D, 2D in 3D; degrees 0-4 both ways (0-2 in 3D); 2 steps; plus a table of 34 regimes and problems posed by functions (boundary data, initial profiles, scalars) (faint, supersonic, blast, long, stretched, ... : fvlib.REGIMES); plus 274 combined settings covering every triple of option values that can be combined (mc/combos.py)",
    thorough="degrees 0-8 along the added axis, 0-3 in 3D; 3 steps; regimes with more axis sets and degrees",
)
ASSUMPTIONS = ["a fixed step size, as the automatic one depends on the dimension", "relative tolerance 1e-10"]
LIMS = ["off", "minmod", "moncen", "forced", "absolute", "no SED", "tight no SED", "rho only", "convex", "convex tight", "wide PAD", "unlimited fallback"]


def cases(tier):
    th = tier == "thorough"
    out = []
    for small, big in [(a, b) for a in "xyz" for b in ("xy", "xz", "yz") if a in b]:
        for p, q, m in itertools.product(range(5), range(9 if th else 5), (1, 3)):
            if (q, m) == (0, 1):
                continue
            for lim in ("off", "tight no SED"):
                out.append(dict(small=small, big=big, p=p, q=q, m=m, lim=lim, rs="hllc", b="periodic", ig="auto"))
        for lim, rs, p in itertools.product(LIMS, ("hllc", "llf"), (1, 2, 3)):
            out.append(dict(small=small, big=big, p=p, q=2, m=3, lim=lim, rs=rs, b="periodic", ig="auto"))
        for b, p, q, lim in itertools.product(("free", "outflow", "reflective"), (0, 1, 2), (0, 1, 2), ("off", "tight no SED", "convex tight")):
            out.append(dict(small=small, big=big, p=p, q=q, m=8, lim=lim, rs="hllc", b=b, ig="auto"))
        for ig in INTEGRATORS:
            out.append(dict(small=small, big=big, p=2, q=1, m=3, lim="minmod", rs="hllc", b="periodic", ig=ig))
        for p, q in itertools.product(range(4), repeat=2):
            out.append(dict(small=small, big=big, p=p, q=q, m=3, lim="off", rs="advection_upwind", b="periodic", ig="auto"))
    r3 = range(4 if th else 3)
    for small in ("x", "y", "z", "xy", "xz", "yz"):
        for p, q in itertools.product(r3, r3):
            for lim in ("off", "tight no SED"):
                out.append(dict(small=small, big="xyz", p=p, q=q, m=2, lim=lim, rs="hllc", b="periodic", ig="auto"))
        out.append(dict(small=small, big="xyz", p=1, q=1, m=4, lim="minmod", rs="llf", b="free", ig="auto"))
        out.append(dict(small=small, big="xyz", p=1, q=1, m=5, lim="minmod", rs="hllc", b="reflective", ig="auto"))
    for c in regime_cases(["x", "y", "z", "xz"]):
        if c["lim"] == "local" or (c["rs"] == "llf" and c["dims"] != "x"):
            continue
        for big in [b for b in ("xy", "xz", "yz", "xyz") if set(c["dims"]) < set(b) and (len(b) < 3 or c["dims"] == "xz")]:
            out.append(dict(k="regime", reg=c["reg"], small=c["dims"], big=big, p=c["p"], q=1 if c["p"] == 3 or len(big) == 3 else c["p"], m=3, lim=c["lim"], rs=c["rs"]))
    # every triple of option values
    for c in combo_cases(lambda c: len(c["dims"]) < 3 and (c["lim"] == "off" or c["lim"]["NAD_mode"] == "global")):
        for big in [b for b in DIMSETS if set(c["dims"]) < set(b)]:
            if len(big) == 3 and (c["lim"] != "off" and c["lim"]["convex"] or len(c["dims"]) == 1 and c["rs"] == "llf"):
                continue
            pm = max(c["p"]) if isinstance(c["p"], list) else c["p"]
            out.append(dict(k="regime", reg=c["reg"], small=c["dims"], big=big, p=c["p"], q=2 if pm == 1 and len(big) == 2 else 1, m=3, lim=c["lim"], rs=c["rs"]))
    for small, big in [(a, b) for a in DIMSETS for b in DIMSETS if set(a) < set(b)]:
        for p, q, ends, lim in itertools.product((0, 1, 2, 3, 5), (0, 1, 2, 3), ("periodic", "ic", "dirichlet"), ("off", "minmod", "tight no SED")):
            if len(big) + (max(p, q) > 2) + (p > 3 or q > 2) > 3 or len(big) == 3 and lim != "off" and p != 1:
                continue
            out.append(dict(k="posed", small=small, big=big, p=p, q=q, m=3, ends=ends, lim=lim))
    return [c for c in uniq(out) if not ((c["q"], c["m"]) == (0, 1) or (c["big"] == "xyz" and isinstance(c["lim"], str) and "convex" in c["lim"]))]


TIES = ("spot", "slabs", "blast")


def regime(case, ctx):
    small, big = case["small"], case["big"]
    r = Regime(case["reg"], small, npass=2, a=2)
    p1 = degrees_for(small, case["p"])
    added = [a for a in big if a not in small]
    n2 = tuple(case["m"] if a in added else r.n[i] for i, a in enumerate(AX))
    p2 = tuple(case["q"] if a in added else p1[i] for i, a in enumerate(AX))
    ig = INTEGRATORS[min(max(*p1, *p2), 3)] if r.ig == "auto" else r.ig
    probe = r.solver(p1, case["lim"], case["rs"])
    dt = 0.5 * rhs(probe)[0]  # the automatic step depends on the dimension: fix it
    a = r.solver(p1, case["lim"], case["rs"], fixed_dt=dt)
    b = r.solver(p2, case["lim"], case["rs"], fixed_dt=dt, n=n2, w=np.broadcast_to(r.w, (5 + r.npass, *n2)))
    sc = np.max(magnitudes(U(a)), axis=(1, 2, 3)).reshape(-1, 1, 1, 1) + 1e-300
    steps = min(r.steps, 12) if case["lim"] == "off" else min(r.steps, 3)
    for k in range(steps):
        advance(a, ig, 1)
        advance(b, ig, 1)
        ctx.step(2)
        ua, ub = U(a), U(b)
        ctx.require(np.all(np.isfinite(ua)), "reference run not finite")
        sc = np.maximum(sc, np.max(magnitudes(ua), axis=(1, 2, 3)).reshape(-1, 1, 1, 1))
        ctx.close(ub / sc, np.broadcast_to(ua / sc, ub.shape), 1e-10, f"{case['reg']}: state after step {k + 1}")
        if case["lim"] != "off" and case["reg"] not in TIES:
            ctx.close(trouble(b), np.broadcast_to(trouble(a), n2), 1e-10, f"{case['reg']}: trouble record of step {k + 1}")
    ctx.state(ua)
    ctx.outcome("regime")


def posed_case(case, ctx):
    """the whole problem given by functions of the coordinates, as primitive variables at points"""
    small, big = case["small"], case["big"]
    n1, p1 = shape_for(small, 9 if len(small) == 1 else [5, 6]), degrees_for(small, case["p"])
    added = [a for a in big if a not in small]
    n2 = tuple(case["m"] if a in added else n1[i] for i, a in enumerate(AX))
    p2 = tuple(case["q"] if a in added else p1[i] for i, a in enumerate(AX))

    def fun(x, y, z, t=None):
        X = [2 * np.pi * c if a in small else 0 * c + 0.3 * i for i, (a, c) in enumerate(zip(AX, (x, y, z)))]
        r = X[0] + X[1] + X[2]
        return np.array([1 + 0.3 * np.sin(r + 0.4), 0.3 * np.cos(r - 0.8), -0.2 * np.sin(r + 0.5 + X[1]), 0.25 * np.cos(r + X[2]), 1 + 0.2 * np.cos(r + 0.1), 0.5 + 0.3 * np.sin(r + 1.3)])

    def make(n, p):
        kw = {}
        if case["ends"] != "periodic":
            for a in small:  # along added axes nothing changes: they stay periodic
                kw[a] = (case["ends"],) * 2
                if case["ends"] == "dirichlet":
                    kw[a + "_value"] = (lambda x, y, z, t: cons(fun(x, y, z)),) * 2
        return posed(n, p, fun, npass=1, bc=BoundaryCondition(**kw) if kw else None, fixed_dt=0.01, **LIM[case["lim"]])

    a, b = make(n1, p1), make(n2, p2)
    ctx.close(U(b), np.broadcast_to(U(a), (6, *n2)), 1e-11, "initial averages")
    ig = INTEGRATORS[min(max(*p1, *p2), 3)]
    for k in range(2):
        advance(a, ig, 1), advance(b, ig, 1)
        ctx.step(2)
        ctx.close(U(b), np.broadcast_to(U(a), (6, *n2)), 1e-10, f"posed by functions: state after step {k + 1}")
        if case["lim"] != "off":
            ctx.close(trouble(b), np.broadcast_to(trouble(a), n2), 1e-10, f"posed by functions: trouble record of step {k + 1}")
    ctx.state(U(a), repr(case))
    ctx.outcome("posed by functions")


def run(case, ctx):
    if case.get("k") == "posed":
        return posed_case(case, ctx)
    if case.get("k") == "regime":
        return regime(case, ctx)
    small, big = case["small"], case["big"]
    k = 9 if len(small) == 1 else [5, 4]
    n1, p1 = shape_for(small, k), degrees_for(small, case["p"])
    added = [a for a in big if a not in small]
    n2 = tuple(case["m"] if a in added else n1[i] for i, a in enumerate(AX))
    p2 = tuple(case["q"] if a in added else p1[i] for i, a in enumerate(AX))
    kind = "advect" if case["rs"] == "advection_upwind" else "rough"
    w = state(kind, n1, 1, a=2)
    if case["b"] == "reflective":  # no flow into the added walls
        for a in added:
            w[1 + AX.index(a)] = 0.0
    dt = 0.02 if len(small) == 1 else 0.03
    kw = dict(LIM[case["lim"]], fixed_dt=dt)
    a = solver(n1, p1, w=w, rs=case["rs"], **kw)
    bc = {x: [case["b"]] * 2 for x in added}
    b = solver(n2, p2, w=np.broadcast_to(w, (6, *n2)), rs=case["rs"], bc=bc, **kw)
    ig = case["ig"]
    if ig == "auto":
        ig = INTEGRATORS[min(max(max(p1), max(p2)), 3)]
    for step in range(2):
        advance(a, ig, 1)
        advance(b, ig, 1)
        ctx.step(2)
        ua, ub = U(a), U(b)
        ctx.state(ub)
        ctx.require(np.all(np.isfinite(ua)), "reference run not finite")
        ctx.close(ub, np.broadcast_to(ua, ub.shape), 1e-10, f"state after step {step + 1}")
        if case["lim"] != "off":
            tr = trouble(a)
            ctx.outcome("no trouble" if not tr.any() else ("all troubled" if (tr > 0).all() else "some trouble"))
            ctx.close(trouble(b), np.broadcast_to(tr, n2), 1e-10, f"trouble record of step {step + 1}")
