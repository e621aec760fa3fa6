"""C03: uniform flows are steady under every compatible set of boundaries."""
from mc.fvlib import *

ID = "C03"
TECHNIQUE = "exhaustive enumeration of boundary/velocity/scheme configurations run on the solver; invariant: state unchanged"
RULE = (
    "case = active axes x boundary types of every face (periodic pair, or free/outflow/dirichlet/ic/reflective independently per side) x "
    "velocity signs in {-,0,+}^3 x degrees x Riemann solver x integrator x limiter; reflective and the double-Mach wall only where the normal velocity is zero"
)
BOUNDS = dict(
    quick="1D: all face pairs x all velocity signs x degrees 0-8; 2D: all pairs of face pairs; 3D: same type on all faces and mixed triples; 2 steps; plus a table of 34 regimes (faint, supersonic, blast, long, stretched, ... : fvlib.REGIMES); plus 274 combined settings covering every triple of option values that can be combined (mc/combos.py)",
    thorough="2D with degrees 0-5 and all velocity signs, 3D all axis-wise pairs of a reduced set, 3 steps; regimes with more axis sets and degrees",
)
ASSUMPTIONS = ["NumPy back end", "relative tolerance 1e-11"]

TYPES = ["free", "outflow", "dirichlet", "ic", "reflective"]
PAIRS = ["periodic,periodic"] + [f"{a},{b}" for a in TYPES for b in TYPES]
LIMS = list(l for l in LIM if not l.startswith("pattern") and l != "wide PAD")
V = (0.7, -0.4, 0.3)


def ok(pair, v):
    return v == 0 or "reflective" not in pair


def cases(tier):
    th = tier == "thorough"
    out = []
    signs = list(itertools.product((0, 1, -1), repeat=3))
    # 1D: every face pair
    for dims in "xyz":
        for pair, sg in itertools.product(PAIRS, signs):
            if not ok(pair, sg[AX.index(dims)]):
                continue
            for p, rs, lim in [(0, "llf", "off"), (1, "hllc", "minmod"), (2, "hllc", "off"), (3, "llf", "local"), (1, "advection_upwind", "moncen")]:
                out.append(dict(dims=dims, b=[pair], v=sg, p=p, rs=rs, lim=lim, ig="auto"))
        for pair, p, rs, lim in itertools.product(PAIRS, range(9), ("hllc", "llf", "advection_upwind"), LIMS if th else ("off", "minmod", "convex tight")):
            sg = (0, 0, 0) if "reflective" in pair else (1, -1, 1)
            out.append(dict(dims=dims, b=[pair], v=sg, p=p, rs=rs, lim=lim, ig="auto"))
        for lim, ig, rs in itertools.product(LIMS, INTEGRATORS, ("hllc", "llf")):
            out.append(dict(dims=dims, b=["free,dirichlet"], v=(1, 1, -1), p=2, rs=rs, lim=lim, ig=ig))
    # 2D: every pair of face pairs
    for dims in ("xy", "xz", "yz"):
        for b1, b2 in itertools.product(PAIRS, repeat=2):
            v = [1, -1, 1]
            for a, b in zip(dims, (b1, b2)):
                if "reflective" in b:
                    v[AX.index(a)] = 0
            confs = [(1, "hllc", "minmod")] if not th else [(p, rs, lim) for p in range(5) for rs, lim in (("hllc", "minmod"), ("llf", "off"))]
            for p, rs, lim in confs:
                out.append(dict(dims=dims, b=[b1, b2], v=v, p=p, rs=rs, lim=lim, ig="auto"))
        for q in itertools.product(range(5), repeat=2):
            for b in (["free,dirichlet", "outflow,ic"], ["periodic,periodic"] * 2, ["reflective,reflective", "free,ic"]):
                v = [0 if a in dims and "reflective" in b[dims.index(a)] else s for a, s in zip(AX, (1, -1, 1))]
                out.append(dict(dims=dims, b=b, v=v, p=list(q), rs="hllc", lim="tight no SED", ig="euler"))
    # double-Mach wall
    for p, lim, vx in itertools.product((0, 1, 2), ("off", "minmod"), (0, 1, -1)):
        out.append(dict(dims="xy", b=["free,free", "special-case-double-mach-reflection-y=0,free"], v=(vx, 0, 1), p=p, rs="hllc", lim=lim, ig="auto"))
    # 3D
    three = ["periodic,periodic", "free,dirichlet", "outflow,ic", "reflective,reflective", "dirichlet,outflow"]
    for t in itertools.product(three, repeat=3):
        v = [0 if "reflective" in b else s for b, s in zip(t, (1, -1, 1))]
        out.append(dict(dims="xyz", b=list(t), v=v, p=1, rs="hllc", lim="minmod", ig="auto"))
    for q in itertools.product(range(3 if not th else 4), repeat=3):
        out.append(dict(dims="xyz", b=["free,dirichlet", "outflow,ic", "periodic,periodic"], v=(1, 1, -1), p=list(q), rs="hllc", lim="off", ig="euler"))
    # other uniform states, meshes, gases and long histories
    for name, dims, (p, lim), rs in itertools.product(UNIFORM, DIMSETS, ((0, "off"), (1, "minmod"), (2, "off"), (3, "tight no SED"), (1, "moncen")), ("hllc", "llf", "advection_upwind")):
        if len(dims) == 3 and (p > 1 or lim == "moncen"):
            continue
        for bs in ("pp", "fd", "oi"):
            out.append(dict(k="uniform", name=name, dims=dims, p=p, lim=lim, rs=rs, bs=bs))
    # every triple of option values
    for bs in ("pp", "fd", "oi"):
        out += combo_cases(bs=bs)
    return uniq(out)


# (rho, velocity, P, scalars, domain, gamma, CFL, steps, cells per axis)
UNIT = [(0, 1), (0, 2), (-1, 1)]
UNIFORM = {
    "long": ((1.3, (0.7, -0.4, 0.3), 0.9, (0.25, 0.6)), UNIT, 1.4, 0.8, 60, None),
    "large": ((1.3, (-0.7, 0.4, -0.3), 0.9, (0.25, 0.6)), UNIT, 1.4, 0.8, 2, {1: 70, 2: 21, 3: 9}),
    "supersonic": ((0.8, (7.0, 6.0, 5.0), 0.3, (1.0, 2.0)), UNIT, 5 / 3, 0.8, 3, None),
    "supersonic back": ((0.8, (-7.0, -6.0, -5.0), 0.3, (1.0, 2.0)), UNIT, 5 / 3, 0.8, 3, None),
    "at rest": ((1.0, (0.0, 0.0, 0.0), 1.0, (0.0, 1.0)), UNIT, 1.4, 0.8, 3, None),
    "creeping": ((1.0, (1e-9, -1e-9, 1e-12), 1.0, (-1.0, 1e-9)), UNIT, 1.4, 0.8, 3, None),
    "cold": ((1.0, (0.3, -0.2, 0.1), 1e-13, (-3.0, 1e4)), UNIT, 1.4, 0.8, 3, None),
    "dense": ((1e7, (0.3, -0.2, 0.1), 1e6, (0.1, 0.9)), UNIT, 1.4, 0.8, 3, None),
    "thin gas": ((1e-9, (0.3, -0.2, 0.1), 1e-9, (0.1, 0.9)), UNIT, 1.4, 0.8, 3, None),
    "fast units": ((1.0, (3e5, -2e5, 1e5), 1e11, (0.1, 0.9)), UNIT, 1.4, 0.8, 3, None),
    "soft gas": ((1.3, (0.7, -0.4, 0.3), 0.9, (0.25, 0.6)), UNIT, 1.01, 0.8, 3, None),
    "stiff gas": ((1.3, (0.7, -0.4, 0.3), 0.9, (0.25, 0.6)), UNIT, 4.0, 0.8, 3, None),
    "stretched": ((1.3, (0.7, -0.4, 0.3), 0.9, (0.25, 0.6)), [(-30.0, 40.0), (5.0, 5.01), (0.3, 0.9)], 1.4, 1.0, 4, None),
}


def uniform(case, ctx):
    (rho, v, P, sc), dom, gamma, CFL, steps, cells = UNIFORM[case["name"]]
    dims, lim = case["dims"], case["lim"]
    p = degrees_for(dims, case["p"])
    w = np.array([rho, *v, P, *sc]).reshape(7, 1, 1, 1)
    u = cons(w, gamma)
    pair = {"pp": ("periodic", "periodic"), "fd": ("free", "dirichlet"), "oi": ("outflow", "ic")}[case["bs"]]
    n = [1, 1, 1]
    for i, a in enumerate(AX):
        if a in dims:
            n[i] = max(2, mirror_width(p, lim != "off") if case["bs"] == "oi" else 4, cells[len(dims)] if cells else 0)
    kwb = {a: pair for a in dims}
    kwb.update({a + "_value": tuple(u.ravel().copy() if t == "dirichlet" else None for t in pair) for a in dims})
    s = Quick(
        w0=FuncIC(lambda x, y, z: w[:5] * np.ones_like(x)),
        w0_passives={"q": lambda x, y, z: sc[0] * np.ones_like(x), "r": lambda x, y, z: sc[1] * np.ones_like(x)},
        nx=n[0], ny=n[1], nz=n[2], px=p[0], py=p[1], pz=p[2], x=dom[0], y=dom[1], z=dom[2], CFL=CFL,
        gamma=gamma, bc=BoundaryCondition(**kwb), riemann_solver=case["rs"], progress_bar=False, **LIM[lim],
    )
    ref = np.broadcast_to(u, (7, *n))
    sz = magnitudes(u.copy()) + 1e-300
    for k in range(steps):
        advance(s, "auto", 1)
        ctx.step()
        ctx.close(U(s) / sz, ref / sz, 1e-11, f"{case['name']}: state after step {k + 1}")
    ctx.state(repr(case))
    ctx.outcome("uniform regime")


def combo(case, ctx):
    dims, p = case["dims"], degrees_for(case["dims"], case["p"])
    pair = {"pp": ("periodic", "periodic"), "fd": ("free", "dirichlet"), "oi": ("outflow", "ic")}[case["bs"]]
    g = mirror_width(p, case["lim"] != "off") if case["bs"] == "oi" else 1
    r = Regime(case["reg"], dims, at_least=[g if a in dims else 1 for a in AX])
    w = np.array([1.1, 0.3, -0.2, 0.25, 0.95, 0.4, -2.0, 7.0])[: 5 + r.npass].reshape(-1, 1, 1, 1)
    u = cons(w, r.gamma)
    kwb = {a: pair for a in dims}
    kwb.update({a + "_value": tuple(u.ravel().copy() if t == "dirichlet" else None for t in pair) for a in dims})
    kw = dict(LIM["off"] if case["lim"] == "off" else case["lim"], **r.kw)
    kw.pop("dom")
    one = np.ones(r.n)
    s = posed(r.n, p, lambda x, y, z: w * np.ones_like(x), npass=r.npass, dom=r.dom, bc=BoundaryCondition(**kwb), riemann_solver=case["rs"], **kw)
    for k in range(3):
        r.go(s, 1)
        ctx.step()
        ctx.close(U(s) / u, np.broadcast_to(one, U(s).shape), 1e-11, f"state after call {k + 1}")
        for q in s.snapshots:
            ctx.close(q["w"] / w, np.broadcast_to(one, q["w"].shape), 1e-10, f"snapshot at {q['t']}")
    ctx.state(repr(case))
    ctx.outcome("combined options")


def run(case, ctx):
    if case.get("k") == "regime":
        return combo(case, ctx)
    if case.get("k") == "uniform":
        return uniform(case, ctx)
    dims = case["dims"]
    p = degrees_for(dims, case["p"])
    lim = case["lim"]
    v = [s * x for s, x in zip(case["v"], V)]
    g = mirror_width(p, lim != "off")
    n, bc = [1, 1, 1], {}
    for a, b in zip(dims, case["b"]):
        bc[a] = tuple(b.split(","))
        n[AX.index(a)] = g + 1 if any(t in ("outflow", "reflective") or "special" in t for t in bc[a]) else (3 if len(dims) > 1 else 4)
    w = np.array([1.3, *v, 0.9, 0.25, 0.6])
    u = cons(w.reshape(7, 1, 1, 1))
    kwb = {}
    for a in dims:
        kwb[a] = bc[a]
        kwb[a + "_value"] = tuple(
            (u.ravel().copy() if j == 0 else (lambda x, y, z, t: np.broadcast_to(u, (7, *x.shape)))) if t == "dirichlet" else None for j, t in enumerate(bc[a])
        )
    s = Quick(
        w0=FuncIC(lambda x, y, z: np.array([1.3, *v, 0.9]).reshape(5, 1, 1, 1) * np.ones_like(x)),
        w0_passives={"q": lambda x, y, z: 0.25 * np.ones_like(x), "r": lambda x, y, z: 0.6 * np.ones_like(x)},
        nx=n[0], ny=n[1], nz=n[2], px=p[0], py=p[1], pz=p[2],
        x=(0, 1), y=(0, 2), z=(-1, 1),
        gamma=GAMMA, bc=BoundaryCondition(**kwb), riemann_solver=case["rs"], progress_bar=False, **LIM[lim],
    )
    ref = np.broadcast_to(u, (7, *n))
    ctx.close(U(s), ref, 1e-12, "initial state")
    for k in range(2):
        advance(s, case["ig"], 1)
        ctx.step()
        ctx.close(U(s), ref, 1e-11, f"state after step {k + 1}")
        ctx.close(s.snapshots[-1]["w"], np.broadcast_to(w.reshape(7, 1, 1, 1), (7, *n)), 1e-11, f"snapshot after step {k + 1}")
    ctx.state(repr(case))
