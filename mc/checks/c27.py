"""C27: units of mass, length and time and the origin of the coordinates do not matter."""
from mc.combos import combo_cases
from mc.fvlib import *

ID = "C27"
TECHNIQUE = "exhaustive enumeration of changes of units on solver runs over a covering set of settings and regimes; oracle: the run in the original units, converted"
RULE = (
    "case = settings (regime, or combined options, or inflow data, or problem posed by a profile) x changes of units; inside a case the problem is expressed in "
    "each other system of units (density x length x velocity, powers of two, so that the conversion is exact; scalars; displaced origin), run, and times, step sizes, states, "
    "snapshots and trouble records are converted back and compared"
)
BOUNDS = dict(
    quick="14 changes of units over density 2^-90..2^90, length 2^-70..2^70, velocity 2^-50..2^40, scalars 2^-80..2^80, origin displaced; 34 regimes on 3 axis sets and 274 combined settings (mc/combos.py) with 3 changes each, all changes in rotation; inflow and posed problems with all 14",
    thorough="all 14 changes of units for every setting, regimes on all 7 axis sets",
)
ASSUMPTIONS = [
    "dimensional options (floors, physical bounds, fixed steps, end times, boundary data) are converted along; the tolerance of smooth extrema detection, which has no unit of its own, is set to the smallest numbers",
    "relative tolerance 1e-11",
]

# density, length, velocity, scalars, displacement in units of the domain
UNITS = [
    (2.0**90, 1, 1, 1, 0),
    (2.0**-90, 1, 1, 1, 0),
    (1, 2.0**70, 1, 1, 0),
    (1, 2.0**-70, 1, 1, 0),
    (1, 1, 2.0**40, 1, 0),
    (1, 1, 2.0**-50, 1, 0),
    (1, 1, 1, 2.0**80, 0),
    (1, 1, 1, 2.0**-80, 0),
    (1, 1, 1, 1, 4),
    (1, 1, 1, 1, -1.5),
    (2.0**10, 2.0**6, 2.0**8, 2.0**-3, 0),
    (2.0**-80, 2.0**65, 2.0**20, 2.0**5, 0),  # grams and centimetres for interstellar gas
    (2.0**-10, 2.0**-7, 2.0**-6, 2.0**5, 0.5),
    (2.0**9, 2.0**-12, 2.0**3, 1, -8),
]


def cases(tier):
    th = tier == "thorough"
    out = []
    turn = lambda j: list(range(len(UNITS))) if th else sorted({(3 * j + i * i + 4 * i + i * (j // 14)) % len(UNITS) for i in range(3)})
    for j, c in enumerate(regime_cases(None if th else ["x", "yz", "xyz"])):
        out.append(dict(c, units=turn(j)))
    for j, c in enumerate(combo_cases(bounded=True)):
        out.append(dict(c, units=turn(j)))
    for dims, p, lim, g in itertools.product(DIMSETS, (0, 1, 2, 3), ("off", "minmod", "tight no SED"), ("auto", "euler", "rk4")):
        if len(dims) == 3 and (p > 2 or g == "rk4"):
            continue
        out.append(dict(k="inflow", dims=dims, p=p, lim=lim, g=g))
    for dims, p, rs, cons_ in itertools.product(DIMSETS, (0, 1, 2, 3, 5), ("hllc", "llf", "advection_upwind"), (False, True)):
        if len(dims) == 3 and p > 2:
            continue
        out.append(dict(k="posed", dims=dims, p=p, rs=rs, cons=cons_))
    return uniq(out)


def factors(q, npass, prim=False):
    """the size of one old unit of each variable in new units"""
    a, _, b, c, _ = q
    f = [a, b, b, b, a * b * b] if prim else [a, a * b, a * b, a * b, a * b * b]
    return np.array(f + [c if prim else a * c] * npass).reshape(-1, 1, 1, 1)


def convert(opts, q):
    a, L, b, _, _ = q
    kw = dict(opts)
    if kw.get("a_posteriori_slope_limiting"):
        kw["SED_tolerance"] = 1e-250
    kw["csq_floor"] = kw.get("csq_floor", 1e-10) * b * b
    if kw.get("fixed_dt") is not None:
        kw["fixed_dt"] *= L / b
    if kw.get("PAD"):
        size = dict(rho=a, P=a * b * b, vx=b, vy=b, vz=b, E=a * b * b, mx=a * b, my=a * b, mz=a * b)
        kw["PAD"] = {k: tuple(x * size.get(k, 1) for x in v) for k, v in kw["PAD"].items()}
    return kw


def observe(s, ctx, go, lim):
    dt, d = rhs(s)
    tr = []
    for g in go:
        g(s)
        ctx.step()
        if lim:
            tr.append(trouble(s))
    return dict(dt=dt, d=d, u=U(s), t=np.array(s.timestamps), w=[np.array(x["w"]) for x in s.snapshots], ts=np.array([x["t"] for x in s.snapshots]), tr=tr)


def compare(ctx, o, base, q, npass, what):
    a, L, b, c, x = q
    f, fp, T = factors(q, npass), factors(q, npass, True), L / b
    top = lambda v: np.maximum(np.max(np.abs(v), axis=(1, 2, 3), keepdims=True), 1e-300)
    sc = np.max(magnitudes(base["u"]), axis=(1, 2, 3)).reshape(-1, 1, 1, 1) + 1e-300
    tol = 1e-11 if not x else 1e-9
    ctx.close(o["dt"] / T, base["dt"], tol, f"{what}: step size", scale=base["dt"])
    ctx.close(o["d"] / f * T * base["dt"] / sc, base["d"] * base["dt"] / sc, tol, f"{what}: change per step")
    ctx.close(o["t"] / T, base["t"], tol, f"{what}: times of the steps", scale=np.max(np.abs(base["t"])))
    ctx.close(o["u"] / f / sc, base["u"] / sc, tol, f"{what}: state")
    ctx.close(o["ts"] / T, base["ts"], tol, f"{what}: times of the snapshots", scale=np.max(np.abs(base["ts"])))
    for i, (v, v0) in enumerate(zip(o["w"], base["w"])):
        s0 = top(v0)
        s0[1:4] = np.maximum(s0[1:4], np.sqrt(s0[4] / s0[0]))
        ctx.close(v / fp / s0, v0 / s0, tol * 10, f"{what}: snapshot {i}")
    for i, (v, v0) in enumerate(zip(o["tr"], base["tr"])):
        ctx.close(v, v0, tol, f"{what}: trouble record {i}")


def regime(case, ctx):
    dims = case["dims"]
    r = Regime(case["reg"], dims, npass=2, a=3)
    p, lim = degrees_for(dims, case["p"]), case["lim"] != "off"
    opts = dict(LIM[case["lim"]] if isinstance(case["lim"], str) else case["lim"])
    opts.update({k: v for k, v in r.kw.items() if k not in ("dom", "gamma")})
    if not lim:
        for k in ("NAD", "NAD_vars", "SED_tolerance"):
            opts.pop(k, None)
    steps = min(r.steps, 6)

    def make(q):
        a, L, b, c, x = q
        dom = [((lo + x * (hi - lo)) * L, (hi + x * (hi - lo)) * L) if x else (lo * L, hi * L) for lo, hi in r.dom]
        span = r.span * L / b

        def go(k):
            def f(s):
                if r.how == "n":
                    return advance(s, r.ig, k)
                run = s.run if r.ig == "auto" else getattr(s, r.ig)
                run(T=s.t + (k - 0.3) * span, downbeats=[s.t + 0.4 * span], log_every_step=r.how == "every")

            return f

        kw = convert(opts, q)
        s = solver(r.n, p, u=cons(r.w, r.gamma) * factors(q, r.npass), gamma=r.gamma, dom=dom, bc=r.bc, rs=case["rs"], **kw)
        return observe(s, ctx, [go(1), go(steps - 1)] if steps > 1 else [go(1)], lim)

    base = make((1, 1, 1, 1, 0))
    ctx.state(base["u"])
    if not np.all(np.isfinite(base["u"])):
        ctx.outcome("not finite")
        return
    for i in case["units"]:
        q = UNITS[i]
        if q[4] and lim:
            continue  # decisions may sit on the rounding of the cell size
        compare(ctx, make(q), base, q, r.npass, f"units {q}")
    ctx.outcome("regime" if isinstance(case["reg"], str) else "combined options")


def inflow(case, ctx):
    dims, p = case["dims"], degrees_for(case["dims"], case["p"])
    n = shape_for(dims, {1: 8, 2: [6, 5], 3: [4, 3, 3]}[len(dims)])
    n = tuple(max(k, 4) if c in dims else k for k, c in zip(n, AX))
    w = state("mild", n, 1, a=4)

    def make(q):
        a, L, b, c, x0 = q

        def val(x, y, z, t):
            x, y, z, t = x / L - x0, y / L - x0, z / L - x0, t * b / L
            v = np.ones((6, *np.shape(x)))
            v[0] += 0.3 * np.sin(40 * t + x + 2 * y + 3 * z)
            v[1:4] *= 0.2
            v[5] = np.cos(60 * t)
            return cons(v) * factors(q, 1).reshape((-1,) + (1,) * np.ndim(x))

        kwb = {}
        for i, ax in enumerate(dims):
            kwb[ax] = ("dirichlet", "free") if i % 2 == 0 else ("free", "dirichlet")
            kwb[ax + "_value"] = (val, None) if i % 2 == 0 else (None, val)
        s = solver(n, p, u=cons(w) * factors(q, 1), bc=BoundaryCondition(**kwb), dom=[(x0 * L, (1 + x0) * L)] * 3, **convert(LIM[case["lim"]], q))
        T = 0.02 * L / b
        run = lambda **k: (s.run if case["g"] == "auto" else getattr(s, case["g"]))(**k)
        return observe(s, ctx, [lambda s: run(n=2), lambda s: run(T=s.t + T, downbeats=[s.t + T / 3])], case["lim"] != "off")

    base = make((1, 1, 1, 1, 0))
    ctx.state(base["u"])
    for q in UNITS:
        if q[4] and case["lim"] != "off":
            continue
        compare(ctx, make(q), base, q, 1, f"units {q}")
    ctx.outcome("inflow")


def profile(case, ctx):
    dims, p = case["dims"], degrees_for(case["dims"], case["p"])
    n = shape_for(dims, {1: 9, 2: [5, 6], 3: [3, 4, 3]}[len(dims)])

    def make(q):
        a, L, b, c, x0 = q

        def fun(x, y, z):
            x, y, z = x / L - x0, y / L - x0, z / L - x0
            ph = 2 * np.pi * sum((k * v for k, v, d in zip((1, 1, 2), (x, y, z), AX) if d in dims), 0 * x)
            w = np.array([1 + 0.2 * np.sin(ph), 0.3 + 0.1 * np.cos(ph), -0.2 + 0.1 * np.sin(ph + 1), 0.1 + 0.1 * np.cos(ph - 1), 1 + 0.2 * np.cos(ph + 2), 0.4 + np.sin(ph + 3)])
            if case["rs"] == "advection_upwind":
                w[1:5] = np.array([0.3, -0.2, 0.1, 1.0]).reshape((4,) + (1,) * np.ndim(x))
            out = w * factors(q, 1, True).reshape((-1,) + (1,) * np.ndim(x))
            if case["cons"]:
                flow = cons(out[:5])
                return np.concatenate([flow, out[5:] * out[:1]])
            return out

        s = posed(n, p, fun, npass=1, dom=[(x0 * L, (1 + x0) * L)] * 3, riemann_solver=case["rs"], conservative_ic=case["cons"], **convert({}, q))
        return observe(s, ctx, [lambda s: s.run(n=2)], False)

    base = make((1, 1, 1, 1, 0))
    ctx.state(base["u"])
    for q in UNITS:
        compare(ctx, make(q), base, q, 1, f"units {q}")
    ctx.outcome("posed by a profile")


def run(case, ctx):
    dict(regime=regime, inflow=inflow, posed=profile)[case["k"]](case, ctx)
