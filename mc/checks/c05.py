"""C05: cyclic shifts along periodic directions commute with the solver."""
from mc.fvlib import *

ID = "C05"
TECHNIQUE = "exhaustive exploration of all cyclic shifts on solver runs; oracle: shifted run"
RULE = (
    "case = active axes x which of them are periodic x degrees x Riemann solver x limiter x mesh size (from one cell); inside a case every "
    "cyclic shift along the periodic axes is run and rate of change, time step, evolved state and trouble record are compared with the shifted originals"
)
BOUNDS = dict(
    quick="1D: meshes of 1-9 cells, degrees 0-8, all limiter settings; 2D up to 4x5, 3D up to 3x3x2; all shifts; 1-2 steps; plus a table of 34 regimes (faint, supersonic, blast, long, stretched, ... : fvlib.REGIMES); plus 274 combined settings covering every triple of option values that can be combined (mc/combos.py)",
    thorough="1D meshes of 1-13 cells, 2D degree pairs 0-6, 3D degrees 0-3 mixed; regimes with more axis sets and degrees",
)
ASSUMPTIONS = ["generic states, so no troubled-cell decision sits on a rounding tie", "relative tolerance 1e-10"]
LIMS = [l for l in LIM if not l.startswith("pattern")]


def cases(tier):
    th = tier == "thorough"
    out = []
    for n, p in itertools.product(range(1, 14 if th else 10), range(9)):
        if (n, p) == (1, 0):
            continue
        for dims in "xyz":
            for lim in ("off", "tight no SED") if dims != "x" else ("off", "minmod", "tight no SED", "convex tight", "forced"):
                out.append(dict(dims=dims, n=[n], p=p, lim=lim, rs="hllc", per=dims))
    for lim, rs, p in itertools.product(LIMS, ("hllc", "llf"), (0, 1, 2, 3, 5)):
        out.append(dict(dims="x", n=[8], p=p, lim=lim, rs=rs, per="x"))
    for lim, p in itertools.product(("off", "forced", "rho only"), (0, 1, 2, 3)):
        out.append(dict(dims="x", n=[8], p=p, lim=lim, rs="advection_upwind", per="x"))
    for dims in ("xy", "xz", "yz"):
        for q in itertools.product(range(7 if th else 4), repeat=2):
            for lim in ("off", "tight no SED", "convex tight"):
                out.append(dict(dims=dims, n=[4, 5], p=list(q), lim=lim, rs="hllc", per=dims))
        for n in ([1, 3], [2, 2], [3, 1], [2, 5]):
            for p, lim in itertools.product((1, 2, 3), ("off", "tight no SED", "convex tight")):
                out.append(dict(dims=dims, n=n, p=p, lim=lim, rs="llf", per=dims))
        for lim in LIMS:
            out.append(dict(dims=dims, n=[4, 5], p=2, lim=lim, rs="hllc", per=dims))
        # only one of the two directions periodic
        for per, p, lim in itertools.product(dims, (0, 1, 2), ("off", "tight no SED", "convex tight")):
            out.append(dict(dims=dims, n=[4, 5], p=p, lim=lim, rs="hllc", per=per))
    for lim in LIMS:
        if "convex" not in lim:
            for p in (1, 2) if th else (1,):
                out.append(dict(dims="xyz", n=[3, 3, 2], p=p, lim=lim, rs="hllc", per="xyz"))
    for q in itertools.product(range(4 if th else 3), repeat=3):
        if not th and sum(q) % 2:
            continue
        out.append(dict(dims="xyz", n=[2, 3, 2], p=list(q), lim="tight no SED", rs="hllc", per="xyz"))
    for c in regime_cases(["x", "yz", "xyz"] if not th else None):
        if len(c["dims"]) < 3 or c["rs"] == "hllc":
            out.append(dict(c, per=c["dims"]))
    out += [dict(c, per=c["dims"]) for c in combo_cases()]
    return uniq(out)


TIES = ("spot", "slabs", "blast")  # uniform parts: flags there hang on rounding


def regime(case, ctx):
    dims, reg = case["dims"], case["reg"]
    r = Regime(reg, dims, npass=2, a=5)
    p, n, lim = degrees_for(dims, case["p"]), r.n, case["lim"] != "off"
    steps = r.steps if not lim else min(r.steps, 3)

    def observe(w):
        s = r.solver(p, case["lim"], case["rs"], w=w)
        dt, d = rhs(s)
        r.go(s, 1)
        u, tr = U(s), trouble(s) if lim else None
        if steps > 1:
            r.go(s, steps - 1)
        ctx.step(steps + 1)
        return dt, d, u, tr, U(s), np.array(s.timestamps)

    dt, d, u, tr, uN, ts = observe(r.w)
    sc = np.max(magnitudes(u), axis=(1, 2, 3)).reshape(-1, 1, 1, 1) + 1e-300
    ctx.state(u)
    ctx.require(np.all(np.isfinite(uN)), "non-finite state")
    if len(dims) == 1:
        shifts = [tuple(k if a in dims else 0 for a in AX) for k in (range(1, max(n)) if max(n) < 15 else (1, 2, max(n) // 2, max(n) - 2, max(n) - 1))]
    else:
        shifts = [tuple((k * f) % m for k, m in zip(v, n)) for v in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (2, 1, 2)) for f in (1, -1)]
        shifts = [t for t in dict.fromkeys(shifts) if any(t)]
    ax = (1, 2, 3)
    for sh in shifts:
        dt2, d2, u2, tr2, uN2, ts2 = observe(np.roll(r.w, sh, axis=ax))
        what = f"{reg}, shift {sh}"
        ctx.close(dt2, dt, 1e-10, what + ": time step", scale=dt)
        ctx.close(d2 * dt / sc, np.roll(d, sh, axis=ax) * dt / sc, 1e-10, what + ": change per step")
        ctx.close(u2 / sc, np.roll(u, sh, axis=ax) / sc, 1e-10, what + ": state after one step")
        ctx.close(uN2 / sc, np.roll(uN, sh, axis=ax) / sc, 1e-9, what + f": state after {steps} steps")
        ctx.close(ts2, ts, 1e-9, what + ": times", scale=ts[-1])
        if lim and reg not in TIES:
            ctx.close(tr2, np.roll(tr, sh, axis=(0, 1, 2)), 1e-10, what + ": trouble record")
    ctx.outcome("regime")


def run(case, ctx):
    if case.get("k") == "regime":
        return regime(case, ctx)
    dims = case["dims"]
    n, p = shape_for(dims, case["n"]), degrees_for(dims, case["p"])
    kw = LIM[case["lim"]]
    lim = case["lim"] != "off"
    kind = "advect" if case["rs"] == "advection_upwind" else "mild" if max(p) > 3 or min(case["n"]) < 4 else "rough"
    w = state(kind, n, 1, a=5)
    bc = {a: ["periodic"] * 2 if a in case["per"] else ["free"] * 2 for a in dims}

    def observe(w):
        s = solver(n, p, w=w, rs=case["rs"], bc=bc, CFL=0.4, **kw)
        dt, d = rhs(s)
        advance(s, "auto", 1)
        return dt, d, U(s), trouble(s) if lim else None

    dt, d, u, tr = observe(w)
    sc = max(1.0, float(np.max(np.abs(d))))
    ctx.state(u)
    if lim:
        ctx.outcome("no trouble" if not tr.any() else ("all troubled" if (tr > 0).all() else "some trouble"))
    ranges = [range(k) if AX[i] in case["per"] else (0,) for i, k in enumerate(n)]
    for sh in itertools.product(*ranges):
        if not any(sh):
            continue
        dt2, d2, u2, tr2 = observe(np.roll(w, sh, axis=(1, 2, 3)))
        ctx.step(2)
        what = f"shift {sh}"
        ctx.close(dt2, dt, 1e-10, what + ": time step", scale=dt)
        ctx.close(d2, np.roll(d, sh, axis=(1, 2, 3)), 1e-10, what + ": rate of change", scale=sc)
        ctx.close(u2, np.roll(u, sh, axis=(1, 2, 3)), 1e-10, what + ": state after one step")
        if lim:
            ctx.close(tr2, np.roll(tr, sh, axis=(0, 1, 2)), 1e-10, what + ": trouble record")
    # a problem that repeats itself evolves like one period of it
    for i in [AX.index(a) for a in case["per"]]:
        if n[i] > 8 or (lim and max(n) * len(dims) > 12):
            continue
        n2 = tuple(2 * k if j == i else k for j, k in enumerate(n))
        dom = [(0.0, 2.0) if j == i else (0.0, 1.0) for j in range(3)]
        w2 = np.concatenate([w, w], axis=1 + i)
        s = solver(n2, p, w=w2, rs=case["rs"], bc=bc, dom=dom, CFL=0.4, **kw)
        dt2, d2 = rhs(s)
        ctx.step()
        ctx.close(dt2, dt, 1e-10, f"two periods along {AX[i]}: time step", scale=dt)
        ctx.close(d2, np.concatenate([d, d], axis=1 + i), 1e-10, f"two periods along {AX[i]}: rate of change", scale=sc)
