"""C01: totals of conserved quantities on fully periodic domains."""
from mc.fvlib import *

ID = "C01"
TECHNIQUE = "exhaustive bounded exploration of solver runs; invariant: domain totals"
RULE = (
    "case = active axes x degrees x Riemann solver x integrator x limiter setting x initial word; "
    "words are all assignments of a letter alphabet to the cells of a small mesh, trouble words are all "
    "0/1 trouble patterns of the mesh (2^n), plus asymmetric fields on larger meshes; every step of every run is summed"
)
BOUNDS = dict(
    quick="1-3 active axes, up to 12 cells per axis, degrees 0-8, 1-3 steps, all 2^5 (1D) and 2^6 (2D) trouble patterns; plus a table of 34 regimes (faint, supersonic, blast, long, stretched, ... : fvlib.REGIMES); plus 274 combined settings covering every triple of option values that can be combined (mc/combos.py)",
    thorough="as quick with all degree pairs, all 2^7 (1D) and 2^9 (2D, 3x3) and 2^8 (3D) trouble patterns, 4 steps; regimes with more axis sets and degrees",
)
ASSUMPTIONS = ["NumPy back end (CuPy not installed here)", "relative tolerance 1e-11 per step on the sum of magnitudes"]

LET = {
    "a": (1.0, 0.2, -0.1, 0.1, 1.0),
    "b": (0.4, -0.3, 0.2, 0.0, 0.6),
    "c": (1.6, 0.5, 0.1, -0.2, 1.5),
}
RS = ["hllc", "llf", "advection_upwind"]


def cases(tier):
    th = tier == "thorough"
    out = []
    # every limiter setting x Riemann solver x axis set x degree, asymmetric fields
    lims = [l for l in LIM if not l.startswith("pattern")]
    for dims in DIMSETS:
        ps = range(9) if len(dims) == 1 else ((0, 1, 2, 3) if not th else range(7))
        if len(dims) == 3:
            ps = (0, 1, 3) if not th else (0, 1, 2, 3, 4)
        for p, lim, rs in itertools.product(ps, lims, RS):
            if len(dims) == 3 and "convex" in lim:
                continue
            for kind in ("rough", "smooth"):
                if len(dims) == 3 and not th and (kind == "smooth" or rs == "advection_upwind"):
                    continue
                n = 6 if len(dims) == 3 else (8 if len(dims) == 2 else 12)
                out.append(dict(k="field", dims=dims, p=p, n=n, lim=lim, rs=rs, ig="auto", kind=kind, steps=4 if th else 2, np=1))
    # integrators
    for dims, ig, lim, rs, p in itertools.product(DIMSETS, INTEGRATORS, ("off", "tight no SED", "minmod"), RS, (0, 1, 3)):
        n = 5 if len(dims) == 3 else (7 if len(dims) == 2 else 10)
        out.append(dict(k="field", dims=dims, p=p, n=n, lim=lim, rs=rs, ig=ig, kind="rough", steps=3, np=2))
    # mixed degrees
    mix = list(itertools.product(range(7 if th else 5), repeat=2))
    for dims, lim in itertools.product(("xy", "xz", "yz"), ("off", "tight no SED", "convex tight")):
        for q in mix:
            out.append(dict(k="field", dims=dims, p=list(q), n=[7, 8], lim=lim, rs="hllc", ig="euler", kind="rough", steps=1, np=0))
    for q in itertools.product(range(4 if th else 3), repeat=3):
        for lim in ("off", "tight no SED"):
            out.append(dict(k="field", dims="xyz", p=list(q), n=[5, 6, 4], lim=lim, rs="hllc", ig="euler", kind="rough", steps=1, np=0))
    # all words of the state alphabet, 1D
    L = 6 if th else 5
    for dims, p, lim in itertools.product("xyz", (1, 2, 3), ("off", "tight no SED", "convex tight")):
        if dims != "x" and not th and lim == "off":
            continue
        out.append(dict(k="words", dims=dims, p=p, n=L, lim=lim, rs="hllc", letters="abc" if L <= 5 else "ab"))
    # all trouble patterns
    for dims, p, lim in itertools.product("xyz", (1, 3), ("pattern", "pattern convex", "pattern moncen")):
        out.append(dict(k="patterns", dims=dims, p=p, n=[7 if th else 5], lim=lim, rs="hllc"))
    for dims, p, lim in itertools.product(("xy", "xz", "yz"), (1, 2), ("pattern", "pattern convex")):
        out.append(dict(k="patterns", dims=dims, p=p, n=[3, 3] if th else [2, 3], lim=lim, rs="hllc"))
        out.append(dict(k="single", dims=dims, p=p, n=[5, 4], lim=lim, rs="llf"))
    out.append(dict(k="patterns", dims="xyz", p=1, n=[2, 2, 2], lim="pattern", rs="hllc")) if th else None
    out.append(dict(k="single", dims="xyz", p=1, n=[3, 4, 3], lim="pattern", rs="hllc"))
    # other meshes, units, gases, step sizes, flow regimes and long histories
    out += regime_cases() + combo_cases()
    return out


def totals_kept(ctx, u0, u1, what, steps=1):
    ctx.require(np.all(np.isfinite(u1)), f"{what}: non-finite state")
    for v in range(u0.shape[0]):
        mag = float(np.sum(np.abs(u0[v])) + np.sum(np.abs(u1[v])))
        d = float(np.sum(u1[v]) - np.sum(u0[v]))
        ctx.require(
            abs(d) <= 1e-11 * steps * max(mag, 1.0),
            lambda: f"{what}: total of variable {v} changed by {d:.3e} (sum of magnitudes {mag:.3g})",
        )


def regime(case, ctx):
    r = Regime(case["reg"], case["dims"], npass=2)
    s = r.solver(degrees_for(case["dims"], case["p"]), case["lim"], case["rs"])
    u = u0 = U(s)
    size = np.sum(magnitudes(u0), axis=(1, 2, 3))
    for k in range(r.steps):
        r.go(s, 1)
        ctx.step()
        v = U(s)
        ctx.state(v)
        ctx.require(np.all(np.isfinite(v)), f"step {k + 1}: non-finite state")
        size = np.maximum(size, np.sum(magnitudes(v), axis=(1, 2, 3)))
        for i in range(v.shape[0]):
            d = float(np.sum(v[i] - u[i]))
            ctx.require(abs(d) <= 2e-13 * size[i] + 1e-300, lambda: f"step {k + 1}: total of variable {i} changed by {d:.3e} (magnitudes {size[i]:.3g})")
        u = v
    for i in range(u.shape[0]):
        d = float(np.sum(u[i] - u0[i]))
        ctx.require(abs(d) <= 1e-12 * size[i] + 1e-300, lambda: f"after {r.steps} steps: total of variable {i} changed by {d:.3e} (magnitudes {size[i]:.3g})")
    ctx.outcome("regime")


def run(case, ctx):
    if case["k"] == "regime":
        return regime(case, ctx)
    dims = case["dims"]
    n, p = shape_for(dims, case["n"]), degrees_for(dims, case["p"])
    kw = LIM[case["lim"]]
    if case["k"] == "field":
        w = state(case["kind"], n, case["np"], dims=dims)
        if case["kind"] == "rough" and max(p) > 4 and case["lim"] in ("off", "unlimited fallback"):
            w = state("mild", n, case["np"])
        if case["rs"] == "advection_upwind":
            w[1:4] = np.array([0.4, -0.3, 0.2]).reshape(3, 1, 1, 1)
        s = solver(n, p, w=w, rs=case["rs"], CFL=0.4, **kw)
        u = U(s)
        for k in range(case["steps"]):
            advance(s, case["ig"], 1)
            ctx.step()
            v = U(s)
            ctx.state(v)
            totals_kept(ctx, u, v, f"step {k + 1}")
            u = v
        if kw:
            tr = trouble(s)
            ctx.outcome("no trouble" if not tr.any() else ("all troubled" if (tr > 0).all() else "some trouble"))
        return
    if case["k"] == "words":
        for word in words(case["letters"], int(np.prod(n))):
            w = letters_state(n, word, LET, jitter=0.05)
            s = solver(n, p, w=w, rs=case["rs"], CFL=0.3, **kw)
            u = U(s)
            dt, d = rhs(s)
            ctx.step()
            ctx.state(d)
            totals_kept(ctx, u, u + dt * d, f"word {word}")
        return
    # all (or all single-cell) trouble patterns
    N = int(np.prod(n))
    pats = itertools.product((0, 1), repeat=N) if case["k"] == "patterns" else [tuple(int(i == j) for i in range(N)) for j in range(N)]
    base = state("rough", n, 1)
    for pat in pats:
        w = base.copy()
        w[3] = np.array(pat, dtype=float).reshape(n)
        s = solver(n, p, w=w, rs=case["rs"], **kw)
        u = U(s)
        dt, d = rhs(s)
        ctx.step()
        ctx.state(d)
        ctx.outcome(f"{sum(pat)} troubled")
        # fixed tiny step: compare rates instead of states
        for v in range(u.shape[0]):
            mag = float(np.sum(np.abs(d[v])))
            tot = float(np.sum(d[v]))
            ctx.require(abs(tot) <= 1e-11 * max(mag, 1.0), lambda: f"trouble pattern {pat}: total rate of variable {v} is {tot:.3e} (magnitudes {mag:.3g})")
