"""C02: closed reflective boxes keep mass, energy, scalars and wall-free momentum."""
from mc.fvlib import *

ID = "C02"
TECHNIQUE = "exhaustive bounded exploration of solver runs; invariant: totals in closed boxes"
RULE = (
    "case = assignment of reflective/periodic to the active axes (at least one wall pair) x degrees x Riemann solver x "
    "limiter setting x initial state; states include all sign patterns of the velocity next to the walls and all "
    "single-cell trouble positions; every step is summed"
)
BOUNDS = dict(
    quick="1-3 active axes, degrees 0-8 (1D), 0-4 (2D), 0-1 (3D), 1-3 steps; plus a table of 34 regimes (faint, supersonic, blast, long, stretched, ... : fvlib.REGIMES); plus 274 combined settings covering every triple of option values that can be combined (mc/combos.py)",
    thorough="degrees 0-8 (1D), 0-6 (2D), 0-2 (3D), all words of length 6, 5 steps; regimes with more axis sets and degrees",
)
ASSUMPTIONS = ["NumPy back end", "relative tolerance 1e-11 per step on the sum of magnitudes"]
LET = {"l": (1.0, -0.6, 0.4, 0.1, 1.0), "r": (0.5, 0.7, -0.5, 0.2, 0.7), "s": (1.5, 0.0, 0.0, 0.0, 1.4)}


def bcs_for(dims):
    out = []
    for t in itertools.product(("reflective", "periodic"), repeat=len(dims)):
        if "reflective" in t:
            out.append("".join(c[0] for c in t))
    return out


def cases(tier):
    th = tier == "thorough"
    out = []
    lims = [l for l in LIM if not l.startswith("pattern")]
    for dims in DIMSETS:
        d = len(dims)
        ps = range(9) if d == 1 else (range(7) if th else (0, 1, 2, 3)) if d == 2 else ((0, 1, 2) if th else (0, 1))
        for b in bcs_for(dims):
            for p, lim, rs in itertools.product(ps, lims, ("hllc", "llf")):
                if d == 3 and "convex" in lim:
                    continue
                if d == 3 and not th and lim not in ("off", "minmod", "forced", "tight no SED", "local"):
                    continue
                kinds = ("rough", "smooth") if d < 3 or th else ("rough",)
                for kind in kinds:
                    out.append(dict(k="field", dims=dims, b=b, p=p, lim=lim, rs=rs, ig="auto", kind=kind, steps=5 if th else (3 if d == 1 else 2)))
    for dims, ig, lim, p in itertools.product(("x", "y", "z", "xy", "yz"), INTEGRATORS, ("off", "tight no SED"), (0, 1, 2)):
        for b in bcs_for(dims):
            out.append(dict(k="field", dims=dims, b=b, p=p, lim=lim, rs="hllc", ig=ig, kind="rough", steps=3))
    for q in itertools.product(range(5 if th else 4), repeat=2):
        for dims, b in itertools.product(("xy", "xz", "yz"), ("rr", "rp", "pr")):
            out.append(dict(k="field", dims=dims, b=b, p=list(q), lim="tight no SED", rs="hllc", ig="euler", kind="rough", steps=1))
    for dims, p, lim, rs in itertools.product("xyz", (0, 1, 2), ("off", "tight no SED", "convex tight"), ("hllc", "llf")):
        out.append(dict(k="words", dims=dims, b="r", p=p, lim=lim, rs=rs, L=6 if th else 5))
    for dims, lim in itertools.product(("x", "y", "z", "xy", "xz", "yz"), ("pattern", "pattern convex")):
        for b in bcs_for(dims):
            for p in (1, 2):
                out.append(dict(k="single", dims=dims, b=b, p=p, lim=lim, rs="hllc"))
    for c in regime_cases():
        d = len(c["dims"])
        for b in {1: ["r"], 2: ["rr", "rp"], 3: ["rpr"]}[d]:
            if d == 3 and (c["p"] > 1 or (c["reg"] in ("large", "long") and c["rs"] == "llf")):
                continue
            out.append(dict(c, b=b))
    # every triple of option values
    for c in combo_cases(walls=True):
        for b in {1: ["r"], 2: ["rr", "rp", "pr"], 3: ["rpr"]}[len(c["dims"])]:
            out.append(dict(c, b=b))
    return uniq(out)


def mesh(dims, b, p, lim, wide=0):
    n = []
    g = mirror_width(p, lim != "off") + wide
    j = 0
    for a in AX:
        if a in dims:
            n.append(max(g, 3) if b[j] == "r" else max(4, 7 if len(dims) < 3 else 4))
            j += 1
        else:
            n.append(1)
    return tuple(n)


def bcspec(dims, b):
    return {a: ["reflective"] * 2 if b[dims.index(a)] == "r" else ["periodic"] * 2 for a in dims}


def check(ctx, u0, u1, dims, b, what, scale):
    ctx.require(np.all(np.isfinite(u1)), f"{what}: non-finite state")
    walls = [AX.index(a) for a, c in zip(dims, b) if c == "r"]
    for v in range(u0.shape[0]):
        if v - 1 in walls and 1 <= v <= 3:
            continue
        mag = float(np.sum(np.abs(u0[v])) + np.sum(np.abs(u1[v])))
        d = float(np.sum(u1[v]) - np.sum(u0[v]))
        ctx.require(abs(d) <= 1e-11 * max(mag, 1.0) * scale, lambda: f"{what}: total of variable {v} changed by {d:.3e} (magnitudes {mag:.3g})")


def regime(case, ctx):
    dims, b = case["dims"], case["b"]
    p = degrees_for(dims, case["p"])
    g = mirror_width(p, case["lim"] != "off")
    r = Regime(case["reg"], dims, npass=2, at_least=[g if a in dims and b[dims.index(a)] == "r" else 1 for a in AX])
    s = r.solver(p, case["lim"], case["rs"], bc=bcspec(dims, b))
    walls = [AX.index(a) for a, c in zip(dims, b) if c == "r"]
    u = u0 = U(s)
    size = np.sum(magnitudes(u), axis=(1, 2, 3))

    def kept(v, ref, tol, what):
        for i in range(v.shape[0]):
            if 1 <= i <= 3 and i - 1 in walls:
                continue
            d = float(np.sum(v[i] - ref[i]))
            ctx.require(abs(d) <= tol * size[i] + 1e-300, lambda: f"{what}: total of variable {i} changed by {d:.3e} (magnitudes {size[i]:.3g})")

    for k in range(r.steps):
        r.go(s, 1)
        ctx.step()
        v = U(s)
        ctx.state(v)
        ctx.require(np.all(np.isfinite(v)), f"step {k + 1}: non-finite state")
        size = np.maximum(size, np.sum(magnitudes(v), axis=(1, 2, 3)))
        kept(v, u, 2e-13, f"step {k + 1}")
        u = v
    kept(u, u0, 1e-12, f"after {r.steps} steps")
    ctx.outcome("regime")


def run(case, ctx):
    if case["k"] == "regime":
        return regime(case, ctx)
    dims, b = case["dims"], case["b"]
    p = degrees_for(dims, case["p"])
    kw = LIM[case["lim"]]
    bc = bcspec(dims, b)
    n = mesh(dims, b, p, case["lim"])
    if case["k"] == "field":
        w = state(case["kind"], n, 1, dims=dims)
        if case["kind"] == "rough" and max(p) > 3 and case["lim"] in ("off", "unlimited fallback"):
            w = state("mild", n, 1)
        s = solver(n, p, w=w, rs=case["rs"], bc=bc, CFL=0.4, **kw)
        u = U(s)
        for k in range(case["steps"]):
            advance(s, case["ig"], 1)
            ctx.step()
            v = U(s)
            ctx.state(v)
            check(ctx, u, v, dims, b, f"step {k + 1}", 1.0)
            u = v
    elif case["k"] == "words":
        n = shape_for(dims, max(case["L"], n[AX.index(dims)]))
        rest = int(np.prod(n)) - case["L"]
        for word in words("lrs", case["L"]):
            # the word meets both walls, the middle is filled with the resting letter
            full = word[:3] + "s" * rest + word[3:]
            w = letters_state(n, full, LET, jitter=0.05, npass=1)
            # velocity of the letters points along the active axis
            i = AX.index(dims)
            w[[1, 1 + i]] = w[[1 + i, 1]]
            s = solver(n, p, w=w, rs=case["rs"], bc=bc, CFL=0.3, **kw)
            u = U(s)
            dt, d = rhs(s)
            ctx.step()
            ctx.state(d)
            check(ctx, u, u + dt * d, dims, b, f"word {full}", 1.0)
    else:
        base = state("rough", n, 1)
        N = int(np.prod(n))
        for c in range(N):
            pat = np.zeros(N)
            pat[c] = 1
            w = base.copy()
            if "z" in dims:  # keep z-flow symmetric data out of the flag variable
                kw2 = dict(kw)
                kw2["PAD"] = {"vx": (-np.inf, 0.5)} if "x" not in dims else {"vy": (-np.inf, 0.5)} if "y" not in dims else kw["PAD"]
                var = 1 if "x" not in dims else 2 if "y" not in dims else 3
            else:
                kw2, var = kw, 3
            w[var] = pat.reshape(n)
            s = solver(n, p, w=w, rs=case["rs"], bc=bc, **kw2)
            dt, d = rhs(s)
            ctx.step()
            ctx.state(d)
            walls = [AX.index(a) for a, cc in zip(dims, b) if cc == "r"]
            for v in range(d.shape[0]):
                if 1 <= v <= 3 and v - 1 in walls:
                    continue
                mag, tot = float(np.sum(np.abs(d[v]))), float(np.sum(d[v]))
                ctx.require(abs(tot) <= 1e-11 * max(mag, 1.0), lambda: f"trouble in cell {c}: total rate of variable {v} is {tot:.3e} (magnitudes {mag:.3g})")
