"""C18: every pattern of troubled cells: face weights, and the right-hand side they lead to."""
from fvhoe.slope_limiting import broadcast_to_troubled_interfaces
from mc.checks.c14 import ref_llf
from mc.checks.c16 import slope
from mc.fvlib import *

ID = "C18"
TECHNIQUE = "exhaustive enumeration of trouble patterns on small meshes through the real face broadcast and the real right-hand side; oracle: distance-based weights and reference blended fluxes"
RULE = (
    "weight cases = mesh x active directions x periodicity x simple/convex, inside: every subset of cells troubled; "
    "flux cases = the same patterns forced on the solver by marking cells, right-hand side against reference blended fluxes (degree 0/1) "
    "or against the unlimited and fully limited right-hand sides (degree 2-4); neutral cases = limiter on, nothing troubled"
)
BOUNDS = dict(
    quick="all patterns on 1-9 cells (1D), 3x4, 2x2, 1x5, 5x2 (2D), 2x2x2, 3x2x1 (3D); solver: 2^6 (1D), 2^9 (2D), 2^8 (3D) patterns, and every block of 1-4 cells troubled or clean on 24 (1D) and 6x5 (2D) cells, single cells and pairs on 160 (1D), 17x15 (2D), 7x6x5 (3D) cells; plus 274 combined settings covering every triple of option values that can be combined (mc/combos.py)",
    thorough="4x4 (2D), 3x2x2 (3D) weights; solver 2^8 (1D), 2^12 (2D)",
)
ASSUMPTIONS = ["cells are marked through the physical admissible range of a transverse velocity, with a step too small to move it"]


def cases(tier):
    th = tier == "thorough"
    out = []
    m1 = [[n] for n in range(1, 10)]
    m2 = [[3, 4], [4, 3], [2, 2], [1, 5], [5, 2], [3, 3]] + ([[4, 4]] if th else [])
    m3 = [[2, 2, 2], [3, 2, 1]] + ([[3, 2, 2]] if th else [])
    for convex in (False, True):
        for dims in DIMSETS:
            if convex and len(dims) == 3:
                continue
            for m in (m1, m2, m3)[len(dims) - 1]:
                for per in itertools.product((False, True), repeat=len(dims)):
                    out.append(dict(k="weights", dims=dims, n=m, per=list(per), convex=convex))
    for dims, lim, bc in itertools.product(DIMSETS, ("pattern", "pattern convex", "pattern moncen"), ("periodic", "free")):
        if "convex" in lim and len(dims) == 3:
            continue
        n = {1: [8 if th else 6], 2: [3, 4] if th else [3, 3], 3: [2, 2, 2]}[len(dims)]
        for p in itertools.product((0, 1), repeat=len(dims)):
            if max(p):
                out.append(dict(k="flux", dims=dims, n=n, lim=lim, bc=bc, p=list(p)))
        if len(dims) < 3:
            big = [24] if len(dims) == 1 else [6, 5]
            out.append(dict(k="flux", dims=dims, n=big, lim=lim, bc=bc, p=[1] * len(dims), blocks=True))
            if bc == "periodic":
                out.append(dict(k="local", dims=dims, n=big, lim=lim, bc=bc, p=2, blocks=True))
        wide = {1: [160], 2: [17, 15], 3: [7, 6, 5]}[len(dims)]
        out.append(dict(k="flux", dims=dims, n=wide, lim=lim, bc=bc, p=[1] * len(dims), blocks="few"))
        out.append(dict(k="local", dims=dims, n=wide, lim=lim, bc=bc, p=2, blocks="few"))
        for p in (2, 3) if len(dims) < 3 else (2,):
            out.append(dict(k="local", dims=dims, n=n, lim=lim, bc=bc, p=p))
        for p in (4, 5, 6, 7, 8) if len(dims) == 1 else ():
            out.append(dict(k="local", dims=dims, n=[14], lim=lim, bc=bc, p=p, blocks=True))
    for dims, bc in itertools.product(DIMSETS, ("periodic", "free")):
        n = {1: [6], 2: [3, 2], 3: [2, 2, 1]}[len(dims)]
        if len(dims) < 3:
            out.append(dict(k="flux", dims=dims, n=n, lim="pattern convex moncen", bc=bc, p=[1] * len(dims)))
            out.append(dict(k="local", dims=dims, n=n, lim="pattern convex moncen", bc=bc, p=3))
        out.append(dict(k="local", dims=dims, n=n, lim="pattern unlimited", bc=bc, p=2))
    for dims, p, rs, lim, bc in itertools.product(DIMSETS, range(9), ("hllc", "llf"), ("plain", "convex", "moncen"), ("periodic", "free")):
        if lim == "convex" and len(dims) == 3 or len(dims) == 2 and p > 4:
            continue
        if len(dims) == 3 and p > 2:
            continue
        out.append(dict(k="neutral", dims=dims, p=p, rs=rs, lim=lim, bc=bc))
    for dims, lim, rs in itertools.product(DIMSETS, ("forced", "forced moncen", "convex forced", "convex forced moncen"), ("hllc", "llf")):
        if "convex" in lim and len(dims) == 3:
            continue
        out.append(dict(k="forced", dims=dims, lim=lim, rs=rs))
    # every triple of option values
    return out + [dict(c, k="combo") for c in combo_cases(lambda c: c["lim"] != "off", bounded=True)]


def theta(tr, dims, per, convex):
    """weight of every cell of the mesh and of the first ghost layer; tr: bool (nx, ny, nz)"""
    act = [i for i in range(3) if AX[i] in dims]
    W = 3
    pads = [(W, W) if i in act else (0, 0) for i in range(3)]
    t = tr.astype(float)
    for i in act:
        pw = [(0, 0)] * 3
        pw[i] = pads[i]
        t = np.pad(t, pw, mode="wrap") if per[AX[i]] else np.pad(t, pw)
    out = t.copy()
    if convex:
        for off in itertools.product(*[range(-2, 3) if i in act else (0,) for i in range(3)]):
            d = [abs(o) for o in off]
            if sum(d) == 0:
                continue
            wgt = 0.75 if sum(d) == 1 else 0.5 if max(d) == 1 else 0.25
            out = np.maximum(out, wgt * np.roll(t, off, axis=(0, 1, 2)))
    return out, act, W


def faces(tr, dims, per, convex):
    """three arrays of face weights"""
    th, act, W = theta(tr, dims, per, convex)
    res = []
    for i in range(3):
        shp = list(tr.shape)
        shp[i] += 1
        if i not in act:
            res.append(np.zeros(shp))
            continue
        a = th
        for j in act:
            if j != i:
                a = np.take(a, range(W, a.shape[j] - W), axis=j)
        m = tr.shape[i]
        lo = np.take(a, range(W - 1, W + m), axis=i)
        hi = np.take(a, range(W, W + m + 1), axis=i)
        res.append(np.maximum(lo, hi))
    return res


def patterns(n, blocks=False):
    """every subset of cells; or every small block of cells troubled, and every one clean"""
    if blocks == "few":  # one cell, or two, in a large mesh
        at = list(itertools.product(*[sorted({0, k // 3, k - 1}) for k in n]))
        for i, q in enumerate(at):
            for also in (q, at[(i * 5 + 2) % len(at)]):
                t = np.zeros(n, dtype=bool)
                t[q] = t[also] = True
                yield t
        return
    if blocks:
        seen = set()
        for size in itertools.product(*[(1, 2, 3) if k > 1 else (1,) for k in n]):
            if int(np.prod(size)) > 4:
                continue
            for at in np.ndindex(*n):
                t = np.zeros(n, dtype=bool)
                t[np.ix_(*[[(a + j) % k for j in range(m)] for a, m, k in zip(at, size, n)])] = True
                for q in (t, ~t):
                    if q.tobytes() not in seen:
                        seen.add(q.tobytes())
                        yield q
        return
    N = int(np.prod(n))
    for k in range(2**N):
        yield np.array([(k >> j) & 1 for j in range(N)], dtype=bool).reshape(n)


def run(case, ctx):
    {"weights": weights, "flux": flux, "local": local, "neutral": neutral, "forced": forced, "combo": combo}[case["k"]](case, ctx)


def weights(case, ctx):
    dims = case["dims"]
    n = shape_for(dims, case["n"])
    per = {a: False for a in AX}
    per.update(zip(dims, case["per"]))
    others = [a for a in AX if a not in dims]
    for k, tr in enumerate(patterns(n)):
        arg = (tr.astype(int), tr, tr.astype(float))[k % 3]
        keep = arg.copy()
        pf = dict(per)
        for a in others:  # an inactive direction is periodic by default
            pf[a] = bool(k & 1)
        got = broadcast_to_troubled_interfaces(arg, dims=dims, convex=case["convex"], periodic_x=pf["x"], periodic_y=pf["y"], periodic_z=pf["z"])
        ctx.step()
        ctx.require(np.array_equal(arg, keep), "the input was modified")
        ref = faces(tr, dims, per, case["convex"])
        for a, g, r in zip(AX, got, ref):
            g = np.asarray(g, dtype=float)
            ctx.require(g.shape == (1,) + r.shape, f"{a} faces have shape {g.shape} instead of {(1,) + r.shape}")
            ctx.require(np.allclose(g[0], r, atol=1e-14), lambda: f"{a} face weights for cells {tr.astype(int).tolist()}: {g[0].tolist()} instead of {r.tolist()}")
        ctx.state(tr, dims, tuple(case["per"]), case["convex"])
    ctx.outcome("weight patterns", 2 ** int(np.prod(n)))


def marked(tr, n, dims):
    """state whose marked cells have vz near 1, others near 0"""
    w = state("rough", n)
    w[3] = np.where(tr, 1.0, 0.0) + 0.1 * (noise(n, 77) - 0.5)
    return w


def ghost(w, i, bc, k=2):
    pw = [(0, 0)] * 4
    pw[1 + i] = (k, k)
    return np.pad(w, pw, mode="wrap" if bc == "periodic" else "edge")


DOM = [(0, 1), (0, 1.5), (0, 0.7)]


def flux(case, ctx):
    dims, bc = case["dims"], case["bc"]
    n, p = shape_for(dims, case["n"]), degrees_for(dims, case["p"])
    if any(p[i] == 0 and n[i] == 1 for i in range(3) if AX[i] in dims):
        return
    limiter = LIM[case["lim"]].get("slope_limiter", "minmod")
    per = {a: bc == "periodic" for a in AX}
    for tr in patterns(n, case.get("blocks")):
        w = marked(tr, n, dims)
        s = solver(n, p, w=w, rs="llf", dom=DOM, bc={a: [bc, bc] for a in dims}, **LIM[case["lim"]])
        dt, d = rhs(s)
        ctx.step()
        th = faces(tr, dims, per, "convex" in case["lim"])
        ref = np.zeros_like(d)
        for i in range(3):
            if AX[i] not in dims:
                continue
            g = ghost(w, i, bc)
            ax = 1 + i
            cut = lambda a, lo, hi: np.take(a, range(lo, a.shape[ax] + hi), axis=ax)
            c, dl, dr = cut(g, 1, -1), cut(g, 1, -1) - cut(g, 0, -2), cut(g, 2, 0) - cut(g, 1, -1)
            both = []
            for L in (None, limiter):
                sl = slope(L, dl, dr) if p[i] else 0 * c
                left, right = c - sl / 2, c + sl / 2
                both.append(ref_llf(cut(right, 0, -1), cut(left, 1, 0), i, GAMMA, 1e-10))
            F = (1 - th[i]) * both[0] + th[i] * both[1]
            ref -= (cut(F, 1, 0) - cut(F, 0, -1)) / ((DOM[i][1] - DOM[i][0]) / n[i])
        ctx.close(d, ref, 1e-10, f"right-hand side with cells {tr.astype(int).tolist()} troubled", scale=max(1.0, np.max(np.abs(ref))))
        ctx.state(tr, repr(case))
        ctx.outcome("flux patterns")


def local(case, ctx):
    """cells without a revised face as without limiter, cells with fully revised faces as with every cell troubled"""
    dims, bc = case["dims"], case["bc"]
    n, p = shape_for(dims, case["n"]), degrees_for(dims, case["p"])
    per = {a: bc == "periodic" for a in AX}
    lim = LIM[case["lim"]]
    B = {a: [bc, bc] for a in dims}
    for tr in patterns(n, case.get("blocks")):
        w = marked(tr, n, dims)
        s = solver(n, p, w=w, bc=B, **lim)
        _, d = rhs(s)
        s.euler(n=1)
        rec = trouble(s)
        # the recorded flags decide: with degree above one averages of a marked line may leave the mark
        tr2 = rec.reshape(n) > 0
        _, high = rhs(solver(n, p, w=w, bc=B, fixed_dt=1e-9))
        _, low = rhs(solver(n, p, w=w, bc=B, **dict(lim, force_trouble=True)))
        ctx.step(4)
        th = faces(tr2, dims, per, "convex" in case["lim"])
        zero, one = np.ones(n, dtype=bool), np.ones(n, dtype=bool)
        for i in range(3):
            if AX[i] in dims:
                lo, hi = np.take(th[i], range(0, n[i]), axis=i), np.take(th[i], range(1, n[i] + 1), axis=i)
                zero &= (lo == 0) & (hi == 0)
                one &= (lo == 1) & (hi == 1)
        sc = max(1.0, np.max(np.abs(high)), np.max(np.abs(low)))
        ctx.close(d[:, zero], high[:, zero], 1e-10, f"cells away from trouble {tr2.astype(int).tolist()}", scale=sc)
        ctx.close(d[:, one], low[:, one], 1e-10, f"cells between revised faces {tr2.astype(int).tolist()}", scale=sc)
        ctx.outcome("untouched cells", int(zero.sum()))
        ctx.outcome("fully revised cells", int(one.sum()))
        ctx.state(tr, repr(case))


def neutral(case, ctx):
    dims, p = case["dims"], degrees_for(case["dims"], case["p"])
    n = shape_for(dims, {1: 12, 2: 6, 3: 4}[len(dims)])
    extra = {"plain": {}, "convex": dict(convex=True), "moncen": dict(slope_limiter="moncen")}[case["lim"]]
    B = {a: [case["bc"]] * 2 for a in dims}
    for kind in ("rough", "smooth"):
        w = state(kind, n, npass=1)
        a = solver(n, p, w=w, rs=case["rs"], bc=B)
        b = solver(n, p, w=w, rs=case["rs"], bc=B, a_posteriori_slope_limiting=True, NAD=1e9, PAD={}, SED=False, **extra)
        da, db = rhs(a), rhs(b)
        ctx.close(db[1], da[1], 1e-12, "right-hand side with limiter on but no trouble", scale=max(1.0, np.max(np.abs(da[1]))))
        a.euler(n=2), b.euler(n=2)
        ctx.close(U(b), U(a), 1e-12, "state with limiter on but no trouble", scale=max(1.0, np.max(np.abs(U(a)))))
        ctx.require(np.all(trouble(b) == 0), "trouble recorded")
        ctx.close(b.timestamps, a.timestamps, 1e-12, "times")
        ctx.step(6)
        ctx.state(w, repr(case))
    ctx.outcome("neutral")


def forced(case, ctx):
    """every cell troubled: independent of the degree (at equal step size)"""
    dims = case["dims"]
    n = shape_for(dims, {1: 12, 2: 5, 3: 3}[len(dims)])
    w = state("rough", n, npass=1)
    base = None
    ps = list(itertools.product({1: range(1, 9), 2: (1, 2, 3, 4), 3: (1, 2, 3)}[len(dims)], repeat=len(dims)))
    for p in ps:
        s = solver(n, degrees_for(dims, list(p)), w=w, rs=case["rs"], fixed_dt=1e-3, **LIM[case["lim"]])
        _, d = rhs(s)
        s.ssprk2(n=2)
        ctx.step(3)
        if base is None:
            base = (d, U(s))
        ctx.close(d, base[0], 1e-11, f"right-hand side, degrees {p}", scale=max(1.0, np.max(np.abs(base[0]))))
        ctx.close(U(s), base[1], 1e-11, f"state, degrees {p}")
        ctx.require(np.all(trouble(s) == 1), "forced trouble is not recorded everywhere")
        ctx.state(repr(case), p)
    ctx.outcome("degree-independent")


def combo(case, ctx):
    """criteria that never fire change nothing; with every cell troubled the degree does not matter"""
    dims, p = case["dims"], degrees_for(case["dims"], case["p"])
    r = Regime(case["reg"], dims, at_least=[10 if c in dims and "bc" in case["reg"] else 1 for c in AX])

    def go(p, lim, **over):
        s = r.solver(p, lim, case["rs"], **over)
        dt, d = rhs(s)
        s = r.solver(p, lim, case["rs"], **over)
        r.go(s, 2)
        ctx.step(3)
        return dt, d, U(s), np.array(s.timestamps), s

    a = go(p, "off")
    if np.all(np.isfinite(a[2])):
        never = dict(case["lim"], NAD=1e9, PAD={}, SED=False, force_trouble=False, NAD_range="relative")
        b = go(p, never)
        sz = np.max(magnitudes(a[2]), axis=(1, 2, 3)).reshape(-1, 1, 1, 1) + 1e-300
        ctx.close(b[0], a[0], 1e-11, "time step with criteria that never fire", scale=a[0])
        ctx.close(b[1] * a[0] / sz, a[1] * a[0] / sz, 1e-11, "rates with criteria that never fire")
        ctx.close(b[2] / sz, a[2] / sz, 1e-10, "state with criteria that never fire")
        ctx.close(b[3], a[3], 1e-11, "times with criteria that never fire", scale=a[3][-1])
        ctx.require(np.all(trouble(b[4]) == 0), "trouble recorded by criteria that never fire")
        ctx.outcome("never troubled")
    if max(p) > 0:
        q = tuple(x + 1 if x else 0 for x in p)
        lim = dict(case["lim"], force_trouble=True)
        kw = {} if "fixed_dt" in r.kw else dict(fixed_dt=0.4 * r.span)
        r.ig = "ssprk2" if r.ig == "auto" else r.ig  # the automatic choice depends on the degree
        a, b = go(p, lim, **kw), go(q, lim, **kw)
        sz = np.max(magnitudes(a[2]), axis=(1, 2, 3)).reshape(-1, 1, 1, 1) + 1e-300
        ctx.close(b[1] * a[0] / sz, a[1] * a[0] / sz, 1e-10, f"rates with every cell troubled, degrees {p} and {q}")
        ctx.close(b[2] / sz, a[2] / sz, 1e-9, f"state with every cell troubled, degrees {p} and {q}")
        ctx.require(np.all(trouble(a[4]) == 1) and np.all(trouble(b[4]) == 1), "forced trouble is not recorded everywhere")
        ctx.outcome("always troubled")
    ctx.state(repr(case))
