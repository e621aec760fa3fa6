"""C21: mesh, initial profiles, initial cell averages."""
from fvhoe import initial_conditions as IC
from fvhoe.fv import fv_uniform_meshgen
from fvhoe.hydro import HydroState
from mc.fvlib import *

ID = "C21"
TECHNIQUE = "exhaustive enumeration of initial-condition classes x directions x parameters x meshes x degrees; the real profiles, meshes and initial averages against independent references at every point"
RULE = (
    "mesh cases = sizes x domains x slab thickness; profile cases = class x directions x parameter sets, every point of a 3D lattice; "
    "blast cases = mode x directions x mesh shape x energies, energy summed over the mesh; average cases = direction set x degrees x "
    "domain x declaration (primitive, conserved, averaged) x scalars, on profiles that are polynomials of the degree"
)
BOUNDS = dict(
    quick="lattices of 21x20x19 points on three scales, points 2e-9 on both sides of every jump met along lattice lines; meshes up to 6 cells per direction, 4 domains, degrees 0-8",
    thorough="all degree combinations per direction up to 4, meshes up to 8 cells per direction",
)
ASSUMPTIONS = ["lattice points avoid the discontinuities themselves", "blast directions left out of dims have unit thickness"]

DOMS = [[(0, 1), (0, 1), (0, 1)], [(-1, 2), (0.5, 0.75), (-3, -2)], [(0, 1e-3), (0, 1), (-50, 50)], [(2, 5), (-0.5, 0.5), (0, 4)]]


def params():
    """class name, keyword arguments, reference function of (x, y, z) -> (rho, vx, vy, vz, P)"""
    out = []
    subsets = ["", "x", "y", "z", "xy", "yx", "xz", "yz", "xyz", "zyx"]
    flows = [{}, dict(rho_min_max=(0.5, 4), P=2.5, vx=-0.5, vy=3, vz=0.25)]
    for cls in ("Sinus", "Square"):
        for d, kw in itertools.product(subsets, flows):
            out.append((cls, dict(dims=d, **kw)))
        out.append((cls, {}))
    out += [("SlottedDisk", {}), ("SlottedDisk", dict(rho_min_max=(0.3, 7), P=4))]
    for d in "xyz":
        out += [("Shock1D", dict(dim=d)), ("Shock1D", dict(dim=d, position=0.3, rho_left_right=(2, 3), P_left_right=(4, 5), v_left_right=(6, -7)))]
        out += [("DoubleShock1D", dict(dim=d)), ("DoubleShock1D", dict(dim=d, positions=(0.2, 0.4), rhos=(1, 2, 3), vs=(-1, 4, 5), Ps=(6, 7, 8)))]
        out += [("ShuOsher1D", dict(dim=d))]
    out += [("Shock1D", {}), ("DoubleShock1D", {}), ("ShuOsher1D", {})]
    out += [("KelvinHelmholtz2D", {}), ("KelvinHelmholtz2D", dict(sigma=0.2, w0=-0.7))]
    out += [("DoubleMachReflection2D", {}), ("DoubleMachReflection2D", dict(gamma=1.25))]
    tube = dict(rho_in_out=(3, 2), P_in_out=(5, 4), vx_in_out=(1, -1), vy_in_out=(0.5, 7), vz_in_out=(-8, 9))
    out += [("ShockTube", {})]
    for d in ("x", "y", "z", "xy", "yx", "xz", "zx", "yz", "xyz", "zyx"):
        c = (0.31, 0.52, 0.77)[: len(d)]
        out += [("ShockTube", dict(dims=d, center=c, radius=0.33, **tube)), ("ShockTube", dict(dims=d, center=c, radius=0.6))]
        if len(d) == 1:
            out += [("ShockTube", dict(dims=d, center=0.4, radius=0.2, **tube))]
    for k in range(1, 8):
        cube = {f"{a}_cube": [(0.2, 0.6), (0.1, 0.5), (0.4, 0.9)][i] for i, a in enumerate(AX) if k >> i & 1}
        out.append(("ShockTube", dict(mode="cube", **cube, **tube)))
    out += [("AthenaBlast", {})]
    return out


def pair(d, k, a, b):
    return d.get(k, (a, b))


def reference(cls, kw, x, y, z):
    X = dict(x=x, y=y, z=z)
    one = np.ones_like(x)
    if cls in ("Sinus", "Square"):
        dims = kw.get("dims", "x")
        lo, hi = kw.get("rho_min_max", (1, 2))
        if cls == "Sinus":
            r = sum((X[a] for a in dims), 0 * x)
            rho = lo + (hi - lo) * (1 + np.sin(2 * np.pi * r)) / 2
        else:
            inside = one > 0
            for a in dims:
                inside = inside & (np.abs(X[a] - 0.5) < 0.25)
            rho = np.where(inside, hi, lo)
        return rho, kw.get("vx", 1) * one, kw.get("vy", 0) * one, kw.get("vz", 0) * one, kw.get("P", 1) * one
    if cls == "SlottedDisk":
        lo, hi = kw.get("rho_min_max", (1, 2))
        inside = (np.hypot(x - 0.5, y - 0.75) < 0.15) & ~((x > 0.475) & (x < 0.525) & (y < 0.85))
        return np.where(inside, hi, lo), 0.5 - y, x - 0.5, 0 * one, kw.get("P", 1) * one
    if cls in ("Shock1D", "DoubleShock1D", "ShuOsher1D"):
        d = kw.get("dim", "x")
        r = X[d]
        if cls == "Shock1D":
            left = r < kw.get("position", 0.5)
            f = lambda key, a, b: np.where(left, *kw.get(key, (a, b)))
            rho, P, v = f("rho_left_right", 1, 0.125), f("P_left_right", 1, 0.1), f("v_left_right", 0, 0)
        elif cls == "DoubleShock1D":
            a, b = kw.get("positions", (0.1, 0.9))
            f = lambda key, dflt: np.select([r < a, r < b], kw.get(key, dflt)[:2], kw.get(key, dflt)[2])
            rho, v, P = f("rhos", (1, 1, 1)), f("vs", (0, 0, 0)), f("Ps", (1e3, 1e-2, 1e2))
        else:
            left = r < 1
            rho = np.where(left, 3.857143, 1 + 0.2 * np.sin(5 * (r - 5)))
            v, P = np.where(left, 2.629369, 0), np.where(left, 10.33333, 1)
        vel = [v if a == d else 0 * one for a in AX]
        return rho, vel[0], vel[1], vel[2], P
    if cls == "KelvinHelmholtz2D":
        s, w0 = kw.get("sigma", 0.05 * math.sqrt(2)), kw.get("w0", 0.1)
        inner = np.abs(y - 0.5) < 0.25
        vy = w0 * np.sin(4 * np.pi * x) * (np.exp(-((y - 0.25) ** 2) / (2 * s * s)) + np.exp(-((y - 0.75) ** 2) / (2 * s * s)))
        return np.where(inner, 2, 1), np.where(inner, 0.5, -0.5), vy, 0 * one, 2.5 * one
    if cls == "DoubleMachReflection2D":
        post = x < 1 / 6 + y / math.sqrt(3)
        return np.where(post, 8, kw.get("gamma", 1.4)), np.where(post, 7.145, 0), np.where(post, -4.125, 0), 0 * one, np.where(post, 116.5, 1)
    if cls == "ShockTube":
        if kw.get("mode", "tube") == "cube":
            inside = one > 0
            for a in AX:
                c = kw.get(f"{a}_cube")
                if c is not None:
                    inside = inside & (X[a] >= c[0]) & (X[a] <= c[1])
        else:
            dims, c = kw.get("dims", "x"), kw.get("center", 0.0)
            c = (c,) if not isinstance(c, (tuple, list)) else c
            inside = sum(((X[a] - q) ** 2 for a, q in zip(dims, c)), 0 * x) <= kw.get("radius", 0.5) ** 2
        f = lambda key, a, b: np.where(inside, *kw.get(key, (a, b)))
        return f("rho_in_out", 1, 0.125), f("vx_in_out", 0, 0), f("vy_in_out", 0, 0), f("vz_in_out", 0, 0), f("P_in_out", 1, 0.1)
    if cls == "AthenaBlast":
        return one, 0 * one, 0 * one, 0 * one, np.where(np.hypot(x, y) < 0.1, 10, 0.1)
    raise ValueError(cls)


def cases(tier):
    th = tier == "thorough"
    out = []
    sizes = [(1, 1, 1), (5, 1, 1), (1, 4, 1), (1, 1, 3), (2, 3, 4), (6, 5, 2)] + ([(8, 7, 3), (40, 1, 1)] if th else [])
    for n, d, g in itertools.product(sizes, range(4), [(0, 0, 0), (1, 1, 1), (3, 0, 0), (0, 2, 4), (5, 3, 2), (30, 0, 30)]):
        out.append(dict(k="mesh", n=list(n), dom=d, g=list(g)))
    for i, (cls, kw) in enumerate(params()):
        out.append(dict(k="profile", i=i, cls=cls, kw=repr(kw)))
        out.append(dict(k="solver profile", i=i, cls=cls, kw=repr(kw)))
    for mode, dims in itertools.product(("corner", "center"), ("x", "y", "z", "xy", "xz", "yz", "xyz")):
        for m in itertools.product((2, 3, 4, 5, 6, 8), repeat=len(dims)) if len(dims) < 3 else itertools.product((2, 3, 4), repeat=3):
            out.append(dict(k="blast", mode=mode, dims=dims, n=list(m)))
    for dims in DIMSETS:
        ps = itertools.product(range(5), repeat=len(dims)) if th or len(dims) < 3 else itertools.product((0, 1, 2), repeat=3)
        ps = [list(p) for p in ps] + ([[p] * len(dims) for p in range(5, 9)] if len(dims) < 3 else [[3] * 3, [4, 2, 3], [6, 6, 6], [7, 8, 7], [8, 8, 8]])
        for p, d in itertools.product(ps, range(4)):
            out.append(dict(k="average", dims=dims, p=p, dom=d))
            if all(p) and len(set(p)) == 1 and p[0] < 5:  # as few as one cell along a resolved direction
                for n in itertools.product((1, 2, 5), repeat=len(dims)):
                    if min(n) == 1 and max(n) < 5 or n == (1, 5) or n == (5, 1):
                        out.append(dict(k="average", dims=dims, p=p, dom=d, n=list(n)))
    return uniq(out)


def run(case, ctx):
    {"mesh": mesh, "profile": profile, "solver profile": solver_profile, "blast": blast, "average": average}[case["k"]](case, ctx)


def line(lo, hi, m, g=0):
    h = (hi - lo) / m
    return lo + h * (np.arange(-g, m + g) + 0.5)


def mesh(case, ctx):
    n, dom, g = case["n"], DOMS[case["dom"]], case["g"]
    inner = [line(*dom[i], n[i]) for i in range(3)]
    got = fv_uniform_meshgen(tuple(n), x=tuple(dom[0]), y=tuple(dom[1]), z=tuple(dom[2]), **({} if g == [0, 0, 0] else dict(slab_thickness=tuple(g))))
    ctx.step()
    if g == [0, 0, 0]:
        sets = [("mesh", got, inner)]
    else:
        sets = [("inner mesh", got[0], inner)]
        ctx.require(sorted(got[1]) == sorted(a + s for a in AX for s in "lr"), f"slabs {sorted(got[1])}")
        for i, a in enumerate(AX):
            full = [line(*dom[j], n[j], g[j]) for j in range(3)]
            for s in "lr":
                c = list(full)
                c[i] = full[i][: g[i]] if s == "l" else full[i][len(full[i]) - g[i] :]
                sets.append((a + s, got[1][a + s], c))
    for name, arrs, c in sets:
        ref = np.meshgrid(*c, indexing="ij")
        ctx.require(len(arrs) == 3, "three coordinates")
        for i in range(3):
            ctx.close(arrs[i], ref[i], 1e-13, f"{name}: {AX[i]} coordinates", scale=max(np.abs(dom[i]).max(), dom[i][1] - dom[i][0]) * (1 + g[i] / n[i]))
            ctx.state(name, ref[i])
    ctx.outcome("meshes")


def lattice(shape=(21, 20, 19), lo=-0.283, hi=1.291):
    c = [np.linspace(lo + 0.0013 * i, hi + 0.0011 * i, m) for i, m in enumerate(shape)]
    return np.meshgrid(*c, indexing="ij")


def make(i):
    cls, kw = params()[i]
    return cls, kw, getattr(IC, cls)(**kw)


def edges(cls, kw, scale):
    """points 2e-9 on both sides of every jump of the reference along the lines of the lattice"""
    grid = [scale * c for c in lattice((23, 22, 9))]
    val = lambda q: np.array([np.broadcast_to(r, q[0].shape) for r in reference(cls, kw, *q)], dtype=float)
    pts = []
    for a in range(3):
        g = [np.moveaxis(c, a, 0) for c in grid]
        lo, hi = [c[:-1].ravel() for c in g], [c[1:].ravel() for c in g]
        keep = np.any(np.abs(val(lo) - val(hi)) > 1e-3, axis=0)
        lo, hi = [c[keep] for c in lo], [c[keep] for c in hi]
        for _ in range(40):
            mid = [(l + h) / 2 for l, h in zip(lo, hi)]
            vl, vm, vh = val(lo), val(mid), val(hi)
            left = np.sum(np.abs(vm - vl), axis=0) >= np.sum(np.abs(vh - vm), axis=0)
            lo, hi = [np.where(left, l, m) for l, m in zip(lo, mid)], [np.where(left, m, h) for m, h in zip(mid, hi)]
        keep = np.any(np.abs(val(lo) - val(hi)) > 1e-3, axis=0)
        for sign in (-2e-9, 2e-9):
            q = [l[keep].copy() for l in lo]
            q[a] += sign
            pts.append(q)
    return [np.concatenate(c).reshape(-1, 1, 1) for c in zip(*pts)]


def profile(case, ctx):
    cls, kw, obj = make(case["i"])
    f = obj.build_ic(HydroState(), None)
    for scale in (1.0, 7.0):
        q = edges(cls, kw, scale)
        if q[0].size:
            got = f(x=q[0], y=q[1], z=q[2])
            ref = np.array([np.broadcast_to(r, q[0].shape) for r in reference(cls, kw, *q)], dtype=float)
            for j, nm in enumerate(("rho", "vx", "vy", "vz", "P")):
                ctx.close(got[j], ref[j], 1e-7, f"{cls} {kw}: {nm} next to a jump", scale=max(1e-3, np.max(np.abs(ref[j]))))
            ctx.outcome("points next to jumps", int(q[0].size))
            ctx.step()
    for hs, ps in ((HydroState(), None), (HydroState(passive_scalars=("b", "a")), {"a": lambda x, y, z: x + 2 * y, "b": lambda x, y, z: x * y - z})):
        f = obj.build_ic(hs, ps)
        for scale in (1.0, 7.0, 13.0):
            x, y, z = [scale * c for c in lattice()]
            keep = [c.copy() for c in (x, y, z)]
            got = f(x=x, y=y, z=z)
            ctx.step()
            ctx.require(all(np.array_equal(a, b) for a, b in zip(keep, (x, y, z))), "coordinates were modified")
            ref = np.array([np.broadcast_to(r, x.shape) for r in reference(cls, kw, x, y, z)], dtype=float)
            for j, nm in enumerate(("rho", "vx", "vy", "vz", "P")):
                ctx.close(got[j], ref[j], 1e-12, f"{cls} {kw}: {nm}", scale=max(1e-3, np.max(np.abs(ref[j]))))
            if ps:
                ctx.require(got.shape[0] == 7, "number of variables")
                ctx.close(got[5], x * y - z, 1e-13, "scalar b")
                ctx.close(got[6], x + 2 * y, 1e-13, "scalar a")
            # the profile is pointwise: a permuted subset of points gives the same values
            sel = np.ix_([3, 0, 17, 9], [11, 2, 5], [18, 1])
            sub = f(x[sel], y[sel], z[sel])
            ctx.close(sub, got[(slice(None),) + sel], 1e-13, f"{cls} {kw}: values depend on the other points", scale=max(1.0, np.max(np.abs(got))))
            ctx.state(case["i"], scale, ref)
    ctx.outcome("profiles")


def gauss(f, n, dom, k):
    """cell averages with k Gauss points in every direction"""
    pts, wts = np.polynomial.legendre.leggauss(k)
    c = [line(*dom[i], n[i]) for i in range(3)]
    h = [(dom[i][1] - dom[i][0]) / n[i] for i in range(3)]
    out = 0
    for (a, wa), (b, wb), (d, wd) in itertools.product(zip(pts, wts), repeat=3):
        g = np.meshgrid(c[0] + a * h[0] / 2, c[1] + b * h[1] / 2, c[2] + d * h[2] / 2, indexing="ij")
        out = out + wa * wb * wd / 8 * f(*g)
    return out


def solver_profile(case, ctx):
    """in cells on which the profile is constant the solver starts from exactly that state"""
    cls, kw, obj = make(case["i"])
    for dims, p in (("x", 0), ("xy", 2), ("yz", 1), ("xyz", 3)):
        n = shape_for(dims, {1: 12, 2: [9, 8], 3: [6, 5, 4]}[len(dims)])
        pp = degrees_for(dims, p)
        dom = [(0.0013, 1.0121), (-0.41, 1.0037), (0.0007, 1.3011)]
        s = Quick(w0=obj, nx=n[0], ny=n[1], nz=n[2], px=pp[0], py=pp[1], pz=pp[2], gamma=GAMMA, x=dom[0], y=dom[1], z=dom[2], progress_bar=False)
        u = U(s)
        ctx.step()
        f = lambda x, y, z: cons(np.array([np.broadcast_to(r, x.shape) for r in reference(cls, kw, x, y, z)], dtype=float))
        c = [line(*dom[i], n[i]) for i in range(3)]
        h = [(dom[i][1] - dom[i][0]) / n[i] for i in range(3)]
        # values on a lattice within each cell (only its centre along unresolved directions)
        vals = []
        for off in itertools.product(*[np.linspace(-0.5, 0.5, 7) if a in dims and pp[i] else (0.0,) for i, a in enumerate(AX)]):
            vals.append(f(*np.meshgrid(*[c[i] + off[i] * h[i] for i in range(3)], indexing="ij")))
        lo, hi = np.min(vals, axis=0), np.max(vals, axis=0)
        span = hi - lo
        # wherever it is not constant, the average lies within the range (a little beyond: the lattice is finite)
        slack = 0.35 * span + 1e-12 * (1 + np.abs(hi))
        bad = ~((u >= lo - slack) & (u <= hi + slack))
        ctx.require(not np.any(bad), lambda: f"{cls} {kw} dims {dims} degree {p}: initial value {u[bad][0]!r} outside [{lo[bad][0]!r}, {hi[bad][0]!r}]")
        ctx.outcome("constant entries", int(np.sum(span == 0)))
        ctx.outcome("varying entries", int(np.sum(span != 0)))
        ctx.state(case["i"], dims, u)


def blast(case, ctx):
    mode, dims = case["mode"], case["dims"]
    nd = len(dims)
    for dom, kw in itertools.product(
        ([(0, 1)] * 3, [(0, 2), (-1, 2), (0.5, 0.75)]),
        ({}, dict(E1=2.5, E0=1e-3, rho0=0.7)),
    ):
        dom = [dom[i] if AX[i] in dims else (0, 1) for i in range(3)]
        E1, E0, rho0 = kw.get("E1", 1.0), kw.get("E0", 1e-5), kw.get("rho0", 1.0)
        for p, thick in ((0, 1), (1, 1), (3, 1), (0, 3)):
            if thick > 1 and (mode == "corner" or nd == 3):
                continue
            n = shape_for(dims, case["n"])
            n = tuple(thick if AX[i] not in dims else k for i, k in enumerate(n))
            pp = degrees_for(dims, p)
            s = Quick(w0=IC.SedovBlast(mode=mode, dims=dims, **kw), conservative_ic=True, nx=n[0], ny=n[1], nz=n[2], px=pp[0], py=pp[1], pz=pp[2], x=dom[0], y=dom[1], z=dom[2], progress_bar=False)
            u = U(s)
            ctx.step()
            vol = np.prod([(d[1] - d[0]) / m for d, m in zip(dom, n)])
            hot = u[4] > 2 * E0
            ctx.close(u[0], np.full(n, rho0), 1e-13, "density")
            ctx.require(np.all(u[1:4] == 0), "momentum")
            ctx.close(u[4][~hot], np.full(int((~hot).sum()), E0), 1e-12, "background energy", scale=E0)
            ctx.close(u[4][hot].sum() * vol, E1 / (2**nd if mode == "corner" else 1), 1e-11, f"{mode} blast along {dims} on {n}: deposited energy")
            # where it is
            want = np.zeros(n, dtype=bool)
            if mode == "corner":
                want[0, 0, 0] = True
            else:
                want[tuple(slice(m // 2 - 1, m // 2 + 1) if a in dims else slice(None) for a, m in zip(AX, n))] = True
            ctx.require(np.array_equal(hot, want), lambda: f"{mode} blast along {dims} on {n}: energy in cells {np.argwhere(hot).tolist()}")
            ctx.state(u)
    ctx.outcome("blasts")


def average(case, ctx):
    """profiles whose conserved form is a polynomial of the degree: exact averages, any declaration"""
    dims, dom = case["dims"], DOMS[case["dom"]]
    p = degrees_for(dims, case["p"])
    n = shape_for(dims, case.get("n") or {1: 4, 2: [3, 4], 3: [2, 3, 2]}[len(dims)])
    n = tuple(max(k, 2) if AX[i] in dims and p[i] == 0 else k for i, k in enumerate(n))
    mid = [(d[0] + d[1]) / 2 for d in dom]
    half = [(d[1] - d[0]) / 2 for d in dom]

    def P(deg, a, x, y, z):  # between 0.1 and 1.9
        out = 1.0
        for i, (c, k) in enumerate(zip((x, y, z), deg)):
            s = (c - mid[i]) / half[i] if AX[i] in dims else 0 * c
            q = 0.0
            for j in range(k + 1):
                q = q + math.sin(1.7 * a + 2.3 * i + 3.1 * j + 0.4) * s**j / (k + 1)
            out = out * (1 + 0.6 * q)
        return out

    zero = (0, 0, 0)
    one = tuple(min(1, k) for k in p)
    halfdeg = tuple(k // 2 for k in p)
    third = tuple(k // 3 for k in p)
    # (name, degrees of rho, v, P, scalar) such that every conserved variable has at most the degree
    sets = [("rho", p, zero, p, zero), ("v", zero, halfdeg, p, p), ("both", third, third, p, tuple(k - l for k, l in zip(p, third)))]
    for name, dr, dv, dP, ds in sets:
        W = lambda x, y, z: np.array(
            [P(dr, 1, x, y, z) + 0 * x, P(dv, 2, x, y, z) + 0 * x, -P(dv, 3, x, y, z) + 0 * x, 0.5 * P(dv, 4, x, y, z) + 0 * x, P(dP, 5, x, y, z) + 0 * x, P(ds, 6, x, y, z) + 0 * x, -P(ds, 7, x, y, z) + 0 * x]
        )
        Uf = lambda x, y, z: cons(W(x, y, z), 1.3)
        exact = gauss(Uf, n, dom, max(p) // 2 + 1)
        for decl in ("primitive", "conserved", "averaged"):
            src = W if decl == "primitive" else Uf
            if decl == "averaged":
                src = lambda x, y, z: exact
            s = Quick(
                w0=FuncIC(lambda x, y, z: src(x, y, z)[:5]), w0_passives={"s": lambda x, y, z: src(x, y, z)[5], "r": lambda x, y, z: src(x, y, z)[6]},
                nx=n[0], ny=n[1], nz=n[2], px=p[0], py=p[1], pz=p[2], x=tuple(dom[0]), y=tuple(dom[1]), z=tuple(dom[2]), gamma=1.3,
                conservative_ic=decl != "primitive", fv_ic=decl == "averaged", progress_bar=False,
            )
            u = U(s)
            ctx.step()
            for j in range(7):
                ctx.close(u[j], exact[j], 1e-11, f"{name} varying, {decl}: variable {j}", scale=max(1.0, np.max(np.abs(exact[j]))))
            ctx.state(u)
            ctx.outcome(decl)
    ctx.raises(
        lambda: Quick(w0=FuncIC(lambda x, y, z: exact[:5]), nx=n[0], ny=n[1], nz=n[2], px=p[0], py=p[1], pz=p[2], fv_ic=True, progress_bar=False),
        "averages of primitive variables accepted as an initial state",
    )
