"""C07: every ghost cell, for every combination of boundary types, against an index-by-index reference."""
from fvhoe.fv import fv_uniform_meshgen
from fvhoe.hydro import HydroState
from mc.fvlib import *

ID = "C07"
TECHNIQUE = "exhaustive enumeration of boundary-type/ghost-width/mesh combinations on the real code; oracle: index-by-index reference"
RULE = (
    "case = boundary types of the faces (periodic pair, or free/outflow/reflective/constant/function/initial condition independently per side, "
    "double-Mach wall) x cells x ghost widths per axis, on arrays whose cells are all different; every ghost cell is compared; "
    "undefined ghost zones must be refused"
)
BOUNDS = dict(
    quick="1D all 37 face pairs x cells 1-5 x widths 1-7; 2D all 37^2 combinations x 2 meshes; 3D 8^3 combinations",
    thorough="2D x 6 meshes/widths, 3D 12^3 combinations x 2 meshes",
)
ASSUMPTIONS = ["values copied must be equal to 1e-12"]
T = ["free", "outflow", "reflective", "const", "func", "ic"]
PAIRS = ["periodic,periodic"] + [f"{a},{b}" for a in T for b in T]
R8 = ["periodic,periodic", "free,outflow", "reflective,free", "outflow,reflective", "const,func", "func,free", "free,ic", "reflective,reflective"]
R12 = R8 + ["const,outflow", "ic,ic", "func,reflective", "outflow,outflow"]
DOM = [(0.0, 1.0), (-1.0, 0.5), (2.0, 2.7)]
DMR = "special-case-double-mach-reflection-y=0"


def cases(tier):
    th = tier == "thorough"
    out = []
    for a, pair, n in itertools.product("xyz", PAIRS, range(1, 6)):
        out.append(dict(k="apply", b={a: pair}, n=[n if c == a else 1 for c in AX], g=[[g if c == a else 0 for c in AX] for g in range(1, 8)]))
    for a, pair, n in itertools.product("xyz", PAIRS, (20, 33, 67, 130)):
        out.append(dict(k="apply", b={a: pair}, n=[n if c == a else 1 for c in AX], g=[[g if c == a else 0 for c in AX] for g in (1, 2, 7)]))
    grids = [([3, 4, 1], [[2, 3, 0], [1, 1, 0]])]
    if th:
        grids += [([5, 2, 1], [[2, 2, 0], [4, 1, 0]]), ([2, 3, 4], [[1, 2, 0]])]
    for dims in ("xy", "xz", "yz"):
        perm = [dims.index(c) if c in dims else 2 for c in AX]
        for b1, b2 in itertools.product(PAIRS, repeat=2):
            for n, gs in grids:
                out.append(dict(k="apply", b={dims[0]: b1, dims[1]: b2}, n=[n[i] for i in perm], g=[[g[i] for i in perm] for g in gs]))
    for t in itertools.product(R12 if th else R8, repeat=3):
        out.append(dict(k="apply", b=dict(zip(AX, t)), n=[3, 2, 4], g=[[2, 1, 3], [1, 2, 2]]))
    for bx, right, n, g in itertools.product(("free,free", "func,const", "reflective,outflow", "periodic,periodic"), T, ([6, 3, 1], [9, 4, 2], [13, 2, 1]), ([2, 2, 0], [1, 3, 0], [3, 1, 0], [2, 1, 1])):
        out.append(dict(k="apply", b={"x": bx, "y": f"{DMR},{right}"}, n=n, g=[g]))
    for a, pair in itertools.product("xyz", PAIRS):
        out.append(dict(k="solver", b={a: pair}, n=[4 if c == a else 1 for c in AX]))
    for dims, (b1, b2) in itertools.product(("xy", "xz", "yz"), itertools.product(R12, repeat=2)):
        out.append(dict(k="solver", b={dims[0]: b1, dims[1]: b2}, n=[4 if c in dims else 1 for c in AX]))
    for a, other in itertools.product("xyz", T):
        out.append(dict(k="refuse", what="one-sided periodic", a=a, other=other))
    for a in "xyz":
        for what in ("unknown type", "none type", "no coordinates", "buffer too small", "list", "triple", "mirror too wide"):
            out.append(dict(k="refuse", what=what, a=a, other="free"))
    return uniq(out)


def fdata(x, y, z, t):
    w = np.array([2 + np.sin(x + 2 * y + 3 * z), np.cos(x) + 0 * y, np.sin(y) + t + 0 * x, np.cos(z + t) + 0 * x, 3 + np.cos(x * y - z), 0.5 + np.sin(z) * x])
    return w


def icdata(x, y, z):
    return fdata(x, y, z, 0.0) * 0.5 + 7


CONST = {}
for _i, _a in enumerate(AX):
    for _j in range(2):
        CONST[_a, _j] = np.arange(6.0) * 10 + 100 * (2 * _i + _j + 1) + 1 / 3


def reference(u, n, g, b, dom, t, g_coords=None):
    """array with ghost zones, nan where nothing was defined"""
    shp = (u.shape[0],) + tuple(n[i] + 2 * g[i] for i in range(3))
    out = np.full(shp, np.nan)
    out[:, g[0]:g[0] + n[0], g[1]:g[1] + n[1], g[2]:g[2] + n[2]] = u
    co = [dom[i][0] + (np.arange(n[i] + 2 * g[i]) - g[i] + 0.5) * (dom[i][1] - dom[i][0]) / n[i] for i in range(3)]
    mesh = np.meshgrid(*co, indexing="ij")
    for i, a in enumerate(AX):
        if g[i] == 0:
            continue
        ends = b[a].split(",")
        o = np.moveaxis(out, 1 + i, 1)
        for k in range(1, g[i] + 1):
            for side, typ in enumerate(ends):
                dst = g[i] - k if side == 0 else g[i] + n[i] - 1 + k
                edge = 0 if side == 0 else n[i] - 1
                inward = k - 1 if side == 0 else n[i] - k
                if typ == "periodic":
                    src = (-k) % n[i] if side == 0 else (n[i] - 1 + k) % n[i]
                    o[:, dst] = o[:, g[i] + src]
                elif typ == "free":
                    o[:, dst] = o[:, g[i] + edge]
                elif typ in ("outflow", "reflective"):
                    o[:, dst] = o[:, g[i] + inward]
                    if typ == "reflective":
                        o[1 + i, dst] *= -1
                elif typ == "const":
                    o[:, dst] = CONST[a, side].reshape(-1, 1, 1)
                elif typ in ("func", "ic"):
                    m = [np.moveaxis(c, i, 0)[dst] for c in mesh]
                    o[:, dst] = fdata(*m, t) if typ == "func" else icdata(*m)
                elif typ == DMR:
                    fr = o[:, g[i] + edge].copy()
                    rf = o[:, g[i] + inward].copy()
                    rf[2] *= -1
                    xs = np.moveaxis(mesh[0], i, 0)[dst]
                    o[:, dst] = np.where(xs < 1 / 6, fr, rf)
                else:
                    raise ValueError(typ)
    return out


def legal(n, g, b):
    for i, a in enumerate(AX):
        if g[i] and any(t in b.get(a, "") for t in ("outflow", "reflective", DMR)) and g[i] > n[i]:
            return False
    return True


def values(b, icfun=True):
    kw = {}
    for a, pair in b.items():
        ends = pair.split(",")
        kw[a] = tuple({"const": "dirichlet", "func": "dirichlet"}.get(e, e) for e in ends)
        kw[a + "_value"] = tuple(
            CONST[a, j].copy() if e == "const" else fdata if e == "func" else (icdata if icfun else None) if e == "ic" else None for j, e in enumerate(ends)
        )
    return kw


def run(case, ctx):
    if case["k"] == "refuse":
        return refuse(case, ctx)
    b, n = case["b"], tuple(case["n"])
    u = 10 + noise((6, *n), 4)
    if case["k"] == "apply":
        buf = tuple(8 if a in b or any(g[i] for g in case["g"]) else 0 for i, a in enumerate(AX))
        dom = DOM
        _, slabs = fv_uniform_meshgen(n, x=dom[0], y=dom[1], z=dom[2], slab_thickness=buf)
        full = {a: b.get(a, "periodic,periodic") for a in AX}
        for g in case["g"]:
            for t in (0.0, 0.75):
                bc = BoundaryCondition(slab_coords=slabs, hydro_state=HydroState(passive_scalars=("s",)), **values(b))
                if not legal(n, g, b):
                    ctx.raises(lambda: bc.apply(u, gw=tuple(g), t=t), f"ghost width {g} mirrored from {n} cells")
                    ctx.outcome("refused")
                    continue
                u_in = u.copy()
                got = bc.apply(u_in, gw=tuple(g), t=t)
                ctx.step()
                ref = reference(u, n, g, full, dom, t)
                assert np.all(np.isfinite(ref))
                ctx.close(got, ref, 1e-12, f"ghost width {g}, t={t}", scale=1.0 + np.abs(ref))
                ctx.require(np.array_equal(u_in, u), "the input array was modified")
                # a second application must not remember the first
                u2 = u[:, ::-1].copy()
                ctx.close(bc.apply(u2, gw=tuple(g), t=t), reference(u2, n, g, full, dom, t), 1e-12, f"second application, width {g}", scale=1.0 + np.abs(ref))
                ctx.step()
                ctx.state(ref)
                ctx.outcome("filled")
        return
    # through the solver: it supplies coordinates, initial condition and variable positions
    dims = "".join(a for a in AX if a in b)
    s = Quick(
        w0=FuncIC(lambda x, y, z: icdata(x, y, z)[:5]), w0_passives={"s": lambda x, y, z: icdata(x, y, z)[5]},
        conservative_ic=True, nx=n[0], ny=n[1], nz=n[2], px=int("x" in dims), py=int("y" in dims), pz=int("z" in dims),
        x=DOM[0], y=DOM[1], z=DOM[2], bc=BoundaryCondition(**values(b, icfun=False)), progress_bar=False,
    )
    full = {a: b.get(a, "periodic,periodic") for a in AX}
    for w in (1, 2, 4):
        g = [w if a in dims else 0 for a in AX]
        got = s.bc.apply(u, gw=tuple(g), t=0.3)
        ctx.step()
        ref = reference(u, n, g, full, DOM, 0.3)
        ctx.close(got, ref, 1e-12, f"solver boundary, ghost width {g}", scale=1.0 + np.abs(ref))
        ctx.state(ref)


def refuse(case, ctx):
    a, what = case["a"], case["what"]
    i = AX.index(a)
    n = tuple(4 if c == a else 1 for c in AX)
    g = tuple(2 if c == a else 0 for c in AX)
    u = 10 + noise((6, *n), 4)
    hs = HydroState(passive_scalars=("s",))
    _, slabs = fv_uniform_meshgen(n, slab_thickness=tuple(3 if c == a else 0 for c in AX))

    def attempt(pair, vals=None, slabs=slabs, g=g, direct=None):
        kw = {a: direct if direct is not None else tuple(pair)}
        if vals is not None:
            kw[a + "_value"] = vals
        return BoundaryCondition(slab_coords=slabs, hydro_state=hs, **kw).apply(u, gw=g, t=0.0)

    ctx.step()
    ctx.state(repr(case))
    if what == "one-sided periodic":
        o = case["other"]
        o, v = {"const": ("dirichlet", CONST["x", 0]), "func": ("dirichlet", fdata), "ic": ("ic", icdata)}.get(o, (o, None))
        ctx.raises(lambda: attempt(("periodic", o), (None, v)), f"periodic,{o}")
        ctx.raises(lambda: attempt((o, "periodic"), (v, None)), f"{o},periodic")
    elif what == "unknown type":
        for bad in ("Free", "wall", ""):
            ctx.raises(lambda: attempt((bad, "free")), f"boundary type {bad!r}")
            ctx.raises(lambda: attempt(("free", bad)), f"boundary type {bad!r}")
    elif what == "none type":
        ctx.raises(lambda: attempt((None, None)), "boundary type None")
        ctx.raises(lambda: attempt(("free", None)), "boundary type None")
    elif what == "no coordinates":
        for typ in ("dirichlet", "ic"):
            f = fdata if typ == "dirichlet" else icdata
            ctx.raises(lambda: attempt((typ, "free"), (f, None), slabs=None), f"{typ} without coordinates")
    elif what == "buffer too small":
        for typ in ("dirichlet", "ic"):
            f = fdata if typ == "dirichlet" else icdata
            ctx.raises(lambda: attempt((typ, "free"), (f, None), g=tuple(4 if c == a else 0 for c in AX)), f"{typ} wider than its coordinates")
    elif what == "list":
        ctx.raises(lambda: attempt(None, direct=["free", "free"]), "list of boundary types")
    elif what == "triple":
        ctx.raises(lambda: attempt(("free", "free", "free")), "three boundary types")
    elif what == "mirror too wide":
        for typ in ("outflow", "reflective"):
            for w in (5, 6):
                ctx.raises(lambda: attempt((typ, "free"), g=tuple(w if c == a else 0 for c in AX)), f"{typ} wider than the domain")
                ctx.raises(lambda: attempt(("free", typ), g=tuple(w if c == a else 0 for c in AX)), f"{typ} wider than the domain")
