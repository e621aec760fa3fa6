"""C04: signed axis permutations commute with the solver."""
from mc.fvlib import *

ID = "C04"
TECHNIQUE = "exhaustive exploration of the 48-element axis group on solver runs; oracle: transformed run"
RULE = (
    "case = active axes x (mixed) degrees x Riemann solver x limiter x boundary types x mesh shape; inside a case every signed axis "
    "permutation is applied to the whole problem (state, velocities, faces, boundary data, degrees, domain) and rate of change, "
    "time step, evolved state and trouble record are compared with the transformed originals"
)
BOUNDS = dict(
    quick="all 48 signed permutations; 1D degrees 0-8, 2D degree pairs 0-4, 3D degrees 0-3 in a covering set of triples, 1 step; plus a table of 34 regimes and problems posed by functions (boundary data, initial profiles, scalars) (faint, supersonic, blast, long, stretched, ... : fvlib.REGIMES); plus 274 combined settings covering every triple of option values that can be combined (mc/combos.py)",
    thorough="2D degree pairs 0-6, 3D all triples 0-3, 2 steps; regimes with more axis sets and degrees",
)
ASSUMPTIONS = [
    "states are generic (no two cells equal), so no troubled-cell decision sits on a rounding tie",
    "relative tolerance 1e-10",
]
DOM = [(0.0, 1.0), (-0.5, 1.0), (0.2, 1.0)]
BCS = {
    "periodic": ["periodic,periodic"] * 3,
    "free/outflow": ["free,outflow", "outflow,free", "free,free"],
    "reflective": ["reflective,reflective", "reflective,free", "outflow,reflective"],
    "dirichlet": ["dirichlet,free", "free,dirichlet", "dirichlet,dirichlet"],
    "function": ["function,free", "periodic,periodic", "free,outflow"],
    "mixed": ["outflow,function", "reflective,reflective", "free,free"],
    "mixed 2": ["periodic,periodic", "dirichlet,outflow", "free,dirichlet"],
}
LIMS = [l for l in LIM if not l.startswith("pattern")]


def cases(tier):
    th = tier == "thorough"
    out = []
    for p, lim, rs in itertools.product(range(9), LIMS, ("hllc", "llf")):
        out.append(dict(dims="x", p=p, lim=lim, rs=rs, bc="periodic"))
    for p, lim, rs, bc in itertools.product((0, 1, 2, 3), ("off", "minmod", "tight no SED", "convex tight"), ("hllc", "llf"), list(BCS)[1:]):
        out.append(dict(dims="x", p=p, lim=lim, rs=rs, bc=bc))
    for p, lim in itertools.product(range(9), ("off", "forced", "rho only")):
        out.append(dict(dims="x", p=p, lim=lim, rs="advection_upwind", bc="periodic"))
        if p < 4:
            out.append(dict(dims="xy", p=p, lim=lim, rs="advection_upwind", bc="periodic"))
    for q in itertools.product(range(7 if th else 5), repeat=2):
        for lim in ("off", "tight no SED", "minmod") + (("convex tight", "local") if th else ()):
            out.append(dict(dims="xy", p=list(q), lim=lim, rs="hllc", bc="periodic"))
    for lim, rs in itertools.product(LIMS, ("hllc", "llf")):
        for p in (1, 2, 3):
            out.append(dict(dims="xy", p=p, lim=lim, rs=rs, bc="periodic"))
    for p, lim, rs, bc in itertools.product((0, 1, 2), ("off", "tight no SED", "convex tight"), ("hllc", "llf"), list(BCS)[1:]):
        out.append(dict(dims="xy", p=p, lim=lim, rs=rs, bc=bc))
    tri = list(itertools.product(range(4), repeat=3)) if th else [(0, 0, 0), (1, 1, 1), (0, 1, 2), (1, 2, 0), (2, 1, 3), (3, 0, 1), (2, 2, 2), (3, 3, 3)]
    for q in tri:
        for lim in ("off", "tight no SED"):
            out.append(dict(dims="xyz", p=list(q), lim=lim, rs="hllc", bc="periodic"))
    for bc, rs in itertools.product(BCS, ("hllc", "llf")):
        out.append(dict(dims="xyz", p=1, lim="minmod", rs=rs, bc=bc))
    for lim in LIMS:
        if "convex" not in lim:
            out.append(dict(dims="xyz", p=[1, 2, 1], lim=lim, rs="hllc", bc="periodic"))
    for c in regime_cases(["x", "xy", "xyz"]):
        if len(c["dims"]) < 3 or c["rs"] == "hllc":
            out.append(c)
    # every triple of option values (mirroring does not keep an absolute range of a velocity)
    out += combo_cases(lambda c: c["lim"] == "off" or c["lim"]["NAD_range"] == "relative" or c["lim"]["NAD_vars"])
    for dims, p, ends, lim in itertools.product(("x", "xy", "xyz"), (0, 1, 2, 3, 5), ("periodic", "ic", "dirichlet"), ("off", "minmod", "tight no SED")):
        if len(dims) + (p > 2) + 2 * (p > 3) > 3:
            continue
        out.append(dict(k="posed", dims=dims, p=p, ends=ends, lim=lim))
    return uniq(out)


TIES = ("spot", "slabs", "blast")  # uniform parts: flags there hang on rounding
SOME = [((0, 1, 2), (1, 0, 0)), ((1, 0, 2), (0, 0, 0)), ((1, 2, 0), (0, 1, 0)), ((2, 1, 0), (0, 0, 1)), ((2, 0, 1), (1, 1, 1)), ((0, 2, 1), (0, 0, 0))]


def regime(case, ctx):
    dims, reg = case["dims"], case["reg"]
    r = Regime(reg, dims, npass=2, a=3)
    p, lim = degrees_for(dims, case["p"]), case["lim"] != "off"
    steps = min(r.steps, 12) if not lim else min(r.steps, 2)

    def observe(perm, mir):
        dom = [r.dom[k] for k in perm]
        s = r.solver(tuple(p[k] for k in perm), case["lim"], case["rs"], w=tr_vars(r.w, perm, mir), n=tuple(r.n[k] for k in perm), dom=dom)
        dt, d = rhs(s)
        r.go(s, 1)
        tr = trouble(s) if lim else None
        if steps > 1:
            r.go(s, steps - 1)
        ctx.step(steps + 1)
        return dt, d, tr, U(s)

    dt, d, tr, u = observe((0, 1, 2), (0, 0, 0))
    ctx.require(np.all(np.isfinite(u)), "non-finite state")
    ctx.state(u)
    sz = np.max(magnitudes(u), axis=(1, 2, 3)).reshape(-1, 1, 1, 1) + 1e-300
    sz[1:4] = np.max(sz[1:4])
    for perm, mir in SOME:
        mir = tuple(int(m and AX[perm[j]] in dims or m and j == perm[j]) for j, m in enumerate(mir))
        dt2, d2, tr2, u2 = observe(perm, mir)
        what = f"{reg}: axes {[AX[k] for k in perm]} mirrored {[AX[j] for j in range(3) if mir[j]]}"
        ctx.close(dt2, dt, 1e-10, what + ": time step", scale=dt)
        ctx.close(d2 * dt / sz, tr_vars(d, perm, mir) * dt / sz, 1e-10, what + ": change per step")
        ctx.close(u2 / sz, tr_vars(u, perm, mir) / sz, 1e-9, what + f": state after {steps} steps")
        if lim and reg not in TIES:
            ctx.close(tr2, tr_field(tr, perm, mir), 1e-10, what + ": trouble record")
    ctx.outcome("regime")


def profile(X, L):
    """smooth generic primitive variables, periodic over lengths L; X in the original axes, None where inactive"""
    a = [2 * np.pi * (0.17 if x is None else x) / l for x, l in zip(X, L)]
    o = sum(0 * x for x in X if x is not None)
    return np.array([
        1 + 0.3 * np.sin(a[0] + 0.4) * np.cos(a[1] - 0.3) + 0.1 * np.sin(a[2]) + o, 0.3 * np.cos(a[0] - 0.8) + 0.1 * np.sin(a[1] + a[2]) + o,
        -0.2 * np.sin(a[1] + 0.5 + a[0]) + o, 0.25 * np.cos(a[2] + 0.2) * np.sin(a[0]) + o, 1 + 0.2 * np.cos(a[0] + a[1] - a[2]) + o,
        0.5 + 0.3 * np.sin(a[0] + 2 * a[1] + 0.3) + o,
    ])


def posed_case(case, ctx):
    """the whole problem given by functions of the coordinates, as primitive variables at points"""
    dims, lim = case["dims"], case["lim"] != "off"
    p0, n0 = degrees_for(dims, case["p"]), shape_for(dims, {1: 11, 2: [6, 7], 3: [4, 5, 3]}[len(dims)])
    act = [a in dims for a in AX]
    L = [b - a for a, b in DOM]

    def observe(perm, mir):
        dom = [DOM[k] for k in perm]

        def fun(x, y, z, t=None):
            new, old = (x, y, z), [None] * 3
            for j in range(3):
                old[perm[j]] = dom[j][0] + dom[j][1] - new[j] if mir[j] else new[j]
            w = profile([x if k else None for x, k in zip(old, act)], L)
            if any(q.shape != np.shape(x) for q in w):
                w = np.array([np.broadcast_to(q, np.shape(x)) for q in w])
            out = w.copy()
            for j in range(3):
                out[1 + j] = -w[1 + perm[j]] if mir[j] else w[1 + perm[j]]
            return out

        kw = {}
        if case["ends"] != "periodic":
            for j, a in enumerate(AX):
                if act[perm[j]]:
                    kw[a] = (case["ends"],) * 2
                    if case["ends"] == "dirichlet":
                        kw[a + "_value"] = (lambda x, y, z, t: cons(fun(x, y, z)),) * 2
        bc = BoundaryCondition(**kw) if kw else None
        s = posed(tuple(n0[k] for k in perm), tuple(p0[k] for k in perm), fun, npass=1, dom=dom, bc=bc, CFL=0.5, **LIM[case["lim"]])
        u0 = U(s)
        dt, d = rhs(s)
        advance(s, "auto", 2)
        return u0, dt, d, U(s), trouble(s) if lim else None

    u0, dt, d, u, tr = observe((0, 1, 2), (0, 0, 0))
    ctx.require(np.all(np.isfinite(u)), "non-finite state")
    ctx.state(u)
    sc = max(1.0, float(np.max(np.abs(d))))
    for perm, mir in itertools.product(itertools.permutations(range(3)), itertools.product((0, 1), repeat=3)):
        got = observe(perm, mir)
        ctx.step(3)
        what = f"posed by functions, axes {[AX[k] for k in perm]} mirrored {[AX[j] for j in range(3) if mir[j]]}"
        ctx.close(got[0], tr_vars(u0, perm, mir), 1e-11, what + ": initial averages")
        ctx.close(got[1], dt, 1e-10, what + ": time step", scale=dt)
        ctx.close(got[2], tr_vars(d, perm, mir), 1e-10, what + ": rate of change", scale=sc)
        ctx.close(got[3], tr_vars(u, perm, mir), 1e-10, what + ": state")
        if lim:
            ctx.close(got[4], tr_field(tr, perm, mir), 1e-10, what + ": trouble record")
    ctx.outcome("posed by functions")


def tr_field(f, perm, mir):
    """scalar field (n0, n1, n2): new axis j is old axis perm[j], mirrored if mir[j]"""
    g = np.transpose(f, perm)
    for j in range(3):
        if mir[j]:
            g = np.flip(g, j)
    return g


def tr_vars(u, perm, mir):
    out = [tr_field(u[0], perm, mir)]
    for j in range(3):
        c = tr_field(u[1 + perm[j]], perm, mir)
        out.append(-c if mir[j] else c)
    for v in range(4, u.shape[0]):
        out.append(tr_field(u[v], perm, mir))
    return np.array(out)


def tr_vec(v, perm, mir):
    v = np.asarray(v, float)
    out = v.copy()
    for j in range(3):
        out[1 + j] = -v[1 + perm[j]] if mir[j] else v[1 + perm[j]]
    return out


def bfun(x, y, z, t):
    """asymmetric boundary data, conserved variables"""
    w = np.array([
        1 + 0.1 * np.sin(x + 2 * y - z), 0.1 * np.cos(x) + 0 * y, 0.2 * np.sin(y + z) + 0 * x, 0.1 * np.cos(z - x) + 0 * y,
        1 + 0.1 * np.cos(x * y + z), 0.3 + 0.1 * np.sin(x + y + z),
    ])
    return cons(w)


def flat(u):
    """no momentum across the y walls of the "mixed" boundaries"""
    u = u.copy()
    u[2] = 0.0
    return u


def build(case, w, perm, mir):
    dims = case["dims"]
    p0 = degrees_for(dims, case["p"])
    n0 = w.shape[1:]
    pairs = BCS[case["bc"]]
    n = tuple(n0[k] for k in perm)
    p = tuple(p0[k] for k in perm)
    dom = [DOM[k] for k in perm]
    kw = {}
    const = cons(np.array([1.1, 0.2, -0.3, 0.15, 0.95, 0.4]).reshape(6, 1, 1, 1)).ravel()

    def newfun(x, y, z, t):
        new = (x, y, z)
        old = [None] * 3
        for j in range(3):
            c = new[j]
            if mir[j]:
                c = dom[j][0] + dom[j][1] - c
            old[perm[j]] = c
        # the data depend on the coordinate normal to the face (old x) only: edges are then unambiguous
        vals = bfun(old[0], 0.3 + 0 * old[1], 0.7 + 0 * old[2], t) if len(dims) == 1 or "reflective" not in pairs[1] else flat(bfun(old[0], 0.3 + 0 * old[1], 0.7 + 0 * old[2], t))
        out = vals.copy()
        for j in range(3):
            out[1 + j] = -vals[1 + perm[j]] if mir[j] else vals[1 + perm[j]]
        return out

    for j, a in enumerate(AX):
        if AX[perm[j]] not in dims:
            continue
        ends = pairs[perm[j]].split(",")
        if mir[j]:
            ends = ends[::-1]
        kw[a] = tuple("dirichlet" if e == "function" else e for e in ends)
        kw[a + "_value"] = tuple(tr_vec(const, perm, mir) if e == "dirichlet" else newfun if e == "function" else None for e in ends)
    lim = dict(LIM[case["lim"]])
    if lim.get("NAD_range") == "absolute":  # its bounds scale with the value: not symmetric in the sign of a velocity
        lim["NAD_vars"] = ("rho", "P")
    if "PAD" in lim:  # bounds follow the velocity component
        j = [k for k in range(3) if perm[k] == 0][0]
        lim["PAD"] = {"rho": (0.9, 1.3), "P": (0.8, 1.2), "v" + AX[j]: (-0.3, 0.3)}
    return solver(n, p, w=tr_vars(w, perm, mir), rs=case["rs"], dom=dom, bc=BoundaryCondition(**kw), CFL=0.4, **lim)


def run(case, ctx):
    if case.get("k") == "regime":
        return regime(case, ctx)
    if case.get("k") == "posed":
        return posed_case(case, ctx)
    dims = case["dims"]
    p0 = degrees_for(dims, case["p"])
    wide = mirror_width(p0, case["lim"] != "off")
    n0 = []
    for k, a in enumerate(AX):
        if a not in dims:
            n0.append(1)
        elif any(t in BCS[case["bc"]][k] for t in ("reflective", "outflow")):
            n0.append(max(wide, 3) + k)
        else:
            n0.append((9, 6, 5)[k] if len(dims) < 3 else (4, 5, 3)[k])
    n0 = tuple(n0)
    kind = "advect" if case["rs"] == "advection_upwind" else ("mild" if max(p0) > 3 and case["lim"] == "off" else "rough")
    w = state(kind, n0, 1, a=3)
    ident = ((0, 1, 2), (0, 0, 0))
    s = build(case, w, *ident)
    lim = case["lim"] != "off"

    def observe(s):
        dt, d = rhs(s)
        advance(s, "auto", 1)
        return dt, d, U(s), trouble(s) if lim else None

    dt, d, u, tr = observe(s)
    ctx.state(u)
    if lim:
        ctx.outcome("no trouble" if not tr.any() else ("all troubled" if (tr > 0).all() else "some trouble"))
    sc = max(1.0, float(np.max(np.abs(d))))
    for perm in itertools.permutations(range(3)):
        for mir in itertools.product((0, 1), repeat=3):
            if (perm, mir) == ident or any(m and n0[perm[j]] == 1 and AX[perm[j]] not in dims and j != perm[j] for j, m in enumerate(mir)):
                continue
            dt2, d2, u2, tr2 = observe(build(case, w, perm, mir))
            ctx.step(2)
            what = f"axes {[AX[k] for k in perm]} mirrored {[AX[j] for j in range(3) if mir[j]]}"
            ctx.close(dt2, dt, 1e-10, what + ": time step", scale=dt)
            ctx.close(d2, tr_vars(d, perm, mir), 1e-10, what + ": rate of change", scale=sc)
            ctx.close(u2, tr_vars(u, perm, mir), 1e-10, what + ": state after one step")
            if lim:
                ctx.close(tr2, tr_field(tr, perm, mir), 1e-10, what + ": trouble record")
