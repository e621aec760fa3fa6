"""C15: variable conversions over an alphabet; the time step with the fastest cell at every position."""
from fvhoe.hydro import HydroState, compute_conservatives, compute_primitives, compute_sound_speed, hydro_dt
from mc.combos import combo_cases
from mc.fvlib import *

ID = "C15"
TECHNIQUE = "exhaustive enumeration of states (alphabet product), array ranks and scalar counts, and of fastest-cell placements, on the real code; oracle: ideal-gas law and CFL formula"
RULE = (
    "conversion cases = gamma x array rank x number of scalars on the full product alphabet; time-step cases = active directions x degree x boundary x kind of fastest cell, "
    "inside: every position of it on the mesh; conversions of whole-number and single-precision arrays; fixed-step cases = integrator x degrees"
)
BOUNDS = dict(
    quick="9600 states x 5 gammas x ranks 1-4 x 0-4 scalars; time step: 7 direction sets, degrees 0-3, 4 boundaries, 8 kinds of fastest cell at every position, 3 Courant numbers, 3 domains",
    thorough="degrees 0-8, larger meshes",
)
ASSUMPTIONS = ["tolerance 1e-12 relative; with degree above one the cell averages of the primitive variables are those reported in snapshots"]
RHO = [1e-15, 1e-8, 1e-3, 0.3, 1.0, 1e4]
V = [-1e3, -0.7, 0.0, 1e-6, 2.0]
PR = [1e-9, 1e-2, 1.0, 1e5, -0.3, -40.0]


def cases(tier):
    th = tier == "thorough"
    out = []
    for g, rank, npass in itertools.product((1.4, 5 / 3, 1.001, 2.0, 7.0), (1, 2, 3, 4), range(5)):
        out.append(dict(k="conv", gamma=g, rank=rank, npass=npass))
    for g, rank, npass, dt in itertools.product((1.4, 5 / 3, 2, 7), (1, 2, 3, 4), (0, 2), ("int64", "int32", "float32")):
        out.append(dict(k="whole", gamma=g, rank=rank, npass=npass, dtype=dt))
    for dims, p, bc in itertools.product(DIMSETS, range(9 if th else 4), ("periodic", "free", "outflow", "reflective")):
        if bc != "periodic" and p > 1:
            continue
        for kind in ("vx+", "vx-", "vy+", "vy-", "vz+", "vz-", "hot", "thin"):
            out.append(dict(k="dt", dims=dims, p=p, bc=bc, kind=kind, n=6 if th and len(dims) < 3 else 4 if len(dims) < 3 else 3))
    for a, p, kind in itertools.product(AX, (0, 1, 2), ("v", "hot", "thin")):
        out.append(dict(k="dt", dims=a, p=p, bc="periodic", kind="v" + a + "-" if kind == "v" else kind, n=130))
    for dims, kind in itertools.product(("xy", "xz", "yz"), ("vz+", "hot")):
        out.append(dict(k="dt", dims=dims, p=1, bc="free", kind=kind, n=[35, 3]))
        out.append(dict(k="dt", dims=dims, p=0, bc="periodic", kind=kind, n=[3, 35]))
    for dims, p, kind, m in itertools.product(DIMSETS, range(4), ("vx+", "vy-", "vz+", "hot", "thin"), (2,)):
        out.append(dict(k="dt", dims=dims, p=p, bc="periodic", kind=kind, n=m))
    for dims, g, p, lim in itertools.product(DIMSETS, INTEGRATORS + ["auto"], (0, 1, 2, 3), ("off", "minmod")):
        out.append(dict(k="fixed", dims=dims, g=g, p=p, lim=lim))
    for j, c in enumerate(combo_cases()):
        out.append(dict(c, k="combo", CFL=(0.01, 0.1, 0.25, 0.5, 1.0, 1.5)[j % 6]))
    return out


def combo(case, ctx):
    """combined settings: the step of the initial state"""
    r = Regime(case["reg"], case["dims"], npass=1, a=6)
    s = r.solver(degrees_for(case["dims"], case["p"]), case["lim"], case["rs"], CFL=case["CFL"], snapshots_as_fv_averages=True)
    dt, _ = rhs(s)
    s.snapshot()
    ctx.step()
    wa = np.array(s.snapshots[-1]["w"])
    c = np.sqrt(np.maximum(r.gamma * wa[4] / wa[0], r.kw["csq_floor"]))
    h = min((d[1] - d[0]) / m for d, m in zip(r.dom, r.n))
    want = r.kw.get("fixed_dt") or case["CFL"] * h / np.max(np.sum(np.abs(wa[1:4]), axis=0) + len(case["dims"]) * c)
    ctx.require(abs(dt - want) <= 1e-11 * want, f"step {dt!r} instead of {want!r}")
    advance(s, r.ig, 1)
    ctx.require(abs(s.t - want) <= 1e-11 * want, f"the step taken is {s.t!r} instead of {want!r}")
    ctx.state(U(s))
    ctx.outcome("combined options")


def run(case, ctx):
    if case["k"] == "combo":
        return combo(case, ctx)
    if case["k"] == "conv":
        return conv(case, ctx)
    if case["k"] == "whole":
        return whole(case, ctx)
    if case["k"] == "fixed":
        return fixed(case, ctx)
    dims, p = case["dims"], degrees_for(case["dims"], case["p"])
    n = shape_for(dims, case["n"])
    if case["bc"] in ("outflow", "reflective") and case["n"] < mirror_width(p):  # n is an integer there
        n = shape_for(dims, mirror_width(p))
    doms = [[(0, 1)] * 3, [(0, 2), (1, 1.3), (-4, 0)], [(0, 0.5), (0, 1), (5, 5.05)]]
    pos = list(np.ndindex(*n))
    if len(pos) > 64:  # every position along each line through a corner and the middle
        mid = tuple(k // 2 for k in n)
        pos = [q for q in pos if sum(a != b for a, b in zip(q, mid)) <= 1 or sum(a != 0 for a in q) <= 1]
    for j, q in enumerate(pos):
        w = state("mild", n)
        k = case["kind"]
        if k[0] == "v":
            w[(slice(1 + AX.index(k[1]), 2 + AX.index(k[1])),) + q] = 3.0 if k[2] == "+" else -3.0
        elif k == "hot":
            w[(4,) + q] = 20.0
        else:
            w[(0,) + q] = 0.1
        gamma, CFL = ((1.4, 0.8), (5 / 3, 0.3), (1.2, 1.0), (1.4, 0.05), (1.1, 1e-3), (3.0, 2.5), (1.4, 0.5))[j % 7]
        dom = doms[j % 3]
        lim = LIM[("off", "minmod", "forced")[(j // 3) % 3]] if n != (1, 1, 1) and case["bc"] == "periodic" else {}
        floor = (1e-10, 1e-10, 5.0)[(j // 2) % 3]
        s = solver(n, p, w=w, gamma=gamma, CFL=CFL, csq_floor=floor, dom=dom, bc={a: [case["bc"]] * 2 for a in dims}, **lim)
        dt, _ = rhs(s)
        ctx.step()
        s.snapshot()
        wa = prims(U(s), gamma) if case["p"] <= 1 else np.array(s.snapshots[-1]["w"])
        c = np.sqrt(np.maximum(gamma * wa[4] / wa[0], floor))
        speed = np.abs(wa[1]) + np.abs(wa[2]) + np.abs(wa[3]) + len(dims) * c
        h = min((d[1] - d[0]) / m for d, m in zip(dom, n))
        want = CFL * h / np.max(speed)
        ctx.require(abs(dt - want) <= 1e-11 * want, lambda: f"step {dt!r} instead of {want!r}, fastest cell {q} of {n}, domain {dom}")
        s.euler(n=1)
        ctx.require(abs(s.t - want) <= 1e-11 * want and abs(s.timestamps[-1] - want) <= 1e-11 * want, f"the step taken is {s.t!r} instead of {want!r}")
        ctx.step()
        ctx.state(w, case["bc"], p)
        ctx.outcome("fastest cell placements")


def conv(case, ctx):
    gamma, rank, npass = case["gamma"], case["rank"], case["npass"]
    w = np.array(list(itertools.product(RHO, V, V[1:], V[:4], PR))).T  # 5 x N
    N = w.shape[1]
    w = np.concatenate([w] + [(noise((1, N), 3 + j) - 0.3) * 10.0**j for j in range(npass)])
    hs = HydroState(passive_scalars=tuple(f"s{j}" for j in range(npass)), ndim=rank)
    shapes = {1: None, 2: (N,), 3: (N // 2, 2), 4: (5, 4, N // 20)}
    arrs = [w[:, j].copy() for j in range(0, N, 37)] if rank == 1 else [w.reshape(5 + npass, *shapes[rank])]
    for a in arrs:
        keep = a.copy()
        u = compute_conservatives(hs, a, gamma)
        b = compute_primitives(hs, u, gamma)
        ctx.step(2)
        ctx.require(np.array_equal(a, keep), "the input was modified")
        ref = cons(a, gamma)
        sc = np.abs(ref) + 1e-300
        sc[4] = np.abs(a[4]) / (gamma - 1) + a[0] * (a[1] ** 2 + a[2] ** 2 + a[3] ** 2)
        ctx.close(u, ref, 1e-13, "conserved variables", scale=sc)
        pr = prims(ref, gamma)
        sp = np.abs(pr) + 1e-300
        sp[4] = (gamma - 1) * (np.abs(ref[4]) + a[0] * (a[1] ** 2 + a[2] ** 2 + a[3] ** 2))
        ctx.close(compute_primitives(hs, ref.copy(), gamma), pr, 1e-13, "primitive variables", scale=sp)
        sp[5:] = np.abs(a[5:]) + 1e-300
        ctx.close(b, a, 1e-12, "round trip", scale=sp + np.abs(a))
        for floor in (0.0, 1e-10, 0.5, 30.0):
            c = compute_sound_speed(a, gamma, csq_floor=floor)
            want = np.sqrt(np.maximum(gamma * a[4] / a[0], floor))
            ctx.close(c, want, 1e-13, "sound speed", scale=want + 1e-300)
            neg = a.copy()
            neg[4] = -neg[4]
            want = np.sqrt(np.maximum(gamma * neg[4] / neg[0], floor))
            ctx.close(compute_sound_speed(neg, gamma, csq_floor=floor), want, 1e-13, "sound speed, pressure of the other sign", scale=want + 1e-300)
            ctx.step(2)
        ctx.state(a, gamma, rank)
    if rank == 4 and npass == 0:
        a = arrs[0]
        for nd, CFL, h, floor in itertools.product((1, 2, 3), (0.8, 0.1), (1.0, 0.02), (1e-10, 50.0)):
            for j in range(0, N, 97):
                cell = w[:, j].reshape(-1, 1, 1, 1)
                c = math.sqrt(max(gamma * cell[4, 0, 0, 0] / cell[0, 0, 0, 0], floor))
                want = CFL * h / (float(np.sum(np.abs(cell[1:4]))) + nd * c)
                got = hydro_dt(cell, h=h, ndim=nd, CFL=CFL, gamma=gamma, csq_floor=floor)
                ctx.step()
                ctx.require(abs(got - want) <= 1e-12 * want, f"hydro_dt {got!r} instead of {want!r}")
    ctx.outcome("conversions", sum(a[0].size for a in arrs))


def whole(case, ctx):
    """the same values stored as whole numbers or in single precision"""
    gamma, rank, npass = case["gamma"], case["rank"], case["npass"]
    tol = 1e-5 if case["dtype"] == "float32" else 1e-13
    w = np.array(list(itertools.product((1, 2, 3, 5), (-3, 0, 2), (-1, 0, 3), (-2, 1), (1, 2, 7))))
    w = np.concatenate([w] + [w[:, 1 + j : 2 + j] + 4 * j for j in range(npass)], axis=1).T
    N = w.shape[1]
    hs = HydroState(passive_scalars=tuple(f"s{j}" for j in range(npass)), ndim=rank)
    arrs = [w[:, j].copy() for j in range(N)] if rank == 1 else [w.reshape(5 + npass, *{2: (N,), 3: (N // 2, 2), 4: (4, 6, N // 24)}[rank])]
    for a in arrs:
        f = a.astype(float)
        a = a.astype(case["dtype"])
        u = cons(f, gamma)
        sc = np.abs(u) + np.abs(u[4])
        ctx.close(np.array(compute_conservatives(hs, a, gamma), dtype=float), u, tol, "conserved variables", scale=sc)
        # any numbers with positive density are conserved variables, too
        q = prims(f, gamma)
        ctx.close(np.array(compute_primitives(hs, a, gamma), dtype=float), q, tol, "primitive variables", scale=np.abs(q) + gamma * (np.abs(f[4]) + np.sum(f[1:4] ** 2, axis=0) / f[0]))
        c = np.sqrt(np.maximum(gamma * f[4] / f[0], 1e-10))
        ctx.close(np.array(compute_sound_speed(a, gamma, csq_floor=1e-10), dtype=float), c, tol, "sound speed", scale=c)
        ctx.step(3)
        ctx.state(repr(case), f)
    ctx.outcome("whole numbers", sum(a[0].size for a in arrs))


def fixed(case, ctx):
    dims, p = case["dims"], degrees_for(case["dims"], case["p"])
    n = shape_for(dims, 4)
    for fdt in (1e-3, 2.5e-4, 1e-7):
        s = solver(n, p, w=state("mild", n), fixed_dt=fdt, **LIM[case["lim"]])
        advance(s, case["g"], 3)
        ctx.step(3)
        d = np.diff(s.timestamps)
        ctx.close(d, np.full(3, fdt), 1e-9, "fixed step", scale=fdt)
        ctx.state(repr(case), fdt)
    for fdt in (1e-300, 1e-15, 0.7, 1e3):
        s = solver(n, p, w=state("mild", n), fixed_dt=fdt, **LIM[case["lim"]])
        got = rhs(s)[0]
        ctx.step()
        ctx.require(got == fdt, f"step {got!r} with the step fixed at {fdt!r}")
    # without it, every step is the one the dynamics allow at its beginning
    s = solver(n, p, w=state("mild", n), **LIM[case["lim"]])
    for _ in range(2):
        allowed, _ = solver_dt(n, p, U(s), case)
        t = s.t
        advance(s, case["g"], 1)
        ctx.step()
        ctx.require(abs((s.t - t) - allowed) <= 1e-11 * allowed, f"step of {s.t - t!r} where {allowed!r} is allowed")


def solver_dt(n, p, u, case):
    return rhs(solver(n, p, u=u, **LIM[case["lim"]]))
