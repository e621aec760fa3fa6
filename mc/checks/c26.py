"""C26: the packaged 1D reference solver against the solver at degree 0, and its own invariants."""
import contextlib
import io

from fvhoe import romain_solver as ref
from mc.fvlib import *

ID = "C26"
TECHNIQUE = "exhaustive enumeration of reference configurations (initial states x boundaries x Riemann solvers x sizes x CFL numbers x directions), step-by-step comparison of the two implementations over bounded histories; conservation of the reference at all orders"
RULE = "agree cases = initial state x boundary x Riemann solver x mesh x CFL x direction, compared after every step; conserve cases = initial state x space order x time order x mesh; mirror/order cases = reference's own symmetries"
BOUNDS = dict(quick="7 initial states x 2 boundaries x 2 Riemann solvers x 3 sizes x 3 directions, 12 steps; 5 space x 4 time orders", thorough="sizes up to 32, 4 CFL numbers, 40 steps")
ASSUMPTIONS = ["the reference's storage for 100001 steps is only touched as far as steps are taken"]

ICS = ["sod test", "toro test1", "toro test2", "toro test3", "shu osher", "supersonic blob", "sedov"]


def weno(**kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return ref.weno(**kw)


def cases(tier):
    th = tier == "thorough"
    out = []
    for c, bc, rs, n in itertools.product(ICS, ("periodic", "free"), ("llf", "hllc"), (9, 10, 16, 32) if th else (9, 10, 16)):
        for cfl in (0.1, 0.4, 0.8, 0.95) if th else (0.8,) if n != 10 else (0.8, 0.3):
            for axis in AX:
                out.append(dict(k="agree", ic=c, bc=bc, rs=rs, n=n, cfl=cfl, axis=axis, steps=40 if th else 12))
    for c, sp, ti, n in itertools.product(("sod test", "shu osher", "toro test1"), range(1, 6), range(1, 5), (12, 17, 30) if th else (12, 17)):
        for rs in ("llf", "hllc"):
            out.append(dict(k="conserve", ic=c, space=sp, time=ti, n=n, rs=rs, steps=20 if th else 8))
    for sp, ti, rs in itertools.product(range(1, 6), range(1, 5), ("llf", "hllc")):
        out.append(dict(k="uniform", space=sp, time=ti, rs=rs))
    for n in range(8, 41 if th else 21):
        out.append(dict(k="convert", n=n))
    for rs in ("llf", "hllc"):
        out.append(dict(k="flux", rs=rs))
    return out


def run(case, ctx):
    ctx.state(repr(case))
    dict(agree=agree, conserve=conserve, uniform=uniform, convert=convert, flux=flux)[case["k"]](case, ctx)


def place(u3, axis):
    """(3, n) reference state -> (5, nx, ny, nz) along the given axis"""
    n = u3.shape[1]
    shape = tuple(n if a == axis else 1 for a in AX)
    u = np.zeros((5, *shape))
    u[0] = u3[0].reshape(shape)
    u[1 + AX.index(axis)] = u3[1].reshape(shape)
    u[4] = u3[2].reshape(shape)
    return u


def pick(u, axis):
    return np.array([u[0].ravel(), u[1 + AX.index(axis)].ravel(), u[4].ravel()])


def agree(case, ctx):
    n, cfl, axis = case["n"], case["cfl"], case["axis"]
    x = (np.arange(n) + 0.5) / n
    with contextlib.redirect_stdout(io.StringIO()):
        u0 = ref.set_ic(x, ic_type=case["ic"])
    shape = tuple(n if a == axis else 1 for a in AX)
    s = solver(shape, (0, 0, 0), u=place(u0, axis), gamma=1.4, bc={axis: [case["bc"]] * 2}, rs=case["rs"], CFL=cfl)
    mine = [U(s)]
    for _ in range(case["steps"]):
        s.euler(n=1)
        mine.append(U(s))
    if not all(np.all(np.isfinite(u)) and np.all(prims(u)[[0, 4]] > 0) for u in mine):
        ctx.outcome("leaves the physical range")  # nothing to compare beyond that point
        ok = [np.all(np.isfinite(u)) and np.all(prims(u)[[0, 4]] > 0) for u in mine]
        mine = mine[: ok.index(False)]
    # stop the reference within the last step of the solver
    k = len(mine) - 1
    if k == 0:
        return
    tend = 0.5 * (s.timestamps[k - 1] + s.timestamps[k])
    theirs = weno(tend=tend, n=n, cfl=cfl, ic_type=case["ic"], bc_type=case["bc"], riemann_solver=case["rs"], time=1, space=1)
    ctx.step(2 * k)
    ctx.require(theirs.shape[0] == k + 1, f"reference takes {theirs.shape[0] - 1} steps instead of {k}: time steps differ")
    for i in range(k + 1):
        a = pick(mine[i], axis)
        ctx.close(a, theirs[i], 1e-9, f"state after {i} steps", scale=np.max(np.abs(theirs[i]), axis=1, keepdims=True) + 1e-3 * np.max(np.abs(theirs[i])))
        ctx.state(mine[i])
    # and the step itself
    dt, d = rhs(s, mine[0])
    ctx.close(theirs[1] - theirs[0], pick(dt * d, axis), 1e-9, "first increment", scale=np.max(np.abs(theirs[:2])))
    ctx.outcome("agree")


def conserve(case, ctx):
    n = case["n"]
    kw = dict(n=n, cfl=0.3, ic_type=case["ic"], bc_type="periodic", riemann_solver=case["rs"], time=case["time"], space=case["space"])
    x = (np.arange(n) + 0.5) / n
    w = ref.cons_to_prim(ref.set_ic(x, ic_type=case["ic"]))
    dt = 0.3 / n / np.max(np.abs(w[1]) + np.sqrt(1.4 * w[2] / w[0]))
    u = weno(tend=case["steps"] * dt, **kw)
    ctx.step(u.shape[0])
    ctx.require(np.all(np.isfinite(u)), "non-finite states")
    tot = u.sum(axis=2)
    for i in range(3):
        ctx.close(tot[:, i], np.full(len(tot), tot[0, i]), 1e-12, f"total of variable {i}", scale=np.max(np.abs(u[:, i])) * n * 10)
    ctx.require(np.max(np.abs(u[-1] - u[0])) > 1e-3, "nothing happened")
    ctx.outcome("conserved")


def uniform(case, ctx):
    """constant states produce constant fluxes at every order"""
    for w0 in itertools.product((0.3, 2.0), (-1.5, 0.0, 0.7, 4.0), (0.1, 3.0)):
        w = np.tile(np.array(w0)[:, None], (1, 12 + 8))
        u = ref.prim_to_cons(w)
        for bc in ("periodic", "free"):
            f, ww, cs = ref.cmp_flux(u.copy(), bc_type=bc, riemann_solver=case["rs"], space=case["space"])
            ctx.step()
            want = ref.prim_to_flux(np.array(w0)[:, None])
            r, v, P = w0
            exp = np.array([r * v, r * v * v + P, (0.5 * r * v * v + 1.4 * P / 0.4) * v])[:, None]
            ctx.close(want, exp, 1e-13, "physical flux")
            ctx.close(f, np.tile(exp, (1, f.shape[1])), 1e-12, f"flux of {w0}", scale=max(1, np.max(np.abs(exp))))
            ctx.close(ww, w, 1e-12, "primitive variables", scale=10)
            ctx.close(cs, np.full(20, math.sqrt(1.4 * P / r)), 1e-12, "sound speed", scale=10)
            ctx.require(f.shape == (3, 13), "number of faces")
    ctx.outcome("uniform")


def convert(case, ctx):
    n = case["n"]
    w = np.array([0.1 + noise((n,), 1), 4 * noise((n,), 2) - 2, 0.05 + noise((n,), 3)])
    u = ref.prim_to_cons(w)
    c = cons(np.array([w[0], w[1], 0 * w[0], 0 * w[0], w[2]]), 1.4)
    ctx.step()
    ctx.close(u, c[[0, 1, 4]], 1e-13, "conserved variables")
    ctx.close(ref.cons_to_prim(u), w, 1e-11, "round trip", scale=10)
    for bc in ("periodic", "free"):
        v = np.array([noise((n + 8,), k) for k in range(3)])
        v0 = v.copy()
        ref.set_bc(v, bc)
        for i in range(n + 8):
            j = i - 4
            src = j % n if bc == "periodic" else min(max(j, 0), n - 1)
            ctx.require(np.array_equal(v[:, i], v0[:, src + 4]), f"{bc} ghost cell {i}")
    ctx.outcome("conversions")


def flux(case, ctx):
    """reference fluxes for all pairs of a state alphabet"""
    A = list(itertools.product((0.2, 1.0, 3.0), (-3.0, -0.4, 0.5, 2.5), (0.1, 1.0, 4.0)))
    L, R = zip(*itertools.product(A, A))
    wl, wr = np.array(L).T, np.array(R).T
    f = getattr(ref, case["rs"])(wl, wr)
    sh = wl.shape[1]
    ctx.step(sh)
    smax = np.maximum(np.abs(wl[1]) + np.sqrt(1.4 * wl[2] / wl[0]), np.abs(wr[1]) + np.sqrt(1.4 * wr[2] / wr[0]))
    if case["rs"] == "llf":
        want = 0.5 * (ref.prim_to_flux(wl) + ref.prim_to_flux(wr)) - 0.5 * smax * (ref.prim_to_cons(wr) - ref.prim_to_cons(wl))
        ctx.close(f, want, 1e-12, "local Lax-Friedrichs flux", scale=np.max(np.abs(want)))
    # supersonic states: pure upwind
    c = np.maximum(np.sqrt(1.4 * wl[2] / wl[0]), np.sqrt(1.4 * wr[2] / wr[0]))
    if case["rs"] == "hllc":
        right = np.minimum(wl[1], wr[1]) - c > 1e-9
        left = np.maximum(wl[1], wr[1]) + c < -1e-9
        ctx.require(right.any() and left.any(), "alphabet without supersonic pairs")
        ctx.close(f[:, right], ref.prim_to_flux(wl)[:, right], 1e-12, "supersonic flux to the right", scale=100)
        ctx.close(f[:, left], ref.prim_to_flux(wr)[:, left], 1e-12, "supersonic flux to the left", scale=100)
    # mirror symmetry
    flip = lambda w: np.array([w[0], -w[1], w[2]])
    g = getattr(ref, case["rs"])(flip(wr), flip(wl))
    ctx.close(np.array([-g[0], g[1], -g[2]]), f, 1e-11, "mirrored flux", scale=np.max(np.abs(f)))
    ctx.outcome("fluxes")
