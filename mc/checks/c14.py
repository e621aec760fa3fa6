"""C14: every Riemann solver on every pair of an alphabet of states, against independent flux formulas."""
from fvhoe.hydro import HydroState
from fvhoe.riemann_solvers import advection_upwind, hllc, llf
from mc.fvlib import *

ID = "C14"
TECHNIQUE = "exhaustive enumeration of left/right state pairs over an alphabet on the real flux functions; oracle: independent textbook fluxes and symmetry relations"
RULE = (
    "case = solver x direction x gamma x sound-speed floor x scalars x block of left states, inside: every right state of the alphabet "
    "(all combinations of density, normal velocity, transverse velocity, pressure); plus right-hand sides through the solver by name"
)
BOUNDS = dict(
    quick="alphabet of 480 states (density 1e-3..7, velocity 0, subsonic, sonic, supersonic of both signs, pressure 1e-3..100): 230400 pairs x 3 directions x 3 gammas x 2 floors x 0,1,3 scalars; 108 dyadic states (exactly sonic waves) and 90 extreme states (density 1e-6..1e5, pressure 1e-8..1e6), all pairs; thin, dense and slow gases (densities 1e-13 to 1e12, velocities from 3e-13), all pairs",
    thorough="alphabet of 1200 states",
)
ASSUMPTIONS = ["tolerance 1e-11 of the flux and signal-speed-weighted state magnitudes"]
FN = dict(hllc=hllc, llf=llf, advection_upwind=advection_upwind)
RHO = [1e-3, 0.125, 1.0, 7.0]
VN = [-30.0, -2.0, -0.4, 0.0, 0.4, 30.0]
VT = [(0.0, 0.0), (1.5, -0.7), (-0.3, 0.2), (0.0, 2.0), (0.5, 0.5)]
PR = [1e-3, 0.1, 1.0, 100.0]


# gamma 2 and dyadic states: wave speeds of exactly zero occur
SONIC = [(r, v, t, -t, p) for r, v, t, p in itertools.product((0.5, 2.0, 8.0), (-4.0, -2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0, 4.0), (0.0, 0.75), (1.0, 4.0))]


EXTREMES = [(r, v, t, -t, p) for r, v, t, p in itertools.product((1e-6, 1e-4, 1e5), (-1e3, -0.1, 0.0, 0.1, 1e3), (0.0, 30.0), (1e-8, 1.0, 1e6))]

# other units: thin and dense gases, and gases slow and cold enough that velocities of 1e-13 matter
UNITS = dict(
    thin=[(r, v, t, -t, p) for r, v, t, p in itertools.product((1e-13, 4e-12, 1e-10), (-30.0, -0.4, 0.0, 0.4, 30.0), (0.0, 0.7), (1e-15, 1e-12, 1e-9))],
    dense=[(r, v, t, -t, p) for r, v, t, p in itertools.product((1e9, 4e10, 1e12), (-30.0, -0.4, 0.0, 0.4, 30.0), (0.0, 0.7), (1e8, 1e11, 1e13))],
    slow=[(r, v, t, -t, p) for r, v, t, p in itertools.product((0.125, 1.0, 7.0), (-1e-4, -1e-8, -3e-13, 0.0, 3e-13, 1e-8, 1e-4), (0.0, 1e-5), (1e-10, 1e-9, 1.0001e-9))],
)


def alphabet(th):
    if th in UNITS:
        return np.array(UNITS[th]).T
    if th == "sonic":
        return np.array(SONIC).T
    if th == "extreme":
        return np.array(EXTREMES).T
    vn = VN + ([2.0, -1e-9, 1e-9, -11.8, 11.8] if th else [])
    vt = VT
    rho = RHO
    pr = PR + ([1.0000001] if th else [])
    return np.array([(r, v, t[0], t[1], p) for r, v, t, p in itertools.product(rho, vn, vt, pr)]).T


def cases(tier):
    th = tier == "thorough"
    N = alphabet(th).shape[1]
    blocks = 4 if not th else 20
    out = []
    for rs, dim, gamma, floor, npass in itertools.product(FN, AX, (1.4, 5 / 3, 1.1), (1e-10, 0.5), (0, 1, 3)):
        for b in range(blocks):
            out.append(dict(k="pairs", rs=rs, dim=dim, gamma=gamma, floor=floor, npass=npass, lo=b * N // blocks, hi=(b + 1) * N // blocks, th=th))
    for rs, dim, npass in itertools.product(FN, AX, (0, 2)):
        out.append(dict(k="pairs", rs=rs, dim=dim, gamma=2.0, floor=1e-10, npass=npass, lo=0, hi=len(SONIC), th="sonic"))
        out.append(dict(k="pairs", rs=rs, dim=dim, gamma=1.4, floor=1e-10, npass=npass, lo=0, hi=len(EXTREMES), th="extreme"))
    for th_, rs, dim, npass in itertools.product(UNITS, FN, AX, (0, 2)):
        out.append(dict(k="pairs", rs=rs, dim=dim, gamma=1.4, floor=1e-10, npass=npass, lo=0, hi=len(UNITS[th_]), th=th_))
    for rs, dims, gamma, npass in itertools.product(FN, DIMSETS, (1.4, 5 / 3), (0, 2)):
        out.append(dict(k="solver", rs=rs, dims=dims, gamma=gamma, npass=npass))
    return out


def orient(w, dim):
    """(rho, normal, t1, t2, P) -> the package's order for normal direction dim"""
    i = AX.index(dim)
    o = w.copy()
    o[1 + i], o[1 + (i + 1) % 3], o[1 + (i + 2) % 3] = w[1], w[2], w[3]
    return o


def phys(w, u, i, pressure=True):
    v = w[1 + i]
    F = v * u
    if pressure:
        F[1 + i] = F[1 + i] + w[4]
        F[4] = F[4] + v * w[4]
    return F


def cs(w, gamma, floor):
    return np.sqrt(np.maximum(gamma * w[4] / w[0], floor))


def ref_llf(wl, wr, i, gamma, floor):
    ul, ur = cons(wl, gamma), cons(wr, gamma)
    s = np.maximum(np.abs(wl[1 + i]) + cs(wl, gamma, floor), np.abs(wr[1 + i]) + cs(wr, gamma, floor))
    return (phys(wl, ul, i) + phys(wr, ur, i)) / 2 - s * (ur - ul) / 2


def ref_hllc(wl, wr, i, gamma, floor):
    """Toro chapter 10: F* = F_K + S_K (U*_K - U_K)"""
    ul, ur = cons(wl, gamma), cons(wr, gamma)
    c = np.maximum(cs(wl, gamma, floor), cs(wr, gamma, floor))
    vl, vr = wl[1 + i], wr[1 + i]
    SL, SR = np.minimum(vl, vr) - c, np.maximum(vl, vr) + c
    SS = (wr[4] - wl[4] + wl[0] * vl * (SL - vl) - wr[0] * vr * (SR - vr)) / (wl[0] * (SL - vl) - wr[0] * (SR - vr))

    def star(w, u, S):
        f = w[0] * (S - w[1 + i]) / (S - SS)
        us = f * u / w[0]
        us[1 + i] = f * SS
        us[4] = f * (u[4] / w[0] + (SS - w[1 + i]) * (SS + w[4] / (w[0] * (S - w[1 + i]))))
        return us

    FL, FR = phys(wl, ul, i), phys(wr, ur, i)
    FsL = FL + SL * (star(wl, ul, SL) - ul)
    FsR = FR + SR * (star(wr, ur, SR) - ur)
    return np.where(SL >= 0, FL, np.where(SS >= 0, FsL, np.where(SR >= 0, FsR, FR))), SL, SR


def magnitude(wl, wr, i, gamma, floor):
    """natural size of each flux component"""
    m = 0
    for w in (wl, wr):
        u = cons(w, gamma)
        s = np.abs(w[1 + i]) + cs(w, gamma, floor)
        m = np.maximum(m, np.abs(u) * s)
    s = np.maximum(*[np.abs(w[1 + i]) + cs(w, gamma, floor) for w in (wl, wr)])
    rho = np.maximum(wl[0], wr[0])
    vel = np.maximum(s, np.maximum(*[np.max(np.abs(w[1:4]), axis=0) for w in (wl, wr)]))
    m[1:4] = np.maximum(m[1:4], rho * s * vel)
    m[4] = np.maximum(m[4], rho * s * vel * vel)
    m[0] = np.maximum(m[0], rho * s)
    if len(m) > 5:
        m[5:] = np.maximum(m[5:], rho * s * np.maximum(np.abs(wl[5:]), np.abs(wr[5:])))
    return m


def run(case, ctx):
    if case["k"] == "solver":
        return through_solver(case, ctx)
    fn, dim, gamma, floor, npass = FN[case["rs"]], case["dim"], case["gamma"], case["floor"], case["npass"]
    i = AX.index(dim)
    hs = HydroState(passive_scalars=tuple(f"s{j}" for j in range(npass)))
    A = orient(alphabet(case["th"]), dim)
    N = A.shape[1]
    ps = np.array([0.3 + noise((N,), 5 + j) - (0.8 if j == 1 else 0) for j in range(npass)]).reshape(npass, N)
    A = np.concatenate([A, ps])
    B = A[:, case["lo"]:case["hi"]]
    M = B.shape[1]
    wl = np.repeat(B[:, :, None, None], N, axis=2)
    wr = np.broadcast_to(A[:, None, :, None], wl.shape).copy()

    def call(l, r, d=dim):
        lc, rc = l.copy(), r.copy()
        out = np.array(fn(hs=hs, riemann_problem=(l, r), gamma=gamma, dim=d, csq_floor=floor), dtype=float)
        ctx.step(l[0].size)
        ctx.require(np.array_equal(l, lc) and np.array_equal(r, rc), "the states passed in were modified")
        return out

    def near(a, b, what, mask=None, tol=1e-11):
        m = mag if mask is None else np.where(mask, mag, np.inf)
        with np.errstate(all="ignore"):
            bad = ~(np.abs(a - b) <= tol * m)
        if mask is not None:
            bad &= mask
        ctx.checks += a.size
        if np.any(bad):
            j = tuple(np.argwhere(bad)[0])
            ctx.require(False, f"{what}: component {j[0]} is {a[j]!r}, expected {b[j]!r}; left {wl[:, j[1], j[2], 0]}, right {wr[:, j[1], j[2], 0]}")

    mag = magnitude(wl, wr, i, gamma, floor)
    F = call(wl, wr)
    ctx.require(F.shape == wl.shape, f"flux of shape {F.shape}")
    ul, ur = cons(wl, gamma), cons(wr, gamma)
    press = case["rs"] != "advection_upwind"
    FL, FR = phys(wl, ul, i, press), phys(wr, ur, i, press)
    eq = np.all(wl == wr, axis=0)[None] & np.ones_like(F, dtype=bool)
    near(F, FL, "equal states", eq)
    if case["rs"] == "llf":
        near(F, ref_llf(wl, wr, i, gamma, floor), "LLF formula")
    elif case["rs"] == "hllc":
        R, SL, SR = ref_hllc(wl, wr, i, gamma, floor)
        near(F, R, "three-wave flux")
        near(F, FL, "all waves move right", (SL > 0)[None] & np.ones_like(F, dtype=bool))
        near(F, FR, "all waves move left", (SR < 0)[None] & np.ones_like(F, dtype=bool))
        st = (wl[1 + i] == 0) & (wr[1 + i] == 0) & (wl[4] == wr[4])
        Z = np.zeros_like(F)
        Z[1 + i] = wl[4]
        near(F, Z, "stationary contact", st[None] & np.ones_like(F, dtype=bool), tol=1e-13)
    else:
        v = wl[1 + i]
        same = (v == wr[1 + i])[None] & np.ones_like(F, dtype=bool)
        near(F, FL, "upwind, positive velocity", same & (v > 0))
        near(F, FR, "upwind, negative velocity", same & (v < 0))
        near(F, np.zeros_like(F), "no velocity", same & (v == 0))
    # mirror reflection
    flip = np.ones((F.shape[0], 1, 1, 1))
    flip[1 + i] = -1
    G = call(wr * flip, wl * flip)
    ok = np.ones_like(F, dtype=bool) if press else (wl[1 + i] == wr[1 + i])[None] & np.ones_like(F, dtype=bool)
    near(-flip * G, F, "mirrored states", ok)
    # relabelled axes
    for d in AX:
        if d != dim:
            k = AX.index(d)
            for t in ((0, 1), (1, 0)):
                src = [i] + [[(i + 1) % 3, (i + 2) % 3][q] for q in t]
                dst = [k, (k + 1) % 3, (k + 2) % 3]
                pl, pr = wl.copy(), wr.copy()
                for a, b in zip(dst, src):
                    pl[1 + a], pr[1 + a] = wl[1 + b], wr[1 + b]
                H = call(pl, pr, d)
                back = H.copy()
                for a, b in zip(dst, src):
                    back[1 + b] = H[1 + a]
                near(back, F, f"axes relabelled {dim} -> {d}")
    # scalars ride on the mass flux
    for j in range(npass):
        const = 0.7 - j
        cl, cr = wl.copy(), wr.copy()
        cl[5 + j] = cr[5 + j] = const
        E = call(cl, cr)
        d = np.abs(E[5 + j] - const * E[0])
        ctx.require(np.all(d <= 1e-11 * (mag[0] * abs(const) + 1e-300)), "a scalar equal on both sides is not carried by the mass flux")
        ctx.require(np.array_equal(E[:5], F[:5]) or np.all(np.abs(E[:5] - F[:5]) <= 1e-12 * mag[:5]), "a scalar changes the flux of the flow")
        if case["rs"] == "hllc":
            want = F[0] * np.where(F[0] > 0, wl[5 + j], wr[5 + j])
            ctx.require(np.all(np.abs(F[5 + j] - want) <= 1e-11 * mag[5 + j]), "a scalar is not taken from the upwind side of the mass flux")
    # the layout of the arrays is irrelevant
    T = call(np.ascontiguousarray(np.transpose(wl, (0, 3, 2, 1))), np.ascontiguousarray(np.transpose(wr, (0, 3, 2, 1))))
    near(np.transpose(T, (0, 3, 2, 1)), F, "transposed arrays")
    ctx.state(case["rs"], dim, gamma, floor, npass, wl[0], case["lo"])
    for a in range(M):
        ctx.state(case["rs"], dim, gamma, floor, npass, B[:, a])
    ctx.outcome("pairs", M * N)


def through_solver(case, ctx):
    dims, gamma = case["dims"], case["gamma"]
    n = shape_for(dims, [4, 3, 5][: len(dims)])
    dom = [(0, 0.8), (1, 2.5), (-1, 0)]
    kinds = ("rough", "smooth") if case["rs"] != "advection_upwind" else ("advect",)
    for kind in kinds:
        w = state(kind, n, npass=case["npass"])
        s = solver(n, (0, 0, 0), w=w, gamma=gamma, rs=case["rs"], dom=dom)
        dt, d = rhs(s)
        ctx.step()
        u = cons(w, gamma)
        ref = np.zeros_like(u)
        for i in range(3):
            if AX[i] not in dims:
                continue
            wr = np.roll(w, -1, axis=1 + i)
            if case["rs"] == "llf":
                F = ref_llf(w, wr, i, gamma, 1e-10)
            elif case["rs"] == "hllc":
                F = ref_hllc(w, wr, i, gamma, 1e-10)[0]
            else:
                F = np.where(w[1 + i] > 0, phys(w, u, i, False), phys(wr, cons(wr, gamma), i, False))
            h = (dom[i][1] - dom[i][0]) / n[i]
            ref -= (F - np.roll(F, 1, axis=1 + i)) / h
        ctx.close(d, ref, 1e-11, f"right-hand side with {case['rs']}", scale=max(1.0, np.max(np.abs(ref))) * 10)
        ctx.state(u, case["rs"])
        ctx.outcome("through the solver")
