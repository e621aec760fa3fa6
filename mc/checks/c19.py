"""C19: positivity and scalar maximum principle of the first-order LLF scheme."""
from mc.fvlib import *

ID = "C19"
TECHNIQUE = "exhaustive enumeration of neighbourhoods over an alphabet of extreme cell states, advanced by the real solver at the limiting Courant number; invariant checked after every step"
RULE = (
    "packed cases: every cell neighbourhood (3 cells in 1D, 5-cell crosses in 2D, 7-cell crosses in 3D) over the alphabet, each rescaled "
    "to the same maximal wave speed so that every one of them meets the limiting step, for every direction set and aspect ratio; "
    "word cases: every small mesh filled with letters x boundary types, several steps"
)
BOUNDS = dict(
    quick="36 letters (1D, 46656 triples), 7 letters (2D, 16807 crosses), 4 letters (3D, 16384 crosses), 2 steps; six more gases and magnitudes (gamma 1.05 to 3, densities 1e-12 to 1e9); words of 3 cells (9 letters) and 2x2 cells (4 letters), 4 steps, 5 boundary combinations",
    thorough="60 letters (1D), 10 letters (2D), 5 letters (3D); words of 4 cells (9 letters) and 2x2 cells (6 letters), 6 steps",
)
ASSUMPTIONS = ["positivity is demanded up to the rounding error of sums of the neighbouring cells' conserved values"]


def letters(rhos, cs, machs, tang=(0.0,), gamma=GAMMA):
    """(rho, normal velocity, tangential velocity, P) with sound speed c"""
    out = []
    for r, c, m, t in itertools.product(rhos, cs, machs, tang):
        out.append((r, m * c, t * c, r * c * c / gamma))
    return out


# other gases and other magnitudes: gamma, densities, sound speeds
VARIANTS = {
    "soft": (1.05, (1e-3, 1e3), (0.1, 30.0)),
    "monatomic": (5 / 3, (1e-3, 1e3), (0.1, 30.0)),
    "stiff": (3.0, (1e-3, 1e3), (0.1, 30.0)),
    "rarefied": (GAMMA, (1e-12, 1e-6, 1e-4), (1.0, 30.0)),
    "dense": (GAMMA, (1e4, 1e9), (0.1, 30.0)),
    "contrast": (5 / 3, (1e-7, 1.0, 1e7), (1e-4, 1e4)),
}


def alphabet(nd, tier, variant=None):
    th = tier == "thorough"
    if variant is not None:
        gamma, rhos, cs = VARIANTS[variant]
        if nd == 1:
            return letters(rhos, cs, (-20, -1, 0.0, 0.5, 20) if th else (-20, 0.5, 20), gamma=gamma)
        if nd == 2:
            return letters(rhos[:1], cs[:1], (-20, 0.5), (15.0,), gamma) + letters(rhos[-1:], cs, (2,), (-3.0,), gamma)
        return letters(rhos[:1], cs[:1], (20,), (15.0,), gamma) + letters(rhos[-1:], cs[-1:], (0.3,), gamma=gamma) + letters(rhos[-1:], cs[:1], (-20,), (-3.0,), gamma)
    if nd == 1:
        return letters((1e-3, 1.0, 1e3), (1e-1, 1.0, 30.0), (-20, -1, 0.5, 20) + ((0.0,) if th else ())) + (
            letters((1e-3, 1e3), (1.0,), (-20, 0, 20), (-10, 10, 0.5)) if th else []
        )
    if nd == 2:
        a = letters((1.0,), (1.0,), (0.0,)) + letters((1e-3, 1e3), (0.3,), (-20, 20), (15.0,))[:4]
        a += letters((1e3,), (20.0,), (0.3,)) + letters((1e-3,), (1.0,), (-1,), (-20,))
        return a + (letters((1e-2, 1e2), (1.0,), (5,), (-5,)) + letters((1.0,), (1e-3,), (10.0,)) if th else [])
    a = letters((1.0,), (1.0,), (0.0,)) + letters((1e-3,), (0.3,), (20,), (15.0,)) + letters((1e3,), (0.3,), (-20,), (-3.0,)) + letters((1e-3,), (20.0,), (-1,))
    return a + (letters((1e3,), (1e-2,), (10,), (-10.0,)) if th else [])


ASPECT = {1: [[1.0]], 2: [[1, 1], [1, 4], [7, 1]], 3: [[1, 1, 1], [1, 3, 9], [9, 1, 2]]}
WORDBC = ["periodic", "free", "reflective", ["reflective", "free"], ["free", "reflective"]]
WL = letters((1e-3, 1e3), (0.3,), (-20, 20)) + letters((1.0,), (1.0,), (0.0, 2)) + letters((1e3,), (30.0,), (0.0,)) + letters((1e-3,), (1.0,), (-1, 1), (5,))


def cases(tier):
    th = tier == "thorough"
    out = []
    for dims in DIMSETS:
        for asp in ASPECT[len(dims)]:
            na = len(alphabet(len(dims), tier))
            # the first letter (the centre cell) is fixed per case
            for c in range(na):
                out.append(dict(k="packed", dims=dims, aspect=asp, centre=c, tier=tier))
        for v in VARIANTS:
            for asp in ASPECT[len(dims)][:: 2 if len(dims) > 1 else 1]:
                for c in range(len(alphabet(len(dims), tier, v))):
                    out.append(dict(k="packed", dims=dims, aspect=asp, centre=c, tier=tier, variant=v))
    for dims, bc in itertools.product(("x", "y", "z"), WORDBC):
        for c in range(9):
            out.append(dict(k="words", dims=dims, n=[4 if th else 3], bc=bc, first=c, steps=6 if th else 4, letters=9))
    for dims, bc in itertools.product(("xy", "xz", "yz"), WORDBC):
        for c in range(6 if th else 4):
            out.append(dict(k="words", dims=dims, n=[2, 2], bc=bc, first=c, steps=6 if th else 4, letters=6 if th else 4))
    for bc in WORDBC:
        for c in range(2):
            out.append(dict(k="words", dims="xyz", n=[2, 2, 2], bc=bc, first=c, steps=3, letters=2))
    return out


def run(case, ctx):
    {"packed": packed, "words": words_}[case["k"]](case, ctx)


def fill(w, where, lets, idx, dims):
    """primitive states of the letters idx into w[:, where]; the normal velocity follows the first active direction"""
    L = np.array(lets)[idx]
    order = [i for i in range(3) if AX[i] in dims] + [i for i in range(3) if AX[i] not in dims]
    w[0][where] = L[..., 0]
    w[1 + order[0]][where] = L[..., 1]
    w[1 + order[1]][where] = L[..., 2]
    w[1 + order[2]][where] = -0.5 * L[..., 2]
    w[4][where] = L[..., 3]


def neighbours(a, act, ghosts):
    """list of the face-neighbour arrays; ghosts: (kind left, kind right) per direction"""
    out = [a]
    for i in act:
        ax = i + 1
        kl, kr = ghosts[i]
        lo = np.roll(a, 1, axis=ax)
        hi = np.roll(a, -1, axis=ax)
        if kl != "periodic":  # the ghost repeats (or mirrors) the boundary cell
            sl = [slice(None)] * a.ndim
            sl[ax] = slice(0, 1)
            lo[tuple(sl)] = a[tuple(sl)]
            sl[ax] = slice(-1, None)
            hi[tuple(sl)] = a[tuple(sl)]
        out += [lo, hi]
    return out


def check_step(s, before, act, ghosts, ctx, what, gamma=GAMMA):
    s.euler(n=1)
    ctx.step()
    u = U(s)
    wb = prims(before, gamma)
    nb = neighbours(np.abs(before), act, ghosts)
    big = np.maximum.reduce(nb)
    eps = 1e-12
    sq = lambda m: m[1] ** 2 + m[2] ** 2 + m[3] ** 2
    mom = np.sqrt(np.maximum.reduce([sq(m) for m in nb]))
    ctx.require(np.all(np.isfinite(u)), lambda: f"{what}: non-finite values")
    bad = u[0] <= -eps * big[0]
    ctx.require(not np.any(bad), lambda: f"{what}: density {u[0][bad][0]!r} in {int(bad.sum())} cells")
    rho = np.maximum(u[0], 1e-300)
    v = np.sqrt(sq(u)) / rho
    P = (gamma - 1) * (u[4] - 0.5 * sq(u) / rho)
    # rounding of the update and of the difference between total and kinetic energy
    slack = eps * (big[4] + v * mom + v * v * big[0])
    bad = ~(P > -slack)
    ctx.require(not np.any(bad), lambda: f"{what}: pressure {P[bad][0]!r} in {int(bad.sum())} cells, rounding {slack[bad][0]!r}")
    loose = int(np.sum((P <= 0) | (u[0] <= 0)))
    sb = wb[5:]
    lo, hi = np.minimum.reduce(neighbours(sb, act, ghosts)), np.maximum.reduce(neighbours(sb, act, ghosts))
    sn = u[5:] / rho
    tol = eps * (1 + np.maximum(np.abs(lo), np.abs(hi))) * (1 + big[0] / rho)
    bad = ~((sn >= lo - tol) & (sn <= hi + tol))
    ctx.require(not np.any(bad), lambda: f"{what}: scalar {sn[bad][0]!r} outside [{lo[bad][0]!r}, {hi[bad][0]!r}] in {int(bad.sum())} cells")
    return u, loose


def packed(case, ctx):
    dims, asp = case["dims"], case["aspect"]
    nd = len(dims)
    lets = alphabet(nd, case["tier"], case.get("variant"))
    gamma = VARIANTS[case["variant"]][0] if "variant" in case else GAMMA
    na = len(lets)
    rest = np.array(list(itertools.product(range(na), repeat=2 * nd)))  # neighbours of the centre
    nblk = len(rest)
    # blocks of 3^nd cells in a row along the first active direction
    act = [i for i in range(3) if AX[i] in dims]
    blk = np.zeros((nblk,) + tuple(3 if i in act else 1 for i in range(3)), dtype=int)
    # corner cells take letters too, so that every cell holds a legal state
    for pos in np.ndindex(blk.shape[1:]):
        blk[(slice(None),) + pos] = rest[:, sum(pos) % rest.shape[1]]
    mid = tuple(1 if i in act else 0 for i in range(3))
    blk[(slice(None),) + mid] = case["centre"]
    for j, i in enumerate(act):
        for side in (0, 1):
            pos = list(mid)
            pos[i] = 2 * side
            blk[(slice(None),) + tuple(pos)] = rest[:, 2 * j + side]
    w = np.empty((6,) + blk.shape)
    fill(w, slice(None), lets, blk, dims)
    # every block gets the same maximal wave speed (velocities scale with s, pressures with s^2)
    c = np.sqrt(gamma * w[4] / w[0])
    # tangential velocities enter the step even where they are inactive
    sp = np.abs(w[1]) + np.abs(w[2]) + np.abs(w[3]) + nd * c
    sc = 1.0 / sp.reshape(nblk, -1).max(axis=1).reshape(nblk, 1, 1, 1)
    for i in (1, 2, 3):
        w[i] *= sc
    w[4] *= sc**2
    w[5] = noise(blk.shape, 5) - 0.3
    # lay the blocks side by side along the first active direction
    a0 = act[0]
    w = np.moveaxis(w, 1, 1 + a0)  # (6, .., block, cell along a0, ..)
    shp = list(w.shape)
    merged = shp[: 1 + a0] + [shp[1 + a0] * shp[2 + a0]] + shp[3 + a0 :]
    w = w.reshape(merged)
    n = w.shape[1:]
    asp3 = {a: x for a, x in zip(dims, asp)}
    dom = [(0.0, n[i] * asp3.get(AX[i], 10.0)) for i in range(3)]
    s = solver(n, (0, 0, 0), w=w, rs="llf", dom=dom, CFL=1.0 / nd, gamma=gamma, **(dict(csq_floor=1e-30) if "variant" in case else {}))
    u = U(s)
    ghosts = [("periodic", "periodic")] * 3
    tot = 0
    for k in range(2):
        u, loose = check_step(s, u, act, ghosts, ctx, f"step {k + 1}", gamma)
        tot += loose
    ctx.step(nblk - 1)
    for b in range(nblk):
        ctx.state(dims, tuple(asp), case["centre"], b, case.get("variant"))
    ctx.outcome("neighbourhoods", nblk)
    ctx.outcome("cells at zero within rounding", tot)


def words_(case, ctx):
    dims = case["dims"]
    n = shape_for(dims, case["n"])
    N = int(np.prod(n))
    act = [i for i in range(3) if AX[i] in dims]
    bc = case["bc"] if isinstance(case["bc"], list) else [case["bc"]] * 2
    ghosts = [tuple(bc)] * 3
    sub = [0, 4, 6, 7, 2, 8] if case["letters"] == 6 else [0, 4, 6, 7] if case["letters"] == 4 else [0, 6] if case["letters"] == 2 else list(range(9))
    for t in itertools.product(sub, repeat=N - 1):
        idx = np.array((sub[case["first"]],) + t).reshape(n)
        w = np.empty((6,) + n)
        fill(w, slice(None), WL, idx, dims)
        w[5] = noise(n, 5) - 0.3
        s = solver(n, (0, 0, 0), w=w, rs="llf", dom=[(0, 1), (0, 2.5), (0, 0.6)], CFL=1.0 / len(act), bc={a: bc for a in dims})
        u = U(s)
        for k in range(case["steps"]):
            u, _ = check_step(s, u, act, ghosts, ctx, f"cells {idx.tolist()}, step {k + 1}")
            if k == 0:
                ctx.state(idx, dims, repr(bc))
    ctx.outcome("meshes of letters", len(sub) ** (N - 1))
