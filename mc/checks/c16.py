"""C16: limited face values for every triple of an alphabet of cell averages, along every axis."""
from fvhoe.slope_limiting import MUSCL_interpolations
from mc.fvlib import *

ID = "C16"
TECHNIQUE = "exhaustive enumeration of value triples and of short words of cell averages, axes and array ranks on the real limiter; oracle: range, symmetry and reference slopes"
RULE = (
    "triple cases = limiter x rank x axis on every ordered triple of the value alphabet (all lines independent); word cases = every word of cell averages over 4 letters on a line; "
    "symmetry relations evaluated on every triple"
)
BOUNDS = dict(
    quick="29 values from 1e-300 to 1e150 of both signs and zero: 24389 triples x 3 limiters x ranks 1-4 x all axes; words of length 6 over 4 letters; degree-1 solver slopes",
    thorough="61 values, words of length 8",
)
ASSUMPTIONS = ["absolute tolerance 1e-15 (the limiter regularises differences below 1e-16), relative 1e-13 of the largest of the three values"]
VAL = [0.0, 1e-300, 1e-20, 1e-16, 3e-15, 1e-9, 0.1, 0.25, 1.0, 1.0000000001, 1.5, 2.0, 7.0, 1e8, 1e150]
MORE = [1e-150, 1e-17, 2e-16, 1e-12, 1e-3, 0.3, 0.5, 0.9, 1.1, 1.25, 3.0, 4.0, 5.0, 6.5, 1e4, 1e16]


def vals(th):
    v = VAL + (MORE if th else [])
    return sorted(set(v) | {-x for x in v})


def cases(tier):
    th = tier == "thorough"
    out = []
    for lim, rank in itertools.product(("minmod", "moncen", None), range(1, 5)):
        for axis in range(rank):
            out.append(dict(k="triple", lim=lim, rank=rank, axis=axis, th=th))
            out.append(dict(k="word", lim=lim, rank=rank, axis=axis, len=8 if th else 6))
    for lim, dims in itertools.product(("minmod", "moncen", None), DIMSETS):
        out.append(dict(k="solver", lim=lim, dims=dims))
    return out


def slope(lim, dl, dr):
    if lim is None:
        return (dl + dr) / 2
    same = ((dl > 0) & (dr > 0)) | ((dl < 0) & (dr < 0))
    a, b = np.abs(dl), np.abs(dr)
    m = np.minimum(a, b) if lim == "minmod" else np.minimum(2 * np.minimum(a, b), (a + b) / 2)
    return np.where(same, np.sign(dl) * m, 0.0)


def along(lines, rank, axis):
    """(N, L) lines -> array of the given rank with the lines along axis"""
    N, L = lines.shape
    if rank == 1:
        return None
    other = {2: (N,), 3: (N, 1), 4: (N, 1, 1)}[rank]
    if rank > 2 and N % 7 == 0:
        other = {3: (7, N // 7), 4: (7, 1, N // 7)}[rank]
    a = lines.reshape(*other, L)
    return np.moveaxis(a, -1, axis), other


def apply(lines, lim, rank, axis, ctx):
    """left and right faces, (N, L - 2)"""
    N, L = lines.shape
    ctx.step(N)
    if rank == 1:
        out = [MUSCL_interpolations(l.copy(), axis=0, limiter=lim) for l in lines]
        return np.array([o[0] for o in out]), np.array([o[1] for o in out])
    a, other = along(lines, rank, axis)
    keep = a.copy()
    l, r = MUSCL_interpolations(a, axis=axis, limiter=lim)
    ctx.require(np.array_equal(a, keep), "the input was modified")
    want = list(a.shape)
    want[axis] -= 2
    ctx.require(l.shape == tuple(want) and r.shape == tuple(want), f"shapes {l.shape}, {r.shape} instead of {tuple(want)}")
    return np.moveaxis(l, axis, -1).reshape(N, L - 2), np.moveaxis(r, axis, -1).reshape(N, L - 2)


def examine(lines, lim, rank, axis, ctx, symmetries):
    c, lo, hi = lines[:, 1:-1], lines[:, :-2], lines[:, 2:]
    mag = np.maximum(np.maximum(np.abs(lo), np.abs(hi)), np.abs(c))
    tol = 1e-15 + 1e-13 * mag
    fl, fr = apply(lines, lim, rank, axis, ctx)
    dl, dr = c - lo, hi - c

    def req(ok, what):
        ctx.checks += ok.size
        if not np.all(ok):
            j = tuple(np.argwhere(~ok)[0])
            ctx.require(False, f"{what}: averages {lo[j]!r}, {c[j]!r}, {hi[j]!r} give faces {fl[j]!r}, {fr[j]!r}")

    req(np.isfinite(fl) & np.isfinite(fr), "finite faces")
    s = slope(lim, dl, dr)
    req(np.abs(fl - (c - s / 2)) <= tol, "left face")
    req(np.abs(fr - (c + s / 2)) <= tol, "right face")
    req(np.abs(fl / 2 + fr / 2 - c) <= tol, "faces average to the cell")
    if lim is not None:
        top, bot = np.maximum(np.maximum(lo, hi), c), np.minimum(np.minimum(lo, hi), c)
        for f in (fl, fr):
            req((f <= top + tol) & (f >= bot - tol), "face within the neighbourhood")
        near = np.minimum(np.abs(dl), np.abs(dr))
        if lim == "minmod":
            for f in (fl, fr):
                req(np.abs(f - c) <= near + tol, "minmod face beyond the nearer average")
        ext = (dl * np.sign(dr) <= 0)
        req(~ext | ((np.abs(fl - c) <= tol) & (np.abs(fr - c) <= tol)), "extremum not flat")
    if symmetries:
        gl, gr = apply(lines[:, ::-1].copy(), lim, rank, axis, ctx)
        req((np.abs(gl[:, ::-1] - fr) <= tol) & (np.abs(gr[:, ::-1] - fl) <= tol), "mirror")
        gl, gr = apply(-lines, lim, rank, axis, ctx)
        req((np.abs(gl + fl) <= tol) & (np.abs(gr + fr) <= tol), "sign change")
        for f in (0.5, 3.0, 1e-4):
            gl, gr = apply(f * lines, lim, rank, axis, ctx)
            t = 1e-15 + 3e-13 * mag * max(f, 1)
            req((np.abs(gl - f * fl) <= t) & (np.abs(gr - f * fr) <= t), f"scaled by {f}")
        for d in (1.0, -2.5):
            gl, gr = apply(lines + d, lim, rank, axis, ctx)
            t = 1e-15 + 1e-12 * (mag + abs(d))
            req((np.abs(gl - d - fl) <= t) & (np.abs(gr - d - fr) <= t), f"shifted by {d}")


def run(case, ctx):
    if case["k"] == "solver":
        return through_solver(case, ctx)
    lim, rank, axis = case["lim"], case["rank"], case["axis"]
    if case["k"] == "triple":
        v = vals(case["th"])
        if rank == 1:
            v = v[:: 2 if not case["th"] else 3]
        lines = np.array(list(itertools.product(v, repeat=3)))
    else:
        L = case["len"] if rank > 1 else 5
        lines = np.array(list(itertools.product((0.0, 1.0, 1.75, -2.0), repeat=L)))
    examine(lines, lim, rank, axis, ctx, symmetries=rank > 1 or case["k"] == "triple")
    for l in lines[:: max(1, len(lines) // 3000)]:
        ctx.state(l, lim, rank, axis)
    ctx.outcome(case["k"] + "s", len(lines))


def through_solver(case, ctx):
    """every cell troubled, first order in time: the update uses these faces in every direction"""
    from mc.checks.c14 import ref_llf

    dims, lim = case["dims"], case["lim"]
    n = shape_for(dims, [5, 4, 6][: len(dims)])
    dom = [(0, 1), (0, 2), (0, 0.5)]
    w = state("rough", n, npass=1)
    for pd in (1, 2, 3):
        if pd != 1 and lim is None:
            pass
        s = solver(n, degrees_for(dims, pd), w=w, rs="llf", dom=dom, a_posteriori_slope_limiting=True, force_trouble=True, slope_limiter=lim)
        dt, d = rhs(s)
        ctx.step()
        ref = np.zeros_like(d)
        for i in range(3):
            if AX[i] not in dims:
                continue
            ax = 1 + i
            sl = slope(lim, w - np.roll(w, 1, ax), np.roll(w, -1, ax) - w)
            left, right = w - sl / 2, w + sl / 2
            F = ref_llf(right, np.roll(left, -1, ax), i, GAMMA, 1e-10)
            ref -= (F - np.roll(F, 1, ax)) / ((dom[i][1] - dom[i][0]) / n[i])
        ctx.close(d, ref, 1e-11, f"right-hand side with every cell limited, degree {pd}", scale=max(1.0, np.max(np.abs(ref))))
        ctx.state(repr(case), pd)
