"""C08: exactness of interpolation, reconstruction and cell-average quadrature."""
from fractions import Fraction

from fvhoe.fv import (
    conservative_interpolation,
    fv_average,
    interpolate_cell_centers,
    interpolate_fv_averages,
    second_order_central_difference,
    transverse_reconstruction,
)
from fvhoe.stencils import get_stencil_size
from mc.fvlib import *

ID = "C08"
TECHNIQUE = "exhaustive enumeration of degrees, positions, axes, monomials and unit impulses on the operators; oracle: exact rational moments"
RULE = (
    "case = operator x degree x axis x array rank; inside a case all monomials up to the degree (a basis, so by the linearity that the impulse "
    "responses establish all polynomials) on all cells, unit impulses at every position, every line and variable independently"
)
BOUNDS = dict(quick="degrees 0-8, ranks 1-4, all axes; 3D tensor degrees 0-3 (0-8 on one axis)", thorough="3D tensor degrees 0-8 on two axes")
ASSUMPTIONS = ["relative tolerance 1e-12 of the largest stencil term"]


def cases(tier):
    th = tier == "thorough"
    out = []
    for p, rank in itertools.product(range(9), range(1, 5)):
        for axis in range(rank):
            for op in ("l", "c", "r", "rec"):
                out.append(dict(k="op", op=op, p=p, rank=rank, axis=axis))
    for q in itertools.product(range(4), repeat=3):
        out.append(dict(k="tensor", p=q))
    hi = list(itertools.product(range(9), repeat=2)) if th else [(a, b) for a in range(9) for b in (0, 3)]
    for a, b in hi:
        for perm in ([a, b, 0], [0, a, b], [b, 0, a]):
            out.append(dict(k="tensor", p=perm))
    for q in itertools.product(range(4), repeat=3):
        out.append(dict(k="avg", p=q))
    for p in range(9):
        for i in range(3):
            out.append(dict(k="avg", p=[p if j == i else 0 for j in range(3)]))
            out.append(dict(k="avg", p=[p if j == i else 3 for j in range(3)]))
    for q in [(5, 5, 5), (5, 8, 4)] + list(itertools.product((6, 7, 8), repeat=3)):
        out.append(dict(k="avg", p=list(q), few=True))
    for p in range(9, 12):
        out.append(dict(k="beyond", p=p))
    for axis in range(1, 4):
        out.append(dict(k="diff", axis=axis))
    return uniq(out)


def mono_avg(k, i):
    """average of x^k over the unit cell centred at integer i, exactly"""
    a, b = Fraction(2 * i - 1, 2), Fraction(2 * i + 1, 2)
    return (b ** (k + 1) - a ** (k + 1)) / (k + 1)


def apply(op, u, p, axis):
    if op == "rec":
        return transverse_reconstruction(u, p=p, axis=axis)
    return conservative_interpolation(u, p=p, axis=axis, pos=op)


def run(case, ctx):
    if case["k"] == "op":
        op, p, rank, axis = case["op"], case["p"], case["rank"], case["axis"]
        r = -(-p // 2)
        N = 2 * r + 4
        off = {"l": Fraction(-1, 2), "c": Fraction(0), "r": Fraction(1, 2), "rec": Fraction(0)}[op]
        idx = [i - N // 2 for i in range(N)]
        shape = [3] * rank
        shape[axis] = N
        # monomials on all lines, scaled differently on every line
        lines = noise([1 if j == axis else 3 for j in range(rank)], 9) + 0.5
        ctx.require(get_stencil_size(p) == r and get_stencil_size(p, mode="total") == 2 * r + 1, "stencil size")
        for k in range(p + 1):
            if op == "rec":
                src = [Fraction(i) ** k for i in idx]
                want = [mono_avg(k, i) for i in idx]
            else:
                src = [mono_avg(k, i) for i in idx]
                want = [(i + off) ** k for i in idx]
            sh = [1] * rank
            sh[axis] = N
            s = np.array([float(v) for v in src]).reshape(sh)
            w = np.array([float(v) for v in want]).reshape(sh)
            u = s * lines
            u0 = u.copy()
            got = apply(op, u, p, axis)
            ctx.step()
            cut = [slice(None)] * rank
            cut[axis] = slice(r, N - r)
            ref = (w * lines)[tuple(cut)]
            ctx.close(got, ref, 1e-12, f"x^{k}", scale=max(1.0, float(np.abs(s).max())) * 2)
            ctx.require(np.array_equal(u, u0), "the input array was modified")
        # impulses at every position of one line: linear, translation invariant, confined to its line
        resp = None
        mid = tuple(1 for _ in range(rank - 1))
        for pos in range(N):
            u = np.zeros(shape)
            ix = list(mid)
            ix.insert(axis, pos)
            u[tuple(ix)] = 1.0
            got = apply(op, u, p, axis)
            ctx.step()
            ctx.require(got.shape[axis] == N - 2 * r, "output length")
            g = np.moveaxis(got, axis, -1)
            line = g[mid]
            other = g.copy()
            other[mid] = 0
            ctx.require(not other.any(), "the operator mixes lines")
            full = np.zeros(2 * N)
            full[N - pos : N - pos + len(line)] = line
            if resp is None:
                resp = {}
            for j, v in enumerate(line):
                d = j + r - pos  # output cell minus impulse cell
                if d in resp:
                    ctx.require(abs(resp[d] - v) <= 1e-13, f"not translation invariant at distance {d}")
                resp[d] = v
        ctx.require(all(abs(v) <= 1e-15 for d, v in resp.items() if abs(d) > r), "stencil wider than declared")
        ctx.require(abs(sum(resp.get(d, 0.0) for d in range(-r, r + 1)) - 1) <= 1e-13, "constants not reproduced")
        # superposition
        u1, u2 = noise(shape, 1), noise(shape, 2)
        ctx.close(apply(op, 2 * u1 - 3 * u2, p, axis), 2 * apply(op, u1, p, axis) - 3 * apply(op, u2, p, axis), 1e-12, "superposition", scale=10)
        # mirror images
        m = {"l": "r", "r": "l"}.get(op, op)
        ctx.close(apply(m, np.flip(u1, axis), p, axis), np.flip(apply(op, u1, p, axis), axis), 1e-13, "mirror image", scale=10)
        ctx.step(4)
        ctx.state(op, p, rank, axis)
        return
    if case["k"] == "tensor":
        p = tuple(case["p"])
        n = tuple(2 * (-(-q // 2)) + 2 for q in p)
        for e in itertools.product(*[range(q + 1) for q in p]):
            av = np.array([[[float(mono_avg(e[0], i) * mono_avg(e[1], j) * mono_avg(e[2], k)) for k in range(n[2])] for j in range(n[1])] for i in range(n[0])])
            pt = np.array([[[float(Fraction(i) ** e[0] * Fraction(j) ** e[1] * Fraction(k) ** e[2]) for k in range(n[2])] for j in range(n[1])] for i in range(n[0])])
            av, pt = np.array([av, 2 * av + 1]), np.array([pt, 2 * pt + 1])
            cut = (slice(None),) + tuple(slice(-(-q // 2), m - (-(-q // 2))) for q, m in zip(p, n))
            sc = 4 * max(1.0, np.abs(av).max())
            ctx.close(interpolate_cell_centers(av, p=p), pt[cut], 1e-12, f"cell centres of x^{e[0]} y^{e[1]} z^{e[2]}", scale=sc)
            ctx.close(interpolate_fv_averages(pt, p=p), av[cut], 1e-12, f"cell averages of x^{e[0]} y^{e[1]} z^{e[2]}", scale=sc)
            ctx.step(2)
        ctx.state(p)
        return
    if case["k"] == "avg":
        p = tuple(case["p"])
        n, h = (3, 2, 2), (0.5, 0.25, 2.0)
        c = [np.array([(Fraction(2 * i + 1, 2)) * Fraction(x) + Fraction(o) for i in range(m)], dtype=object) for m, x, o in zip(n, h, (-1, 0, -1))]
        X, Y, Z = np.meshgrid(*[np.array([float(v) for v in a]) for a in c], indexing="ij")

        def avg1(k, x, hh):
            a, b = x - Fraction(hh) / 2, x + Fraction(hh) / 2
            return float((b ** (k + 1) - a ** (k + 1)) / (k + 1) / Fraction(hh))

        for e in itertools.product(*[range(q + 1) if "few" not in case else (0, 1, q - 1, q) for q in p]):
            f = lambda x, y, z: np.array([x ** e[0] * y ** e[1] * z ** e[2], np.ones_like(x), 3 * x ** e[0] * y ** e[1] * z ** e[2] - 1])
            got = fv_average(f, X, Y, Z, h=h, p=p)
            ctx.step()
            m = np.array([[[avg1(e[0], x, h[0]) * avg1(e[1], y, h[1]) * avg1(e[2], z, h[2]) for z in c[2]] for y in c[1]] for x in c[0]])
            ctx.close(got, np.array([m, np.ones_like(m), 3 * m - 1]), 1e-12, f"average of x^{e[0]} y^{e[1]} z^{e[2]}", scale=4 * max(1.0, 3.0 ** e[2]))
        ctx.state(p)
        return
    if case["k"] == "beyond":
        u = noise((2, 40, 1, 1), 1)
        for pos in "lcr":
            ctx.raises(lambda: conservative_interpolation(u, p=case["p"], axis=1, pos=pos), f"interpolation of degree {case['p']}")
        ctx.raises(lambda: transverse_reconstruction(u, p=case["p"], axis=1), f"reconstruction of degree {case['p']}")
        ctx.step(4)
        ctx.state("beyond", case["p"])
        return
    # central difference
    ax = case["axis"]
    u = noise((2, 5, 4, 6), 3)
    m = np.moveaxis(u, ax, 0)
    ref = np.moveaxis(0.5 * (m[2:] - m[:-2]), 0, ax)
    ctx.close(second_order_central_difference(u, ax), ref, 1e-13, "central difference")
    ctx.close(second_order_central_difference(u, ax, h=0.25), ref / 0.25, 1e-13, "scaled central difference")
    ctx.step(2)
    ctx.state("diff", ax)
