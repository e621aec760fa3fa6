"""C09: the right-hand side is exact on every tensor polynomial within the degrees of the scheme."""
from mc.fvlib import *

ID = "C09"
TECHNIQUE = "exhaustive enumeration of degree/direction/mesh/velocity-sign/solver combinations and of the monomial basis on the real right-hand side; oracle: exact integrals"
RULE = (
    "case = active directions x degrees per direction x mesh x Riemann solver x which variable carries the polynomial; inside, every sign pattern of the velocity; "
    "scalars: one per monomial of the tensor basis (the scheme is linear in them), density: a dense polynomial and the top monomial; exact averages in the ghost cells"
)
BOUNDS = dict(
    quick="degrees 0-8 in 1D, all pairs 0-8 in 2D, all triples 0-2 and {0,1,3}^3 in 3D; 1-5 cells per direction; anisotropic cells, aspect ratios up to 6000 in every order; velocity signs {-,0,+}^ndim; 3 Riemann solvers",
    thorough="3D triples 0-4, three meshes in 2D and 3D",
)
ASSUMPTIONS = ["tolerance 2e-14 of the largest flux difference quotient (rounding: 6e-16)"]
DOM = [(0.25, 1.25), (-2.0, -0.5), (10.0, 10.4)]
# strongly stretched cells, each direction the finest, the middle and the coarsest once
DOMS = [DOM] + [[((0.2, 1.0), (3.0, 3.01), (-40.0, 20.0))[(i + k) % 3] for i in range(3)] for k in range(3)] + [[((0.2, 1.0), (3.0, 3.01), (-40.0, 20.0))[(k - i) % 3] for i in range(3)] for k in range(3)]
VEL = (0.7, 0.45, 1.3)
RS = ["hllc", "llf", "advection_upwind"]


def cases(tier):
    th = tier == "thorough"
    out = []
    for a, p, n, rs, var in itertools.product(AX, range(9), (1, 2, 3, 5), RS, ("scalar", "density")):
        if n == 1 and p == 0:
            continue
        out.append(dict(dims=a, p=[p], n=[n], rs=rs, var=var))
    m2 = [[3, 2], [1, 4], [2, 5]] if th else [[3, 2]]
    for dims, p, n, rs, var in itertools.product(("xy", "xz", "yz"), itertools.product(range(9), repeat=2), m2, RS, ("scalar", "density")):
        if any(k == 1 and q == 0 for k, q in zip(n, p)):
            continue
        out.append(dict(dims=dims, p=list(p), n=n, rs=rs, var=var))
    trip = sorted(set(itertools.product(range(5 if th else 3), repeat=3)) | set(itertools.product((0, 1, 3), repeat=3)))
    m3 = [[3, 2, 2], [2, 3, 2], [2, 2, 3]] if th else [[3, 2, 2]]
    for p, n, rs, var in itertools.product(trip, m3, RS, ("scalar", "density")):
        out.append(dict(dims="xyz", p=list(p), n=n, rs=rs, var=var))
    for d, rs, var in itertools.product(range(1, len(DOMS)), RS, ("scalar", "density")):
        for dims in ("xy", "xz", "yz"):
            for p in ((1, 1), (2, 1), (1, 3), (4, 2)):
                out.append(dict(dims=dims, p=list(p), n=[3, 2], rs=rs, var=var, dom=d))
        for p in ((1, 1, 1), (0, 2, 1)) + (((2, 2, 2), (1, 0, 3)) if th else ()):
            out.append(dict(dims="xyz", p=list(p), n=[3, 2, 2], rs=rs, var=var, dom=d))
    for g, p, rs in itertools.product((1.05, 5 / 3, 3.0), range(1, 5), RS):
        for a in AX:
            out.append(dict(dims=a, p=[p], n=[3], rs=rs, var="density", gamma=g))
        for dims in ("xy", "xz", "yz"):
            out.append(dict(dims=dims, p=[p, 2], n=[3, 2], rs=rs, var="density", gamma=g))
    return out


def mono_avg(x, k, c, w, h):
    """average of ((x - c) / w)^k over a cell of width h"""
    b, a = (x + h / 2 - c) / w, (x - h / 2 - c) / w
    return (b ** (k + 1) - a ** (k + 1)) / ((k + 1) * (h / w))


def mono_diff(x, k, c, w, h):
    """average of its derivative"""
    return (((x + h / 2 - c) / w) ** k - ((x - h / 2 - c) / w) ** k) / h


def run(case, ctx):
    dims, rs, var, DOM = case["dims"], case["rs"], case["var"], DOMS[case.get("dom", 0)]
    G = case.get("gamma", GAMMA)
    n, p = shape_for(dims, case["n"]), degrees_for(dims, case["p"])
    act = [i for i in range(3) if AX[i] in dims]
    h = [(DOM[i][1] - DOM[i][0]) / n[i] for i in range(3)]
    c = [0.5 * (DOM[i][0] + DOM[i][1]) + 0.07 for i in range(3)]
    wd = [(n[i] / 2 + 2 * (-(-max(p) // 2)) + 2 * (-(-p[i] // 2)) + 3) * h[i] for i in range(3)]
    basis = list(itertools.product(*[range(p[i] + 1) for i in range(3)]))

    def fields(X, diff=None):
        """averages of every basis monomial at cells X, or of its derivative along diff"""
        one = [[(mono_diff if diff == i else mono_avg)(X[i], k, c[i], wd[i], h[i]) for k in range(p[i] + 1)] for i in range(3)]
        return np.array([one[0][b[0]] * one[1][b[1]] * one[2][b[2]] for b in basis])

    coef = {}
    m = len(basis)
    if var == "density":
        dense = 0.8 * (noise((m,), 3) - 0.5) / m
        dense[-1] += 0.3
        top = np.zeros(m)
        top[-1] = 0.8
        polys = [dense, top] if m > 1 else [top]
    else:
        polys = [None]
    for poly in polys:
        for sg in itertools.product((-1, 0, 1), repeat=len(act)):
            v = [0.15, -0.2, 0.1]
            for i, s in zip(act, sg):
                v[i] = s * VEL[i]
            P0, rho0 = 0.9, 1.3
            ke = 0.5 * sum(q * q for q in v)

            def exact(x, y, z, t=None):
                A = fields((x, y, z))
                if var == "density":
                    rho = 1.5 + np.tensordot(poly, A, 1)
                    return np.array([rho, v[0] * rho, v[1] * rho, v[2] * rho, P0 / (G - 1) + ke * rho])
                o = np.ones_like(A[0])
                return np.concatenate([np.array([rho0, v[0] * rho0, v[1] * rho0, v[2] * rho0, P0 / (G - 1) + ke * rho0])[:, None, None, None] * o, rho0 * A])

            X = centers(n, DOM)
            u = exact(*X)
            kw = {}
            for i in act:
                kw[AX[i]] = ("dirichlet", "dirichlet")
                kw[AX[i] + "_value"] = (exact, exact)
            s = solver(n, p, u=u, gamma=G, dom=DOM, bc=BoundaryCondition(**kw), rs=rs)
            dt, d = rhs(s)
            ctx.step()
            ref = np.zeros_like(u)
            for i in act:
                D = fields(X, diff=i)
                if var == "density":
                    g = np.tensordot(poly, D, 1)
                    ref -= v[i] * np.array([g, v[0] * g, v[1] * g, v[2] * g, ke * g])
                else:
                    ref[5:] -= v[i] * rho0 * D
            scale = sum((abs(v[i]) + 2) / h[i] for i in act) * 4
            ctx.close(d, ref, 2e-14, f"rate of change, velocity {v}", scale=scale)
            ctx.state(u)
            ctx.outcome("rates checked", ref.size)
