"""C10: order conditions of the integrators, one elementary differential (rooted tree) at a time."""
from fvhoe.ode import ODE
from mc.fvlib import *

ID = "C10"
TECHNIQUE = "exhaustive enumeration of the order conditions (all rooted trees, every leaf autonomous or explicit in time) executed through the real integrators; exhaustive degree combinations and boundary evaluation times"
RULE = (
    "tree cases = integrator x step sizes x run mode, on the system with one component per node of every rooted tree of order <= q and every subset of its leaves "
    "replaced by time, whose exact increment is dt^r/gamma(tree); auto cases = degree triples; boundary cases = faces x integrator x limiter, logging the time of every evaluation of a time-dependent boundary"
)
BOUNDS = dict(
    quick="orders 1-4 (all 8 trees, 24 with explicit time), 5 step-size scripts of sizes 1e-12 to 1e5 x step-count/exact-time runs; all 729 degree triples for the automatic choice, degrees along single cells; 6 faces x 4 integrators x 3 limiter settings; all words of 3 integrators on one object; steps of the Euler solver against the tableaux; plus 274 combined settings covering every triple of option values that can be combined (mc/combos.py)",
    thorough="as quick, longer runs, boundary evaluation with degrees 1-4",
)
ASSUMPTIONS = ["smooth systems are covered by the Butcher order theory: order q holds exactly when the order conditions of all rooted trees up to q nodes do"]
Q = dict(euler=1, ssprk2=2, ssprk3=3, rk4=4)


# ---------------------------------------------------------------- rooted trees (nested tuples)
def trees(n):
    if n == 1:
        return [()]
    out = set()

    def forests(m, biggest):
        if m == 0:
            yield ()
            return
        for k in range(min(m, biggest), 0, -1):
            for t in trees(k):
                for f in forests(m - k, k):
                    yield (t,) + f

    for f in forests(n - 1, n - 1):
        out.add(tuple(sorted(f)))
    return sorted(out)


def order(t):
    return 1 + sum(order(c) for c in t)


def gam(t):
    g = order(t)
    for c in t:
        g *= gam(c)
    return g


class System:
    """components: (order, gamma, factors); a factor is a component index or 'T' (elapsed time)"""

    def __init__(self, qmax):
        self.nodes = []
        for q in range(1, qmax + 1):
            for t in trees(q):
                self.add(t, True)

    def add(self, t, root=False):
        """all variants of the subtree; returns the list of indices"""
        child = []
        for c in t:
            opts = ["T"] if c == () else []
            child.append(opts + self.add(c))
        out = []
        for combo in itertools.product(*child):
            self.nodes.append((order(t), gam(t), combo))
            out.append(len(self.nodes) - 1)
        return out

    def rate(self, tau, y):
        d = np.empty(len(self.nodes))
        for i, (_, _, fac) in enumerate(self.nodes):
            p = 1.0
            for f in fac:
                p *= tau if f == "T" else y[f]
            d[i] = p
        return d

    def exact(self, h):
        return np.array([h**r / g for r, g, _ in self.nodes])


SYS = System(5)
NN = len(SYS.nodes)


class Rebased:
    """f relative to the state and time at the beginning of each step"""

    unit = 1.0

    def tree_f(self, t, u):
        if t == self.t:
            self.base = (t, np.array(u, dtype=float).ravel()[:NN].copy())
            self.stage = 0
        else:
            self.stage += 1
        t0, y0 = self.base
        y = np.asarray(u).ravel()[:NN] - y0
        d = np.zeros(np.asarray(u).size)
        d[:NN] = SYS.rate((t - t0) / self.unit, y) / self.unit
        k = min(self.step_count, len(self.dts) - 1)
        # later stages suggest another step size, as a solver does: it must not be mixed in
        return self.unit * self.dts[k] * (1.0 if self.stage == 0 else 1.25), d.reshape(np.shape(u))


class Toy(Rebased, ODE):
    def __init__(self, dts):
        super().__init__(np.zeros(NN), progress_bar=False)
        self.dts = dts

    def get_commit_details(self):
        return {}

    def f(self, t, u):
        return self.tree_f(t, u)

    def step_helper_function(self):
        self.hist.append((self.t, np.array(self.am("u")).ravel().copy()))

    hist = ()


class TreeSolver(Rebased, Quick):
    dts = [0.8]

    def f(self, t, u):
        return self.tree_f(t, u)


DTS = [[1.0], [0.5, 1.5, 0.25], [0.3], [2.0, 0.125], [0.7, 0.9, 1.1, 0.4]]
# step sizes far from one: the system is rescaled so that its exact increments keep their size
SMALL = [1e-4, 1e-7, 1e-12, 1e5]


def cases(tier):
    th = tier == "thorough"
    out = []
    for g, d, mode in itertools.product(INTEGRATORS, range(len(DTS)), (["n", 1], ["n", 4], ["T", 1.0], ["T", 2.2], ["T", 3.0])):
        out.append(dict(k="tree", g=g, d=d, mode=mode))
    for g, unit, d, mode in itertools.product(INTEGRATORS, SMALL, range(len(DTS)), (["n", 1], ["n", 4], ["T", 2.2])):
        out.append(dict(k="tree", g=g, d=d, mode=mode, unit=unit))
    for g in itertools.product(INTEGRATORS, repeat=4 if th else 3):
        out.append(dict(k="words", g=list(g)))
    for g, dims, p, opt in itertools.product(itertools.product(INTEGRATORS + ["auto"], repeat=2), ("x", "yz"), (0, 1, 2, 3), ("plain", "minmod")):
        if g[0] != g[1]:
            out.append(dict(k="real", dims=dims, p=p, set=opt, bc="periodic", g=list(g), word="nnt"))
    for p in itertools.product(range(9), repeat=3):
        if max(p):
            out.append(dict(k="auto", p=list(p), n=4 if p[0] < 3 else 3))
            if max(p) < 5:  # a single cell along directions with a degree
                for a in range(3):
                    out.append(dict(k="auto", p=list(p), n=1, wide=a))
    out.append(dict(k="auto", p=[0, 0, 0], n=4))
    for face, g, lim, p in itertools.product(("xl", "xr", "yl", "yr", "zl", "zr"), INTEGRATORS + ["auto"], ("off", "minmod", "forced"), (range(5) if th else (0, 1, 3))):
        out.append(dict(k="bc", face=face, g=g, lim=lim, p=p))
    for dims, p, opt, bc, g in itertools.product(DIMSETS, range(7), SET, ("periodic", "time"), INTEGRATORS + ["auto"]):
        if opt == "upwind" and bc == "time" or len(dims) == 3 and (opt == "convex" or p > 2) or len(dims) == 2 and p > 4:
            continue
        if g != "auto" and (dims not in ("x", "xz") or p not in (1, 3)) and not th:
            continue
        out.append(dict(k="real", dims=dims, p=p, set=opt, bc=bc, g=g, word="ntn" if len(dims) < 3 else "nt"))
    # every triple of option values
    for c in combo_cases(bounded=True):
        out.append(dict(c, k="combo", word="nt"))
    return out


TAB = {  # classical and strong-stability-preserving schemes: stage coefficients, weights, stage times
    "euler": ([[]], [1], [0]),
    "ssprk2": ([[], [1]], [0.5, 0.5], [0, 1]),
    "ssprk3": ([[], [1], [0.25, 0.25]], [1 / 6, 1 / 6, 2 / 3], [0, 1, 0.5]),
    "rk4": ([[], [0.5], [0, 0.5], [0, 0, 1]], [1 / 6, 1 / 3, 1 / 3, 1 / 6], [0, 0.5, 0.5, 1]),
}
SET = {
    "plain": {}, "llf": dict(rs="llf"), "upwind": dict(rs="advection_upwind"), "minmod": LIM["minmod"], "tight": LIM["tight no SED"], "convex": LIM["convex tight"],
    "forced": LIM["forced"], "fixed": dict(fixed_dt=2e-3), "gas": dict(gamma=5 / 3, CFL=0.3), "floors": dict(density_floor=1e-3, pressure_floor=1e-3), "centres": dict(snapshots_as_fv_averages=False),
}


def real(case, ctx):
    """steps of the solver against the tableau, with the rates of fresh solvers at the stages"""
    dims = case["dims"]
    if case["k"] == "combo":
        r, p = Regime(case["reg"], dims), degrees_for(dims, case["p"])
        return steps(case, ctx, lambda u: r.solver(p, case["lim"], case["rs"], u=u), p, cons(r.w, r.gamma), r.ig)
    n, p = shape_for(dims, {1: 9, 2: [5, 6], 3: [3, 4, 3]}[len(dims)]), degrees_for(dims, case["p"])
    opts = SET[case["set"]]
    gamma = opts.get("gamma", GAMMA)
    w = state("advect" if case["set"] == "upwind" else "mild", n, npass=1)

    def inflow(x, y, z, t):
        ww = np.empty((6, *np.shape(x)))
        for j, c in enumerate((1 + 0.1 * np.sin(30 * t), 0.2, 0.1 * np.cos(20 * t), 0.0, 1.0, 0.4)):
            ww[j] = c
        return cons(ww, gamma)

    bc = None
    if case["bc"] == "time":
        bc = BoundaryCondition(**{dims[0]: ("dirichlet", "free"), dims[0] + "_value": (inflow, None)})

    def make(u):
        return solver(n, p, u=u, bc=bc, **opts)

    steps(case, ctx, make, p, cons(w, gamma), case["g"])


def steps(case, ctx, make, p, u, integ):
    s = make(u)
    t = 0.0
    for k, mode in enumerate(case["word"]):
        g = integ if isinstance(integ, str) else integ[k % 2]
        name = INTEGRATORS[min(max(p), 3)] if g == "auto" else g
        A, b, c = TAB[name]
        dt = rhs(make(u), t=t)[0]
        if mode == "n":
            advance(s, g, 1)
        else:  # a step cut short by the end of the run
            dt *= 0.45
            getattr(s, "run" if g == "auto" else g)(T=t + dt)
        ks = []
        for row, ci in zip(A, c):
            y = u + dt * sum((a * q for a, q in zip(row, ks)), np.zeros_like(u))
            ks.append(rhs(make(y), t=t + ci * dt)[1])
        new = u + dt * sum(a * q for a, q in zip(b, ks))
        ctx.step(len(A) + 1)
        ctx.close(s.t, t + dt, 1e-12, f"time after step {k + 1} of {case['word']}", scale=t + dt)
        ctx.close(U(s), new, 1e-11, f"state after step {k + 1} of {case['word']} ({name})", scale=max(1.0, np.max(np.abs(new))))
        t, u = s.t, U(s)
        ctx.state(u)
    ctx.outcome("real steps " + name)


def run(case, ctx):
    if case["k"] in ("real", "combo"):
        return real(case, ctx)
    if case["k"] == "words":
        # different integrators one after the other on one object, by step count and by end time
        for modes in itertools.product("nT", repeat=len(case["g"])):
            s = Toy([0.6])
            s.hist = []
            t0, y0 = 0.0, np.zeros(NN)
            for g, m in zip(case["g"], modes):
                getattr(s, g)(**({"n": 1} if m == "n" else {"T": s.t + 0.45}))
                y1 = np.array(s.am("u")).ravel().copy()
                check(ctx, y1 - y0, s.t - t0, Q[g], f"{g} in {case['g']} ({modes})", np.max(np.abs(y0)))
                t0, y0 = s.t, y1
                ctx.step()
            ctx.state(y0, tuple(case["g"]), modes)
        ctx.outcome("words of integrators")
    elif case["k"] == "tree":
        s = Toy(DTS[case["d"]])
        s.hist = []
        s.unit = unit = case.get("unit", 1.0)
        mode, val = case["mode"]
        getattr(s, case["g"])(**{mode: val if mode == "n" else val * unit})
        t0, y0 = 0.0, np.zeros(NN)
        for t1, y1 in s.hist:
            h = (t1 - t0) / unit
            ctx.require(h > 0, f"step from {t0} to {t1}")
            check(ctx, y1 - y0, h, Q[case["g"]], case["g"], np.max(np.abs(y0)))
            t0, y0 = t1, y1
            ctx.state(case["g"], h, y1)
            ctx.step()
        ctx.require(len(s.hist) >= 1, "no step was taken")
        if mode == "n":
            ctx.require(len(s.hist) == val, f"{len(s.hist)} steps instead of {val}")
        ctx.outcome("order " + case["g"])
    elif case["k"] == "auto":
        n = [case["n"] if q else 1 for q in case["p"]]
        if max(case["p"]) == 0:
            n = [case["n"], 1, 1]
        i = case["wide"] if "wide" in case else max(range(3), key=lambda j: n[j])
        n[i] = -(-NN // 5)
        w = state("smooth", n)
        s = solver(n, case["p"], w=w, cls=TreeSolver)
        y0 = U(s).ravel()[:NN].copy()
        s.run(n=1)
        ctx.step()
        y1 = U(s).ravel()[:NN]
        q = min(max(case["p"]), 3) + 1
        check(ctx, y1 - y0, s.t, q, f"automatic choice for degrees {case['p']}", np.max(np.abs(y0)))
        if q < 4:
            ref = SYS.exact(s.t)
            nxt = [j for j in range(NN) if SYS.nodes[j][0] == q + 1]
            ctx.require(any(abs((y1 - y0)[j] - ref[j]) > 1e-9 for j in nxt), f"degrees {case['p']} ran with an order above {q}")
        ctx.outcome(f"automatic order {q}")
        ctx.state(repr(case))
    else:
        boundary(case, ctx)


def check(ctx, inc, h, q, what, mag):
    ref = SYS.exact(h)
    for j, (r, g, fac) in enumerate(SYS.nodes):
        if r <= q:
            ctx.require(
                abs(inc[j] - ref[j]) <= 1e-12 * max(1.0, h**r, mag),
                lambda: f"{what}: order condition of a tree with {r} nodes, gamma {g}, factors {fac}: increment {inc[j]!r} instead of {ref[j]!r} (dt={h!r})",
            )


def boundary(case, ctx):
    a, side = case["face"]
    i = AX.index(a)
    p = [case["p"] if c == a else 0 for c in AX]
    n = [6 if c == a else 1 for c in AX]
    seen = []

    class S(Quick):
        now = None

        def f(self, t, u):
            self.now = t
            r = super().f(t, u)
            self.now = None
            return r

    w = state("mild", n)

    def val(x, y, z, t):
        seen.append((t, s.now, s.t))
        ww = np.empty((5, *np.shape(x)))
        ww[0], ww[1], ww[2], ww[3], ww[4] = 1 + 0.1 * np.sin(5 * t), 0.2, 0.1, 0.0, 1.0
        return cons(ww)

    ends = ("dirichlet", "free") if side == "l" else ("free", "dirichlet")
    vals = (val, None) if side == "l" else (None, val)
    s = solver(n, p, w=w, cls=S, bc=BoundaryCondition(**{a: ends, a + "_value": vals}), **LIM[case["lim"]])
    advance(s, case["g"], 3)
    ctx.step(3)
    used = set()
    for t, now, st in seen:
        want = st if now is None else now
        ctx.require(t == want, f"boundary evaluated at t={t!r} during a stage at t={want!r}")
        used.add(t)
    ctx.require(any(now is not None for _, now, _ in seen), "the boundary function was never evaluated during a step")
    for t in s.timestamps[:-1]:
        ctx.require(t in used, f"boundary never evaluated at the start of the step at {t}")
    ctx.state(repr(case), len(used))
    ctx.outcome(f"{len(used)} distinct boundary times")
