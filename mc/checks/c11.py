"""C11: every schedule of output times, end times and step sizes against a model of time control."""
from fvhoe.ode import ODE
from mc.fvlib import *

ID = "C11"
TECHNIQUE = "exhaustive enumeration of run schedules (output-time subsets x end times x step-size scripts x flags, and sequences of runs) on the real integrators; oracle: time-control model"
RULE = (
    "case = integrator x step-size script x end time x flags, inside: every subset of the output-time alphabet in every container; "
    "sequence cases = all sequences of run calls up to the depth on one object; solver cases = the same through EulerSolver"
)
BOUNDS = dict(
    quick="2^9 output-time subsets (before the start, at it, duplicated, past the end, 1 ulp apart), 7 step-size scripts, 5 end times; all sequences of 3 of 10 run calls; EulerSolver 2^4 subsets x degrees 0,1,2,3; all pairs of output times k/1000 below 0.125; up to 500 output times and 2000 steps; output times 1e-16 to 0.5 steps away from whole steps at 6 magnitudes",
    thorough="sequences of 4 run calls; 2^9 subsets in 4 containers; pairs k/1000 below 0.5",
)
ASSUMPTIONS = ["step sizes and times are ordinary double precision numbers of the alphabet"]
BEATS = [-0.5, 0.0, 0.1, 0.25, 0.30000000000000004, 0.3, 0.7, 1.0, 1.5]
ENDS = [0.0, 0.3, 1.0, 1.1, 2.0]
SCRIPTS = {
    "tenth": lambda t, k: 0.1,
    "quarter": lambda t, k: 0.25,
    "third": lambda t, k: 0.3,
    "one": lambda t, k: 1.0,
    "huge": lambda t, k: 37.0,
    "cycle": lambda t, k: (0.07, 0.31, 0.5)[k % 3],
    "wave": lambda t, k: 0.2 + 0.13 * math.sin(9 * t),
}


# distances of an output time from a whole number of steps, as fractions of a step
EPS = sorted({0.0} | {sg * 10.0**-k for sg in (1, -1) for k in range(1, 17)} | {0.25, 0.5, -0.25})
SCALES = [1.0, 0.1, 1e-3, 1e-9, 3e5, 7e-14]


# start, end: output times in thousandths; some such pairs have t + (T - t) != T in floating point
GRID = 125


class Toy(ODE):
    """u' = 1, so that u is the elapsed time"""

    def __init__(self, script, bar=False):
        super().__init__(np.zeros(1), progress_bar=bar)
        self.script = SCRIPTS[script] if isinstance(script, str) else script
        self.allowed = []
        self.log = []

    def get_commit_details(self):
        return {}

    def f(self, t, u):
        dt = self.script(self.t, self.step_count)
        if t == self.t and len(self.allowed) == self.step_count:
            self.allowed.append(dt)
        return dt, np.ones(1)

    def snapshot(self):
        super().snapshot()
        self.log.append((self.t, float(self.am("u")[0])))


def verify(ctx, s, before, T, n, exact, beats, every, what):
    """s: object after the run; before: (t, steps, snapshots) at its start"""
    t0, k0, m0 = before
    ts = list(s.timestamps)
    allowed = s.allowed
    ctx.require(ts[k0] == t0, f"{what}: the history before the run changed")
    steps = ts[k0:]
    ctx.require(len(ts) == s.step_count + 1 and s.t == ts[-1], f"{what}: {s.step_count} steps, t={s.t!r}, timestamps {ts}")
    shots = [t for t, _ in s.log[m0:]]
    ctx.require(list(s.snapshot_times)[m0:] == shots, f"{what}: snapshot times {list(s.snapshot_times)[m0:]} but snapshots at {shots}")
    ctx.require(shots[:1] == [t0], f"{what}: first snapshot at {shots[:1]}, start {t0}")
    targets = sorted({float(d) for d in beats if t0 < d <= T} | ({T} if T > t0 else set())) if T is not None else []
    for k, (a, b) in enumerate(zip(steps, steps[1:])):
        dt = allowed[k0 + k]
        ctx.require(b > a, f"{what}: time went from {a!r} to {b!r}")
        ctx.require(b - a <= dt * (1 + 1e-12) + 4e-16 * b, f"{what}: step from {a!r} to {b!r} exceeds the allowed {dt!r}")
        full = abs((b - a) - dt) <= 1e-13 * dt + 4e-16 * abs(b)
        if n is not None or not exact:
            ctx.require(full, f"{what}: step from {a!r} to {b!r} is not the allowed {dt!r}")
        else:
            nxt = min([d for d in targets if d > a], default=None)
            ctx.require(full or b == nxt, f"{what}: step from {a!r} to {b!r} shortened, though {dt!r} was allowed and the next output is {nxt!r}")
            ctx.require(nxt is None or b <= nxt, f"{what}: step from {a!r} to {b!r} passes {nxt!r}")
        if n is None:
            ctx.require(a < T, f"{what}: a step was taken at {a!r}, past the end {T!r}")
    if n is not None:
        ctx.require(len(steps) - 1 == n, f"{what}: {len(steps) - 1} steps instead of {n}")
        want = [t0, steps[-1]]
    else:
        if T > t0:
            ctx.require(s.t >= T, f"{what}: stopped at {s.t!r} before {T!r}")
            if exact:
                ctx.require(s.t == T, f"{what}: stopped at {s.t!r} instead of {T!r}")
        else:
            ctx.require(len(steps) == 1, f"{what}: stepped although the end {T!r} is not after {t0!r}")
        if every:
            want = steps
        elif exact:
            want = [t0] + targets
        else:
            want = [t0] + ([steps[-1]] if len(steps) > 1 else [])
    ctx.require(shots == want, lambda: f"{what}: snapshots at {shots} instead of {want}")
    for t, u in s.log[m0:]:
        if u is not None:
            ctx.require(abs(u - t) <= 1e-12 * t, f"{what}: snapshot at {t!r} holds the state of time {u!r}")
    ctx.step(len(steps) - 1)
    ctx.state(tuple(steps), tuple(shots))


def containers(beats, th):
    b = list(beats)
    yield "ndarray", np.array(b, dtype=float)
    yield "reversed list with duplicates", b[::-1] + b
    if th:
        yield "tuple", tuple(b[1:] + b[:1])
        yield "generator", (x for x in b)


OPS = [
    dict(T=0.5), dict(T=1.0, downbeats=[0.2, 0.9, 0.5]), dict(T=0.25), dict(n=0), dict(n=2),
    dict(T=1.3, exact=False), dict(T=1.7, log_every_step=True, downbeats=[1.4]), dict(T=2.0, exact=False, log_every_step=True), dict(T=0.7, downbeats=[]),
    dict(n=2, T=0.6, downbeats=[0.1], exact=False, log_every_step=True),  # a step count overrides everything else
]


def cases(tier):
    th = tier == "thorough"
    out = []
    for g, sc, T, ex, ev in itertools.product(INTEGRATORS, SCRIPTS, ENDS, (True, False), (False, True)):
        out.append(dict(k="beats", g=g, dt=sc, T=T, exact=ex, every=ev, th=th))
    for L in range(1, 5 if th else 4):
        for g, sc in itertools.product(("euler", "rk4") if L == 4 else INTEGRATORS, SCRIPTS):
            for first in range(len(OPS)):
                out.append(dict(k="seq", g=g, dt=sc, len=L, first=first))
    # output times close to whole numbers of steps, for step sizes of all magnitudes, constant and changing
    for g, d, m, shape in itertools.product(("euler", "ssprk2") if not th else INTEGRATORS, SCALES, (1, 2, 3, 10), ("constant", "growing", "shrinking")):
        out.append(dict(k="near", g=g, d=d, m=m, shape=shape))
    # every pair of output times k/1000, reached in one step each, from 0 and after earlier runs
    for a, g in itertools.product(range(1, GRID if not th else 4 * GRID), ("euler", "ssprk3") if not th else INTEGRATORS):
        out.append(dict(k="land", a=a, g=g, hi=GRID if not th else 4 * GRID))
    # long histories, many output times
    for g, sc, m, ev in itertools.product(INTEGRATORS, ("tenth", "third", "wave", "cycle"), (0, 1, 2, 7, 101, 500), (False, True)):
        out.append(dict(k="many", g=g, dt=sc, m=m, every=ev))
    for p, lim, ex, ev, g in itertools.product((0, 1, 2, 3), ("off", "minmod"), (True, False), (False, True), ["auto"] + INTEGRATORS):
        out.append(dict(k="solver", p=p, lim=lim, exact=ex, every=ev, g=g))
    return out


def run(case, ctx):
    if case["k"] == "beats":
        for r in range(len(BEATS) + 1):
            for sub in itertools.combinations(BEATS, r):
                for nm, b in containers(sub, case["th"]):
                    s = Toy(case["dt"], bar=(r % 2 == 1))
                    getattr(s, case["g"])(T=case["T"], exact=case["exact"], downbeats=b, log_every_step=case["every"])
                    verify(ctx, s, (0.0, 0, 0), case["T"], None, case["exact"], sub, case["every"], f"output times {list(sub)} as {nm}")
        s = Toy(case["dt"])
        getattr(s, case["g"])(T=case["T"], exact=case["exact"], log_every_step=case["every"])
        verify(ctx, s, (0.0, 0, 0), case["T"], None, case["exact"], (), case["every"], "no output times")
        return
    if case["k"] == "seq":
        for rest in itertools.product(range(len(OPS)), repeat=case["len"] - 1):
            seq = (case["first"],) + rest
            s = Toy(case["dt"])
            for j, o in enumerate(seq):
                before = (s.t, s.step_count, len(s.log))
                kw = dict(OPS[o])
                getattr(s, case["g"])(**kw)
                verify(ctx, s, before, kw.get("T"), kw.get("n"), kw.get("exact", True), kw.get("downbeats", []), kw.get("log_every_step", False), f"run {j + 1} of {[OPS[i] for i in seq]}")
        return

    if case["k"] == "near":
        d, m = case["d"], case["m"]
        f = dict(constant=1.0, growing=1.3, shrinking=0.8)[case["shape"]]
        script = lambda t, k: d * f**k
        t = d * sum(f**k for k in range(m))
        last = d * f ** (m - 1)
        for e, kind in itertools.product(EPS, range(4)):
            b = t + e * last
            if b <= 0:
                continue
            # as end, as output time, followed closely by another, and as unreached step-logged end
            T, beats, every = [(b, [], False), (b + 1.7 * last, [b], False), (b + 1e-3 * last, [b, b + 1e-6 * last], False), (b, [0.5 * b], True)][kind]
            s = Toy(script)
            getattr(s, case["g"])(T=T, downbeats=beats, log_every_step=every)
            verify(ctx, s, (0.0, 0, 0), T, None, True, beats, every, f"steps of {d} x {f}^k, output times {beats}, end {T}")
            s = Toy(script)
            getattr(s, case["g"])(T=b, exact=False)
            verify(ctx, s, (0.0, 0, 0), b, None, False, [], False, f"steps of {d} x {f}^k, end {b}, inexact")
        ctx.outcome("near")
        return
    if case["k"] == "many":
        m, ev = case["m"], case["every"]
        beats = np.linspace(0, 30.0, m + 1)[1:] if m else np.array([])
        for exact in (True, False):
            s = Toy(case["dt"])
            getattr(s, case["g"])(T=30.0, exact=exact, downbeats=beats, log_every_step=ev)
            verify(ctx, s, (0.0, 0, 0), 30.0, None, exact, beats, ev, f"{m} output times up to 30, exact={exact}")
            before = (s.t, s.step_count, len(s.log))
            getattr(s, case["g"])(n=3 * m)
            verify(ctx, s, before, None, 3 * m, True, [], False, f"{3 * m} further steps")
            before = (s.t, s.step_count, len(s.log))
            T = s.t + 20.0
            getattr(s, case["g"])(T=T, exact=exact, downbeats=[T - 3.3], log_every_step=ev)
            verify(ctx, s, before, T, None, exact, [T - 3.3], ev, "a further run")
        ctx.outcome("many")
        return
    if case["k"] == "land":
        a = case["a"] / 1000
        for b in range(case["a"] + 1, case["hi"] + 1):
            b = b / 1000
            s = Toy("one")
            getattr(s, case["g"])(T=b, downbeats=[a])
            verify(ctx, s, (0.0, 0, 0), b, None, True, [a], False, f"output at {a} on the way to {b}")
            ctx.require(s.step_count == 2, f"{s.step_count} steps of at most 1 to {a} and {b}")
            s = Toy("one")
            getattr(s, case["g"])(T=a)
            before = (s.t, s.step_count, len(s.log))
            getattr(s, case["g"])(T=3 * b, downbeats=np.array([b, 3 * b]))
            verify(ctx, s, before, 3 * b, None, True, [b], False, f"from {a} to {3 * b} with an output at {b}")
            ctx.outcome("landed")
        return

    class S(Quick):
        def f(self, t, u):
            r = super().f(t, u)
            if t == self.t and len(self.allowed) == self.step_count:
                self.allowed.append(r[0])
            return r

        def snapshot(self):
            super().snapshot()
            self.log.append((self.t, None))
            assert self.snapshots[-1]["t"] == self.t

    n, p = (8, 1, 1), (case["p"], 0, 0)
    w = state("mild", n)
    al = [0.0, 0.011, 0.03, 0.2]
    for r in range(5):
        for sub in itertools.combinations(al, r):
            s = solver(n, p, w=w, cls=S, **LIM[case["lim"]])
            s.allowed, s.log = [], []
            fn = s.run if case["g"] == "auto" else getattr(s, case["g"])
            fn(T=0.06, exact=case["exact"], downbeats=list(sub), log_every_step=case["every"])
            verify(ctx, s, (0.0, 0, 0), 0.06, None, case["exact"], sub, case["every"], f"solver, output times {sub}")
            ctx.require([x["t"] for x in s.snapshots] == [t for t, _ in s.log], "snapshot times inside the snapshots")
            ctx.outcome("solver runs")
