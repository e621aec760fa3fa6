"""C23: array store, timer and variable map against simple models, over all operation sequences."""
import time as _time

import fvhoe.timer as timer_module
from fvhoe.array_management import ArrayManager
from fvhoe.hydro import HydroState
from fvhoe.timer import Timer
from mc.fvlib import *

ID = "C23"
TECHNIQUE = "explicit-state exploration: every operation sequence up to a depth on the real objects, each step compared with a reference model; a virtual clock drives the timer"
RULE = (
    "array store: all sequences over an alphabet of 17 operations (arrays of two dimensions, one, none, empty, strided); timer: all sequences over 10 operations with a virtual clock; variable map: all ordered "
    "sets of scalars x array ranks x variables x cell ranges, instances queried interleaved and twice"
)
BOUNDS = dict(quick="array store depth 4, timer depth 5 (and up to 1000 intervals of 9 lengths from 4 clock origins), slices over 7 ranges per direction", thorough="array store depth 5, timer depth 6, slices over 10 ranges per direction")
ASSUMPTIONS = ["CuPy is not installed here: only the NumPy side of the store is explored", "a stop of 0 in a cell range means the end of the axis, as throughout the package"]

AOPS = ["add a", "add b", "add a again", "add empty a", "add 0d b", "add strided b", "add list", "add scalar", "remove a", "remove b", "get a", "get b", "write a", "write b", "copy a", "unknown", "enable disable"]
TOPS = ["add a", "add b", "add [a, b]", "add [b, b]", "start a", "stop a", "start b", "stop b", "tick", "long tick"]


def cases(tier):
    th = tier == "thorough"
    out = []
    for first in itertools.product(AOPS, repeat=2):
        out.append(dict(k="arrays", first=list(first), depth=5 if th else 4))
    for first in itertools.product(TOPS, repeat=2):
        out.append(dict(k="timer", first=list(first), depth=6 if th else 5))
    for start, d in itertools.product((0.0, -5.0, 1000.0, 1.7e9), (1e-7, 3e-6, 4e-4, 0.0049, 0.0051, 0.125, 7.0, 86400.0, 1e8)):
        out.append(dict(k="intervals", start=start, d=d))
    for m in range(4):
        for names in itertools.permutations(("a", "b", "c"), m):
            for rank in range(1, 5):
                out.append(dict(k="slices", names=list(names), rank=rank, th=th))
    out.append(dict(k="names"))
    out.append(dict(k="interleaved"))
    return out


def run(case, ctx):
    {"arrays": arrays, "intervals": intervals, "timer": timer, "slices": slices, "names": names, "interleaved": interleaved}[case["k"]](case, ctx)


# ---------------------------------------------------------------- array store
def arrays(case, ctx):
    for tail in itertools.product(AOPS, repeat=case["depth"] - 2):
        word = case["first"] + list(tail)
        am, model, handed, cnt = ArrayManager(), {}, [], 0
        for i, op in enumerate(word):
            cnt += 1
            arr = np.full((2, 3), float(cnt))
            bad, act = None, None
            nm = op.split()[-1] if op.split()[0] in ("remove", "get", "write", "copy") else None
            if op in ("add a", "add b"):
                name = op[-1]
                act = lambda: am.add(name, arr)
                bad = KeyError if name in model else None
                new = {**model, name: arr.copy()}
            elif op == "add a again":
                act = lambda: am.add("a", np.arange(4))
                bad = KeyError if "a" in model else None
                new = {**model, "a": np.arange(4)}
            elif op in ("add empty a", "add 0d b", "add strided b"):
                name = op[-1]
                odd = {"empty": np.zeros((0, 3)), "0d": np.array(float(cnt)), "strided": np.arange(24.0).reshape(4, 6)[::2, ::-3]}[op.split()[1]]
                act = lambda: am.add(name, odd)
                bad = KeyError if name in model else None
                new = {**model, name: odd.copy()}
            elif op == "add list":
                act = lambda: am.add("c", [1.0, 2.0])
                bad, new = TypeError, model
            elif op == "add scalar":
                act = lambda: am.add("d", 3.0)
                bad, new = TypeError, model
            elif op == "unknown":
                act = lambda: am("nothing")
                bad, new = KeyError, model
            elif op == "enable disable":
                act = lambda: (am.enable_cupy(), am.disable_cupy())
                new = model
            else:
                bad = None if nm in model else KeyError
                new = dict(model)
                if op.startswith("remove"):
                    act = lambda: am.remove(nm)
                    new.pop(nm, None)
                elif op.startswith("get"):
                    act = lambda: handed.append(am(nm))
                elif op.startswith("write"):
                    act = lambda: am(nm).__setitem__(Ellipsis, cnt)
                    if nm in new:
                        new[nm] = np.full(new[nm].shape, cnt, dtype=new[nm].dtype)
                else:
                    act = lambda: am.get_numpy(nm).__setitem__(Ellipsis, -99)
            try:
                act()
                raised = None
            except Exception as e:
                raised = e
            ctx.step()
            w = word[: i + 1]
            if bad is None:
                ctx.require(raised is None, lambda: f"{w} raised {raised!r}")
                model = new
            else:
                ctx.require(isinstance(raised, Exception), lambda: f"{w}: the last operation was not refused")
                ctx.require(isinstance(raised, bad), lambda: f"{w}: refused with {type(raised).__name__} instead of {bad.__name__}")
            # contents
            ctx.require(sorted(am.to_dict()["names"]) == sorted(model), lambda: f"{w}: names {am.to_dict()['names']} instead of {sorted(model)}")
            for k, v in model.items():
                got, cp = am(k), am.get_numpy(k)
                ctx.require(got.shape == v.shape and np.array_equal(got, v) and np.array_equal(cp, v), lambda: f"{w}: {k} holds {got.tolist()} instead of {v.tolist()}")
                ctx.require(am(k) is got or np.shares_memory(am(k), got), lambda: f"{w}: {k} is not handed out live")
                ctx.require(not np.shares_memory(cp, got), lambda: f"{w}: the copy of {k} shares memory with the store")
            for k in ("a", "b", "c", "d"):
                if k not in model:
                    ctx.raises(lambda: am(k), f"{w}: {k} is still there", exc=KeyError)
                    ctx.raises(lambda: am.get_numpy(k), f"{w}: {k} is still there", exc=KeyError)
            if i + 1 == len(word) or raised is not None:
                ctx.state("arrays", tuple(w), {k: v.tolist() for k, v in model.items()})
    ctx.outcome("array words", len(AOPS) ** (case["depth"] - 2))


# ---------------------------------------------------------------- timer
class Clock:
    """stands in for every clock of the time module while a case runs"""

    NAMES = ["time", "perf_counter", "monotonic", "process_time", "thread_time"]

    def __enter__(self):
        self.now = 1000.0
        self.saved = {}
        for nm in self.NAMES:
            self.saved[nm] = getattr(_time, nm)
            self.saved[nm + "_ns"] = getattr(_time, nm + "_ns")
        orig = {id(v): k for k, v in self.saved.items()}
        self.mod = {k: v for k, v in vars(timer_module).items() if id(v) in orig}
        self.fake = {}
        for nm in self.NAMES:
            self.fake[nm] = lambda: self.now
            self.fake[nm + "_ns"] = lambda: int(round(self.now * 1e9))
        for nm, v in self.fake.items():
            setattr(_time, nm, v)
        for k, v in self.mod.items():
            setattr(timer_module, k, self.fake[orig[id(v)]])
        return self

    def __exit__(self, *a):
        for nm, v in self.saved.items():
            setattr(_time, nm, v)
        for k, v in self.mod.items():
            setattr(timer_module, k, v)


def timer(case, ctx):
    for tail in itertools.product(TOPS, repeat=case["depth"] - 2):
        word = case["first"] + list(tail)
        prec = 3
        with Clock() as clk:
            tm = Timer(precision=prec)
            cum, running = {}, {}
            for i, op in enumerate(word):
                w = word[: i + 1]
                bad, act = False, None
                if op == "tick":
                    clk.now += 0.25
                    continue
                if op == "long tick":
                    clk.now += 3600.5
                    continue
                if op.startswith("add"):
                    new = {"add [a, b]": ["a", "b"], "add [b, b]": ["b", "b"]}.get(op, [op[-1]])
                    bad = any(c in cum for c in new) or len(set(new)) < len(new)
                    act = lambda: tm.add_cat(new if "[" in op else new[0])
                    if not bad:
                        cum.update({c: 0.0 for c in new})
                else:
                    c = op[-1]
                    if op.startswith("start"):
                        bad = c not in cum or c in running
                        act = lambda: tm.start(c)
                        if not bad:
                            running[c] = clk.now
                    else:
                        bad = c not in running
                        act = lambda: tm.stop(c)
                        if not bad:
                            cum[c] += clk.now - running.pop(c)
                try:
                    act()
                    raised = None
                except Exception as e:
                    raised = e
                ctx.step()
                if bad:
                    ctx.require(raised is not None, lambda: f"{w}: the last operation was not refused")
                else:
                    ctx.require(raised is None, lambda: f"{w} raised {raised!r}")
                got = tm.to_dict()
                ctx.require(list(got) == list(cum), lambda: f"{w}: categories {list(got)} instead of {list(cum)}")
                for k, v in cum.items():
                    ctx.require(abs(got[k] - v) < 1e-6 and abs(tm.cum_time[k] - v) < 1e-6, lambda: f"{w}: {k} measured {got[k]} ({tm.cum_time[k]}) instead of {v}")
            # the report lists the same numbers
            rows = [r.split() for r in tm.report().splitlines() if r.strip()]
            listed = {r[0]: r[1] for r in rows if len(r) == 2 and r[0] in ("a", "b")}
            ctx.require(listed == {k: f"{v:.{prec}f}" for k, v in cum.items()}, lambda: f"{word}: report {listed} instead of {cum}")
            ctx.state("timer", tuple(sorted(cum.items())), tuple(sorted((k, clk.now - v) for k, v in running.items())), clk.now)
    ctx.outcome("timer words", len(TOPS) ** (case["depth"] - 2))


def intervals(case, ctx):
    """many intervals of one length, two categories overlapping in every way, all precisions, any clock origin"""
    start, d = case["start"], case["d"]
    res = 4 * np.finfo(float).eps * (abs(start) + 1 + 4000 * d)  # resolution of the clock itself
    for reps, prec in itertools.product((1, 2, 7, 1000), range(7)):
        with Clock() as clk:
            clk.now = start
            tm = Timer(cats=["a", "b", "idle"], precision=prec)
            want = dict(a=0.0, b=0.0, idle=0.0)
            for i in range(reps):
                t0 = clk.now
                tm.start("a")
                if i % 3 == 0:
                    clk.now += d  # nested, overlapping, or apart
                t1 = clk.now
                tm.start("b")
                clk.now += d
                if i % 2:
                    tm.stop("b")
                    want["b"] += clk.now - t1
                    clk.now += d
                    tm.stop("a")
                    want["a"] += clk.now - t0
                else:
                    tm.stop("a")
                    want["a"] += clk.now - t0
                    clk.now += d
                    tm.stop("b")
                    want["b"] += clk.now - t1
                clk.now += 2 * d  # nothing runs
            ctx.step(4 * reps)
            got = tm.to_dict()
            for k, v in want.items():
                tol = 1e-12 * v + reps * res
                ctx.require(abs(tm.cum_time[k] - v) <= tol, f"{reps} intervals of {d} from {start}: {k} measured {tm.cum_time[k]!r} instead of {v!r}")
                ctx.require(abs(got[k] - v) <= 0.5000001 * 10**-prec + tol, f"precision {prec}: {k} is given as {got[k]} instead of {v}")
                ctx.require(abs(got[k] * 10**prec - round(got[k] * 10**prec)) < 1e-3, f"precision {prec}: {got[k]} is not rounded")
            rows = dict(r.split() for r in tm.report().splitlines() if len(r.split()) == 2 and r.split()[0] in want)
            for k, v in want.items():
                ctx.require(abs(float(rows[k]) - v) <= 0.5000001 * 10**-prec + reps * res + 1e-12 * v and len(rows[k].partition(".")[2]) == prec, f"precision {prec}: the report gives {rows[k]} for {v}")
            ctx.state("intervals", start, d, reps, prec)
    ctx.outcome("intervals")


# ---------------------------------------------------------------- variable map
FLOW = {"rho": 0, "vx": 1, "mx": 1, "vy": 2, "my": 2, "vz": 3, "mz": 3, "P": 4, "E": 4}
GROUPS = {"v": [1, 2, 3], "m": [1, 2, 3], "active_scalars": [0, 1, 2, 3, 4]}


def positions(names):
    pos = {k: v for k, v in FLOW.items()}
    pos.update(GROUPS)
    pos.update({nm: 5 + i for i, nm in enumerate(names)})
    if names:
        pos["passive_scalars"] = list(range(5, 5 + len(names)))
    return pos


def rng(r, m):
    """reference: the list of indices of (start, stop) on an axis of m cells"""
    if r is None:
        return list(range(m))
    a, b = r
    a = 0 if not a else (a if a >= 0 else m + a)
    b = m if not b else (b if b >= 0 else m + b)
    return list(range(a, b))


def pick(arr, v, idx):
    """reference selection by explicit loops over axes"""
    out = arr
    for ax in range(arr.ndim - 1, 0, -1):
        out = np.stack([np.take(out, i, axis=ax) for i in idx[ax]], axis=ax) if idx[ax] else np.take(out, [], axis=ax)
    if v is None:
        return out
    return out[v] if isinstance(v, int) else np.stack([out[i] for i in v])


def slices(case, ctx):
    nm, rank = tuple(case["names"]), case["rank"]
    hs = HydroState(passive_scalars=nm, ndim=rank)
    pos = positions(nm)
    nv = 5 + len(nm)
    ctx.require(hs.nvars == nv and bool(hs.includes_passives) == bool(nm), "number of variables")
    flat = [pos[k] for k in ("rho", "vx", "vy", "vz", "P") + nm]
    ctx.require(sorted(flat) == list(range(nv)), "positions")
    shape = (nv, 5, 6, 7)[:rank]
    arr = np.arange(np.prod(shape), dtype=float).reshape(shape)
    ranges = [None, (0, 0), (1, -1), (2, 0), (0, -2), (1, 3), (2, 2)] + ([(None, 4), (3, None), (-2, 0)] if case["th"] else [])
    vs = [None] + list(pos) + [("rho", "P"), ("E", "mx", "rho"), ("P", "rho", "P"), ("vz", "rho", "E", "vx"), ("P", "vz", "vy", "vx", "rho"), tuple(reversed(nm)) if nm else ("vz",)]
    for v in vs:
        sel = None if v is None else ([pos[k] for k in v] if isinstance(v, tuple) else pos[v])
        for cut in itertools.product(ranges, repeat=rank - 1):
            kw = {a: c for a, c in zip(AX, cut) if c is not None}
            got = arr[hs(v, **kw)] if v is not None else arr[hs(**kw)]
            ctx.step()
            idx = [None] + [rng(c, m) for c, m in zip(cut, shape[1:])]
            want = pick(arr, sel, idx)
            ctx.require(got.shape == want.shape and np.array_equal(got, want), lambda: f"{v} with ranges {kw} of {nm}: {got.tolist()} instead of {want.tolist()}")
            ctx.state("slice", nm, rank, repr(v), cut)
        for axis, c, step in itertools.product(range(1, rank), ranges[1:], (None, 1, 2, 3, -1)):
            if step == -1 and c != (0, 0):
                continue
            got = arr[hs(v, axis=axis, cut=c, step=step)]
            ctx.step()
            idx = [None] + [list(range(m)) for m in shape[1:]]
            idx[axis] = rng(c, shape[axis])[:: step or 1]
            want = pick(arr, sel, idx)
            ctx.require(got.shape == want.shape and np.array_equal(got, want), lambda: f"{v} cut {c} of axis {axis} step {step}")
            # the step is for the axis being cut only
            for other in range(1, rank):
                if other == axis or v not in (None, "rho", ("rho", "P")):
                    continue
                for o in ((1, -1), (2, 0), (0, -2)):
                    got = arr[hs(v, **{AX[other - 1]: o}, axis=axis, cut=c, step=step)]
                    ctx.step()
                    idx2 = list(idx)
                    idx2[other] = rng(o, shape[other])
                    want = pick(arr, sel, idx2)
                    ctx.require(got.shape == want.shape and np.array_equal(got, want), lambda: f"{v} cut {c} of axis {axis} step {step} with {AX[other - 1]} range {o}")
    # cutting the leading axis (used for arrays of any kind)
    for c in ranges[1:]:
        got = arr[hs(axis=0, cut=c)]
        ctx.require(np.array_equal(got, arr[rng(c, nv)]), f"cut {c} of the leading axis")
    # refusals
    before = {k: np.array(v).tolist() for k, v in hs.variable_map.items()}
    ctx.raises(lambda: hs("nothing"), "unknown variable", exc=ValueError)
    ctx.raises(lambda: hs(("rho", "nothing")), "unknown variable in a tuple", exc=ValueError)
    ctx.raises(lambda: hs(3), "a number as variable", exc=ValueError)
    ctx.raises(lambda: hs("rho", axis=rank, cut=(1, 2)), "axis beyond the rank", exc=ValueError)
    if rank < 4:
        ctx.raises(lambda: hs("rho", z=(1, 2)), "direction beyond the rank", exc=ValueError)
    if rank > 1:
        ctx.raises(lambda: hs("rho", x=(1, 2, 3)), "range of three numbers", exc=ValueError)
        ctx.raises(lambda: hs("rho", x=1), "range of one number", exc=ValueError)
    ctx.require(before == {k: np.array(v).tolist() for k, v in hs.variable_map.items()}, "a refused request changed the map")
    ctx.outcome("variable maps")


def names(case, ctx):
    for bad in (("a", "a"), ("a", "b", "a")):
        ctx.raises(lambda: HydroState(passive_scalars=bad), f"duplicate scalars {bad}", exc=ValueError)
    for k in list(FLOW) + list(GROUPS) + ["passive_scalars"]:
        for bad in ((k,), ("a", k), (k, "b")):
            ctx.raises(lambda: HydroState(passive_scalars=bad), f"scalar named like the variable {k}", exc=ValueError)
            ctx.raises(
                lambda: Quick(w0_passives={q: (lambda x, y, z: 0 * x) for q in bad}, nx=4, progress_bar=False), f"solver with a scalar named like the variable {k}", exc=ValueError
            )
            ctx.step(2)
            ctx.state("names", bad)
    ctx.outcome("reserved names")


def interleaved(case, ctx):
    """instances do not disturb each other, whatever the order of requests"""
    sets = [()] + [p for m in (1, 2) for p in itertools.permutations(("a", "b"), m)]
    insts = [(nm, rank, HydroState(passive_scalars=nm, ndim=rank)) for nm in sets for rank in range(1, 5)]
    reqs = ["rho", "P", "v", "active_scalars", "a", "b", "passive_scalars", None]
    for rep in range(2):
        for order in (insts, insts[::-1]):
            for r in reqs:
                for nm, rank, hs in order:
                    pos = positions(nm)
                    if r is not None and r not in pos:
                        ctx.raises(lambda: hs(r), f"{r} for scalars {nm}", exc=ValueError)
                        continue
                    arr = np.arange((5 + len(nm)) * 2 ** (rank - 1), dtype=float).reshape((5 + len(nm),) + (2,) * (rank - 1))
                    got = arr[hs(r)] if r is not None else arr[hs()]
                    want = arr if r is None else (arr[pos[r]] if isinstance(pos[r], int) else np.stack([arr[i] for i in pos[r]]))
                    ctx.require(got.shape == want.shape and np.array_equal(got, want), f"{r} for scalars {nm}, rank {rank}")
                    ctx.step()
                    ctx.state("inter", nm, rank, r)
        # short-lived instances must not be mistaken for earlier ones
        for k in range(300):
            nm = sets[k % len(sets)]
            hs = HydroState(passive_scalars=nm, ndim=1 + k % 4)
            r = reqs[k % len(reqs)]
            pos = positions(nm)
            if r in pos:
                arr = np.arange(5 + len(nm), dtype=float).reshape((-1,) + (1,) * (k % 4))
                ctx.require(np.array_equal(np.ravel(arr[hs(r)]), np.ravel(np.array(pos[r], dtype=float))), f"{r} for scalars {nm}")
            del hs
    ctx.outcome("interleaved")
