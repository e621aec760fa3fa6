"""
Bounded exhaustive explorer.

A check module defines
    ID, TECHNIQUE, RULE (how the space is built), ASSUMPTIONS
    cases(tier) -> iterable of JSON-able cases, simplest first: the whole bounded space
    run(case, ctx) -> explores the case on the real code, reporting through ctx
Optional: CASE_TIMEOUT (seconds), BOUNDS (tier -> text)

The space is dealt deterministically to shards; every shard is run by its own
forked process, so a shard always sees the same history of cases.
"""
import argparse
import ctypes
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
NPROC = 8


class CaseTimeout(BaseException):
    pass


class Violation(Exception):
    """raised by ctx.require and friends: the property does not hold for this case"""

    def __init__(self, key, msg):
        super().__init__(msg)
        self.key, self.msg = key, msg


class Ctx:
    """what a case reports to"""

    def __init__(self):
        self.states = set()  # 64-bit digests of distinct states visited
        self.transitions = 0  # real-code transitions executed (steps, RHS, calls, operations)
        self.checks = 0  # oracle comparisons
        self.outcomes = {}  # distinct observed outcomes, by label
        self.found = []  # recorded (non-raised) violations
        self._tmp = None

    # -- coverage
    def state(self, *parts):
        h = hashlib.blake2b(digest_size=8)
        for p in parts:
            if hasattr(p, "tobytes"):
                h.update(str(getattr(p, "shape", "")).encode())
                h.update(p.tobytes())
            else:
                h.update(repr(p).encode())
        self.states.add(int.from_bytes(h.digest(), "big"))

    def step(self, n=1):
        self.transitions += n

    def outcome(self, label, n=1):
        self.outcomes[label] = self.outcomes.get(label, 0) + n

    # -- oracle
    def require(self, cond, msg, key=None):
        self.checks += 1
        if not cond:
            raise Violation(key, msg() if callable(msg) else msg)

    def record(self, key, msg):
        """report a violation and carry on with the case"""
        self.found.append((key, msg))

    def close(self, a, b, tol, what, scale=None, key=None):
        """|a - b| <= tol * scale everywhere, same shape, all finite"""
        import numpy as np

        self.checks += 1
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape:
            raise Violation(key, f"{what}: shape {a.shape} instead of {b.shape}")
        if a.size == 0:
            return
        if scale is None:
            scale = max(1.0, float(np.max(np.abs(b))))
        with np.errstate(all="ignore"):
            err = np.abs(a - b)
            bad = ~(err <= tol * scale)
        if np.any(bad):
            i = np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf, err)), a.shape)
            raise Violation(
                key,
                f"{what}: at {tuple(int(k) for k in i)} got {float(a[i])!r}, expected {float(b[i])!r}"
                f" ({int(np.sum(bad))} of {a.size} entries differ, tolerance {np.max(tol):g} x {np.max(scale):g})",
            )

    def raises(self, fn, what, exc=Exception, key=None):
        """fn must raise"""
        self.checks += 1
        try:
            fn()
        except exc:
            return
        raise Violation(key, f"{what}: no error was raised")

    # -- scratch files
    def tmpdir(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="mc_scratch_", dir=_G.get("scratch"))
        return tempfile.mkdtemp(dir=self._tmp)

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, case, ctx):
    """returns a list of (key, message)"""
    limit = getattr(mod, "CASE_TIMEOUT", 150)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    ctx.found = []
    try:
        try:
            mod.run(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation as v:
        ctx.found.append((v.key, v.msg))
    except CaseTimeout:
        ctx.found.append((None, f"did not terminate within {limit} s"))
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # the code under test failed on a legal input
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(REPO + "/")]
        if not where and not isinstance(e, (ImportError, AttributeError, TypeError, KeyError)):
            # raised by the harness itself: still a failed case, with its full trace
            ctx.found.append((None, "harness: " + "".join(traceback.format_exception(e))[-1500:]))
        else:
            at = where[-1] if where else tb[-1]
            ctx.found.append(
                (None, f"{type(e).__name__}: {e} (at {at.filename}:{at.lineno} in {at.name})")
            )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        ctx.cleanup()
    return list(ctx.found)


_G = {}


def _shard(k):
    """runs the cases of shard k in order; stops at its first unlisted violation"""
    mod, cases, nshards, known = _G["mod"], _G["cases"], _G["nshards"], _G["known"]
    quiet()
    ctx = Ctx()
    done, viol, hits = 0, None, {}
    dev = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dev, 1)
    os.dup2(dev, 2)
    t0 = time.time()
    for i in range(k, len(cases), nshards):
        for key, msg in run_case(mod, cases[i], ctx):
            if key is not None and key in known:
                hits.setdefault(key, msg)
            elif viol is None:
                viol = (i, key, msg)
        done += 1
        if viol is not None:
            break
    return dict(
        shard=k,
        done=done,
        viol=viol,
        hits=hits,
        states=ctx.states,
        transitions=ctx.transitions,
        checks=ctx.checks,
        outcomes=ctx.outcomes,
        secs=time.time() - t0,
    )


def _child(k, conn):
    try:
        os.setpgid(0, 0)
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # die with the parent
    except Exception:
        pass
    conn.send(_shard(k))
    conn.close()
    os._exit(0)


def shards_in_children(nshards):
    """yields (shard, result) as the shards, one forked process each, complete; (shard, None) if it died twice"""
    mpc = mp.get_context("fork")
    todo, tries, running = list(range(nshards)), {}, {}
    try:
        while todo or running:
            while todo and len(running) < NPROC:
                k = todo.pop(0)
                tries[k] = tries.get(k, 0) + 1
                r, w = mpc.Pipe(duplex=False)
                p = mpc.Process(target=_child, args=(k, w), daemon=False)
                p.start()
                w.close()
                running[r] = (k, p)
            for r in mp.connection.wait(list(running)):
                k, p = running.pop(r)
                try:
                    out = r.recv()
                except (EOFError, OSError):
                    out = None
                r.close()
                p.join()
                if out is None and tries[k] < 2:
                    todo.append(k)
                else:
                    yield k, out
    finally:
        for r, (k, p) in running.items():
            for kill in (os.killpg, os.kill):
                try:
                    kill(p.pid, signal.SIGKILL)
                except OSError:
                    pass
            p.join()


def quiet():
    import numpy as np

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")


def load_known(pid):
    """known_findings.jsonl: one JSON object per line; only "known" entries suppress"""
    known = {}
    path = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line:
                continue
            d = json.loads(line)
            if d.get("status") == "known" and d["property"] == pid:
                known[d["key"]] = d["what"]
    return known


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--shards", type=int, default=64)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--all", action="store_true", help="do not stop early")
    a = ap.parse_args(argv)
    pid = a.property.upper()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    quiet()
    known = load_known(pid)

    try:
        mod = importlib.import_module("mc.checks." + pid.lower())
    except Exception as e:
        # the package under test cannot be imported: nothing it promises holds
        tb = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(REPO + "/") for f in tb):
            path = save_replay(pid, tier, None, f"import fails: {type(e).__name__}: {e}")
            print(f"VIOLATION property={pid} replay={path}")
            write_evidence(pid, tier, seed, None, [], [], time.time() - t0, 1)
            return 1
        raise
    import fvhoe

    pkg = list(fvhoe.__path__)[0]
    assert os.path.realpath(pkg).startswith(REPO), pkg

    if a.replay:
        d = json.load(open(a.replay))
        ctx = Ctx()
        out = run_case(mod, d["case"], ctx)
        for key, msg in out:
            print(f"case {json.dumps(d['case'])}\n  {msg}")
        print("reproduced" if out else "not reproduced")
        return 1 if out else 0

    cases = list(mod.cases(tier))
    if a.list:
        for c in cases[:20]:
            print(json.dumps(c))
        print(len(cases), "cases")
        return 0
    keys = {json.dumps(c, sort_keys=True) for c in cases}
    assert len(keys) == len(cases), "the space lists a case twice"

    nshards = min(a.shards, max(1, len(cases)))
    _G.update(mod=mod, cases=cases, nshards=nshards, known=known)
    results, viols = [], []
    _G["scratch"] = tempfile.mkdtemp(prefix="mc_scratch_")
    try:
        for k, r in shards_in_children(nshards):
            if r is None:
                viols.append((k, None, "the process running these cases died twice"))
            else:
                results.append(r)
                if r["viol"] is not None:
                    viols.append(r["viol"])
            if viols and not a.all:
                break
    finally:
        shutil.rmtree(_G.pop("scratch"), ignore_errors=True)

    wall = time.time() - t0
    hits = {}
    for r in results:
        for k, m in r["hits"].items():
            hits.setdefault(k, m)
    for k in sorted(hits):
        print(f"KNOWN-FINDING: property={pid} {known[k]}")
    write_evidence(pid, tier, seed, mod, cases, results, wall, len(viols), hits)
    nst = len(set().union(*[r["states"] for r in results])) if results else 0
    print(
        f"{pid} {tier}: {sum(r['done'] for r in results)}/{len(cases)} cases, {nst} states, "
        f"{sum(r['transitions'] for r in results)} transitions, {sum(r['checks'] for r in results)} comparisons, {wall:.1f} s"
    )
    if viols:
        viols.sort(key=lambda v: v[0])
        for i, key, msg in viols[:5]:
            print(f"  case {json.dumps(cases[i])}: {msg}")
        i, key, msg = viols[0]
        path = save_replay(pid, tier, cases[i], msg)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0


def save_replay(pid, tier, case, msg):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}.json")
    with open(path, "w") as f:
        json.dump(
            dict(
                property=pid,
                tier=tier,
                case=case,
                observed=msg,
                replay_cmd=f"python3 {HERE}/run.py {pid} --replay {path}",
            ),
            f,
            indent=1,
        )
    return path


def write_evidence(pid, tier, seed, mod, cases, results, wall, nviol, hits=None):
    states = set()
    outcomes = {}
    for r in results:
        states |= r["states"]
        for k, v in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
    done = sum(r["done"] for r in results)
    n = len(cases)
    pick = sorted({0, n // 3, (2 * n) // 3, n - 1}) if n else []
    ev = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=len(states),
            transitions=sum(r["transitions"] for r in results),
            traces_validated_against_impl=done,
            oracle_comparisons=sum(r["checks"] for r in results),
            space_size=n,
            exhaustive=bool(n and done == n),
            distinct_outcomes=outcomes,
            rule=getattr(mod, "RULE", "") if mod else "",
            bounds=(getattr(mod, "BOUNDS", {}) or {}).get(tier, "") if mod else "",
            samples=[cases[i] for i in pick],
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) if mod else [],
        wall_s=round(wall, 2),
        violations=nviol,
    )
    if hits:
        ev["known_findings_seen"] = sorted(hits)
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
