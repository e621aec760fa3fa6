"""solver settings in which every triple of option values occurs together (deterministic greedy covering array); where
a value cannot be combined with another (limiter options of an unlimited run, convex blending in 3D, ...) it is replaced"""
import functools
import itertools

FACTORS = {
    "dims": ["x", "y", "z", "xy", "xz", "yz", "xyz"],
    "p": [0, 1, 2, 3, [1, 3, 2], [3, 0, 2], [2, 1, 0]],
    "cells": ["few", "some", "more"],
    "kind": ["mild", "rough", "smooth", "supersonic"],
    "rs": ["hllc", "llf"],
    "ig": ["auto", "euler", "ssprk2", "ssprk3", "rk4"],
    "how": ["n", "T", "every"],
    "step": [0.3, 0.8, "fixed"],
    "gamma": [1.4, 5 / 3],
    "dom": ["unit", "odd"],
    "npass": [0, 1, 3],
    "limit": [True, False],
    "slope_limiter": ["minmod", "moncen", None],
    "NAD": [1e-2, 1e-6, 1e9],
    "NAD_mode": ["global", "local"],
    "NAD_range": ["relative", "absolute"],
    "NAD_vars": [None, ["rho"], ["rho", "P"]],
    "PAD": ["default", "narrow", "none"],
    "SED": [True, False],
    "convex": [False, True],
    "force_trouble": [False, True],
    "centres": [False, True],
    "bc": ["periodic", "free", "reflective", "mixed"],
    "csq_floor": [1e-10, 0.0, 0.5],
    "SED_tolerance": [1e-10, 1e-3],
}


@functools.lru_cache(None)
def cover():
    """(settings, number of triples covered)"""
    names = list(FACTORS)
    vals = [FACTORS[k] for k in names]
    m = len(names)
    left = {
        (i, a, j, b, k, c)
        for i, j, k in itertools.combinations(range(m), 3)
        for a in range(len(vals[i])) for b in range(len(vals[j])) for c in range(len(vals[k]))
    }
    total = len(left)
    order = sorted(left)
    pos = 0
    rows = []
    # the factors with most values first: they decide the size
    fill = sorted(range(m), key=lambda i: -len(vals[i]))
    while left:
        while order[pos] not in left:
            pos += 1
        i, a, j, b, k, c = order[pos]
        row = {i: a, j: b, k: c}
        for f in fill:
            if f in row:
                continue
            fixed = sorted(row)
            best = None
            for v in range(len(vals[f])):
                gain = 0
                for g, h in itertools.combinations(fixed, 2):
                    t = sorted([(f, v), (g, row[g]), (h, row[h])])
                    gain += (*t[0], *t[1], *t[2]) in left
                v2 = (v + len(rows)) % len(vals[f])
                if best is None or (gain, v2) > best[:2]:
                    best = (gain, v2, v)
            row[f] = best[2]
        for i, j, k in itertools.combinations(range(m), 3):
            left.discard((i, row[i], j, row[j], k, row[k]))
        rows.append({names[i]: vals[i][row[i]] for i in range(m)})
    return rows, total


NARROW = {"rho": [0.9, 1.3], "P": [0.8, 1.2]}
CELLS = {
    "few": {1: 4, 2: [3, 2], 3: [2, 3, 2]},
    "some": {1: 9, 2: [5, 6], 3: [4, 3, 3]},
    "more": {1: 17, 2: [8, 7], 3: [5, 4, 3]},
}


def combo_cases(keep=None, bounded=False, walls=False, **extra):
    """the settings as cases with the fields of a regime case; keep(case) -> bool; bounded: with their boundary types, else periodic; walls: no flow at high speed"""
    from mc.fvlib import degrees_for, mirror_width

    out = []
    for row in cover()[0]:
        dims, d = row["dims"], len(row["dims"])
        p = row["p"][:d] if isinstance(row["p"], list) else row["p"]
        if dims == "xyz" and not isinstance(p, list):
            p = min(p, 2)
        if not row["limit"]:
            lim = "off"
        else:
            lim = {k: row[k] for k in ("slope_limiter", "NAD", "NAD_mode", "NAD_range", "NAD_vars", "SED", "SED_tolerance", "force_trouble")}
            lim["a_posteriori_slope_limiting"] = True
            lim["convex"] = row["convex"] and d < 3
            lim["PAD"] = {"default": None, "narrow": NARROW, "none": {}}[row["PAD"]]
        kind = row["kind"]
        pm = max(p) if isinstance(p, list) else p
        if kind == "rough" and pm > 1 and (lim == "off" or not (lim["force_trouble"] and lim["slope_limiter"])):
            kind = "mild"
        if kind == "supersonic" and (walls or bounded and row["bc"] != "periodic"):
            kind = "rough" if pm < 2 else "smooth"
        reg = dict(kind=kind, n=CELLS[row["cells"]], gamma=row["gamma"], npass=row["npass"], steps=2, ig=row["ig"], how=row["how"])
        reg["n"] = {str(k): v for k, v in reg["n"].items()}
        if row["dom"] == "odd":
            reg["dom"] = [[-1.3, 0.4], [10.0, 11.1], [0.5, 1.7]]
        opts = {"csq_floor": row["csq_floor"]}
        if row["step"] == "fixed":
            opts["fixed_dt"] = 4e-3 if d > 1 else 2e-2
        else:
            reg["CFL"] = row["step"] if row["ig"] != "euler" or pm < 2 else 0.3
        if row["centres"]:
            opts["snapshots_as_fv_averages"] = False
        reg["opts"] = opts
        if bounded and row["bc"] != "periodic":
            kinds = {"free": ["free", "free"], "reflective": ["reflective", "reflective"]}
            mixed = (["free", "reflective"], ["periodic", "periodic"], ["outflow", "free"])
            reg["bc"] = {a: kinds.get(row["bc"]) or mixed[(j + len(out)) % 3] for j, a in enumerate(dims)}
            reg["min"] = mirror_width(degrees_for(dims, p), lim != "off")
        case = dict(k="regime", reg=reg, dims=dims, p=p, lim=lim, rs=row["rs"], **extra)
        if keep is None or keep(case):
            out.append(case)
    return out
