"""Recorded reference events: requests, values and tolerances (P22)."""
import gzip
import json
import math
import os

import numpy as np

import build

PATH = os.path.join(build.VERIF, "data", "reference.npz")
SKIP = ("Z_", "UM", "UP", "tc_thrown", "es_tc_thrown")     # phases are a convention (P19)


def numbers(x):
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out += numbers(y)
        return out
    if isinstance(x, bool) or not isinstance(x, (int, float, str)):
        return [float("nan")]
    if isinstance(x, str):
        return [{"nan": math.nan, "inf": math.inf, "-inf": -math.inf}.get(x, math.nan)]
    return [float(x)]


def flatten(e):
    """event -> {key: list of numbers}; a failure is an event without numbers"""
    if "crash" in e or "exception" in e:
        return {"!": [float("nan")]}
    out = {}
    for k in sorted(e):
        if k.startswith(SKIP) or isinstance(e[k], str):
            continue
        out[k] = numbers(e[k])
    return out


def save(path, reqs, events, spreads):
    """spreads: list of {key: list} (absolute)"""
    shape, vals, tols = [], [], []
    for e, s in zip(events, spreads):
        shape.append([[k, len(v)] for k, v in e.items()])
        for k, v in e.items():
            a, d = np.array(v, float), np.array(s[k], float)
            fin = np.abs(a[np.isfinite(a)])
            fin = fin[fin < 1e15]
            top = fin.max() if len(fin) else 0.0
            if k.endswith("tc"):
                top = min(top, 1.0)
            if k in ("mh2", "fo", "foat", "mit", "mitn") and e.get("MA"):
                top = max(top, 10 * e["MA"][0] ** 2)      # eigenvalues of a matrix of this size
            t = 200 * d + 1e-10 * np.abs(a) + 1e-13 * top + 1e-300
            vals.append(a)
            tols.append(t)
    v, t = np.concatenate(vals), np.concatenate(tols)
    with np.errstate(all="ignore"):
        k = np.where(np.isfinite(v) & np.isfinite(t), np.ceil(np.log2(t)), 9999).astype(np.int16)
    meta = np.frombuffer(gzip.compress(json.dumps([reqs, shape], separators=(",", ":")).encode(), 9, mtime=0), np.uint8)
    np.savez_compressed(path, meta=meta, v=v, k=k)


def load(path=PATH):
    """list of (request, {key: (values, tolerances)})"""
    z = np.load(path)
    reqs, shape = json.loads(gzip.decompress(z["meta"].tobytes()))
    v, k = z["v"], z["k"].astype(float)
    with np.errstate(all="ignore"):
        t = np.where(k < 5000, np.exp2(k), np.inf)
    out, i = [], 0
    for r, s in zip(reqs, shape):
        d = {}
        for key, n in s:
            d[key] = (v[i:i + n], t[i:i + n])
            i += n
        out.append((r, d))
    assert i == len(v)
    return out
