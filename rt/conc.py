"""Concrete back end of the contract vocabulary: inputs are generated (or taken
from a counter-model) and the real code runs on the real libraries."""
import itertools
import math
import numpy as np
import xarray as xr
import cftime


_CLS = {"noleap": cftime.DatetimeNoLeap, "365_day": cftime.DatetimeNoLeap, "360_day": cftime.Datetime360Day, "julian": cftime.DatetimeJulian,
        "all_leap": cftime.DatetimeAllLeap, "366_day": cftime.DatetimeAllLeap, "standard": cftime.DatetimeGregorian,
        "gregorian": cftime.DatetimeGregorian, "proleptic_gregorian": cftime.DatetimeProlepticGregorian}


def _pd(d):
    """the date of a numpy datetime64"""
    if not isinstance(d, np.datetime64):
        return d
    p = d.astype("datetime64[us]").item()
    return _CLS["proleptic_gregorian"](p.year, p.month, p.day, p.hour, p.minute, p.second)


def _date(cal, *a):
    return _CLS[cal](*a)


class Skip(Exception):
    """the generated input does not satisfy the contract's precondition"""


class Ax:
    def __init__(self, name, n, members=None):
        self.name = name
        self.n = n
        self.members = members  # list of base indices, or None

    def idx(self):
        return range(self.n) if self.members is None else self.members


class Handle:
    def __init__(self, S, name, dims, data, attrs=None):
        self.S, self.name, self.dims, self.data, self.attrs = S, name, list(dims), data, attrs

    def __call__(self, *ix):
        ix = tuple(int(i) for i in ix)
        v = self.data[ix]
        if isinstance(v, np.generic) and v.dtype.kind in "iuf":
            if self.S.perturb and v.dtype.kind == "f":
                return np.float64(v) + (abs(float(v)) + 1e-300) * (1e-9 if not self.S.f32 else 1e-5) * (((hash((self.S.perturb, self.name, ix)) % 2003) - 1001) / 1001.0)
            return np.float64(v) if v.dtype.kind == "f" else int(v)
        return v

    def _buf(self):
        """the data in some memory layout"""
        x = self.data.copy()
        if x.ndim and x.dtype.kind in "fi":
            k = self.S.rng.random()
            if k < 0.2:
                x = np.asfortranarray(x)
            elif k < 0.3:
                y = np.zeros((2 * x.shape[0],) + x.shape[1:], x.dtype)
                y[::2] = x
                x = y[::2]
        return x

    def np(self):
        r = self._buf()
        self.S.objs.append((self.name, r))
        return r

    def da(self, coords=(), attrs=None, name=None, scalar_coords=None, chunks=None, encoding=None):
        cs = {}
        for c in coords:
            cs[c.name] = c._coordvar()
        for k, v in (scalar_coords or {}).items():
            cs[k] = v
        r = xr.DataArray(self._buf(), dims=[a.name for a in self.dims], coords=cs, attrs=dict({"vc_note": self.name} if attrs is None else attrs), name=name)
        chunks = chunks or self.S.lazy and bool(self.dims)
        if chunks:
            if isinstance(chunks, dict):
                r = r.chunk(chunks)
            else:
                r = r.chunk({a.name: a.n if a.name in self.S.onechunk else int(self.S.rng.choice([max(1, a.n), max(1, (a.n + 1) // 2)] + [1] * (not self.S.lazy))) for a in self.dims})
        r.encoding = dict({"vc_enc": self.name} if encoding is None else encoding)
        self.S.objs.append((self.name, r))
        return r

    def _coordvar(self):
        en = getattr(self, "encoding", None)
        return xr.Variable([a.name for a in self.dims], self.data.copy(), dict({"vc_note": self.name} if self.attrs is None else self.attrs),
                           dict({"vc_enc": self.name} if en is None else en))


import datetime as _dtm

_US = _dtm.timedelta(microseconds=1)


_STRS = []


def strings():
    """short string literals of the current source"""
    if not _STRS:
        import ast
        import os

        found = {""}
        for d, _, fs in os.walk(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src", "momlevel")):
            for f in sorted(fs):
                if f.endswith(".py"):
                    try:
                        t = ast.parse(open(os.path.join(d, f), encoding="utf-8").read())
                    except SyntaxError:
                        continue
                    found |= {n.value for n in ast.walk(t) if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) <= 14 and not set(n.value) & set(" \n`")}
        _STRS.extend(sorted(found))
    return _STRS


class ConBackend:
    sym = False
    perturb = 0  # when set, the contract reads slightly perturbed inputs (conditioning test)

    def __init__(self, rng, model=None, pool=()):
        self.rng = rng
        self.model = model or {}
        self.pool = list(pool)
        self.objs = []
        self.pi = np.float64(np.pi)
        self.nan = np.float64(np.nan)
        self.drawn = {}
        self.memo = {}
        self.faithful = bool(model)
        self.months_complete = False
        self.big = rng.random() < 0.12
        self.nanmode = rng.choice([0.0, 0.0, 0.15, 0.4])

    # ---- inputs
    def axis(self, name, lo=1, n=None, hi=None, id=None, gen=None):
        if n is not None:
            return Ax(name, int(n))
        if gen == "years":
            self.faithful = False
            k = int(self.rng.choice([1, 2, 2, 3]))
            n = 12 * k if self.rng.random() < 0.85 else max(1, 12 * k + int(self.rng.integers(-2, 3)))
            return Ax(name, n)
        if gen == "wide":
            self.faithful = False
            return Ax(name, int(self.rng.integers(lo, 40)))
        if gen == "series":
            self.faithful = False
            return Ax(name, int(self.rng.choice([1, 2, 7, 9, 12, 20, 30, 40])))
        if gen == "days":
            self.faithful = False
            return Ax(name, int(self.rng.choice([1, 2, 3, 120, 250, 400])))
        if gen == "months":
            self.faithful = False
            return Ax(name, 0)  # set by time(gen="months")
        key = f"n_{id or name}"
        m = self.model.get("sizes", {}).get(key)
        top = lo + (6 if self.big else 3)
        if hi is not None:
            top = min(top, hi)
        v = int(self.rng.integers(lo, top + 1))
        if m is not None and lo <= m <= max(lo, 8) and (hi is None or m <= hi):
            v = int(m)
        elif m is not None:
            self.faithful = False
        self.drawn[key] = v
        return Ax(name, v)

    def axis_plus(self, ax, name, k):
        return Ax(name, ax.n + k)

    def axis_of(self, name, n):
        return Ax(name, int(n))

    def _range(self, lo, hi, gt, lt, gen):
        if gen is not None:
            a, b = gen
        else:
            a = lo if lo is not None else gt
            b = hi if hi is not None else lt
            if a is None and b is None:
                a, b = -10.0, 10.0
            elif a is None:
                a = b - 10.0 - abs(b)
            elif b is None:
                b = a + 10.0 + abs(a)
        return float(a), float(b)

    def _ok(self, v, lo, hi, gt, lt):
        return (lo is None or v >= lo) and (hi is None or v <= hi) and (gt is None or v > gt) and (lt is None or v < lt)

    def _fill(self, shape, lo, hi, gt, lt, gen, scale=None):
        r = self.rng
        a, b = self._range(lo, hi, gt, lt, gen)
        style = r.choice(["u", "u", "u", "int", "const", "grid"])
        if scale == "u":
            return r.uniform(a, b, shape)
        x = r.uniform(a, b, shape)
        if style == "int" and b - a >= 2:
            x = np.round(x)
        elif style == "const":
            x = np.full(shape, r.uniform(a, b))
        elif style == "grid":
            k = int(r.integers(1, 4))
            x = a + (b - a) * np.round((x - a) / (b - a) * k) / k if b > a else x
        # harvested source constants and the range ends, as boundary values
        pool = [p for p in self.pool if a <= p <= b] + [a, b]
        if r.random() < 0.35 and x.size:
            m = r.random(shape) < 0.25
            x = np.where(m, r.choice(np.array(pool), shape), x)
        bad = ~np.vectorize(lambda v: self._ok(v, lo, hi, gt, lt), otypes=[bool])(x) if x.size else np.zeros(shape, bool)
        if bad.any():
            x = np.where(bad, a + (b - a) * r.uniform(0.05, 0.95, shape), x)
        return np.asarray(x, dtype=float)

    def _over(self, name, x, lo, hi, gt, lt):
        for ix, v in self.model.get("cells", {}).get(name, []):
            if len(ix) == x.ndim and all(0 <= i < n for i, n in zip(ix, x.shape)) and self._ok(v, lo, hi, gt, lt) and abs(v) < 1e12:
                x[tuple(ix)] = v
            else:
                self.faithful = False
        return x

    def unknown(self, name, words, fold=False):
        r = self.rng
        base = list(words) * 3 + strings()
        w = str(r.choice(base))
        for _ in range(int(r.integers(1, 3))):
            k = int(r.integers(0, 18))
            at = int(r.integers(0, len(w) + 1))
            sep = str(r.choice([c for c in strings() if len(c) == 1] + ["_", "-", "_", " ", "0"]))
            w = [w, w, w.upper(), w.lower(), w.capitalize(), w + "s", " " + w, w + " ", w[: max(0, len(w) - 1)], w[: int(r.integers(0, 5))], w + "97", w + "_x", w.swapcase(), "x" + w, w[:at] + sep + w[at:], w[:at] + sep + w[at:], w[:at] + sep + w[at:], sep.join((w, w))][k]
        if (w.lower() if fold else w) in words or w.startswith("__"):
            return self.unknown(name, words, fold)
        return w

    def casing(self, name, word):
        return "".join(c.upper() if self.rng.random() < 0.5 else c.lower() for c in word)

    ints = ()
    f32 = ()
    lazy = False
    onechunk = ()

    def arr(self, name, dims, **k):
        h = self._arr(name, dims, **k)
        if (self.f32 is True or name in self.f32) and h.data.dtype.kind == "f":
            h.data = h.data.astype("float32")
        return h

    def _arr(self, name, dims, nan=True, lo=None, hi=None, gt=None, lt=None, integer=False, gen=None, scale=None):
        shape = tuple(a.n for a in dims)
        integer = integer or name in self.ints
        if gen == "wet":
            x = self.rng.choice([0.0, 0.0, 1.0, 1.0, 1.0] + ([0.5, 2.0] if self.rng.random() < 0.3 else []), shape)
            if nan and self.nanmode:
                x = np.where(self.rng.random(shape) < self.nanmode, np.nan, x)
            return Handle(self, name, dims, np.asarray(self._over(name, x, lo, hi, gt, lt), dtype=float))
        if gen == "edge":
            self.faithful = False
            x = self.rng.integers(0, 4, shape).astype(float)
            x.flat[0] += float(self.rng.choice([6.0, 10.0, 6.0, 10.0, 7.0, 6.0 + 2.0**-40, 10.0 - 2.0**-40, 6.0 - 2.0**-40, 10.0 + 2.0**-40])) - x.sum()
            return Handle(self, name, dims, x)
        if gen == "area":
            # total close to (mostly inside, sometimes just outside) the accepted ocean area
            x = self.rng.uniform(0.5, 1.5, shape)
            if nan and self.nanmode and x.size > 1:
                m = self.rng.random(shape) < self.nanmode
                m.flat[int(self.rng.integers(0, x.size))] = False
                x = np.where(m, np.nan, x)
            f = 1.0 + self.rng.choice([0.0, self.rng.uniform(-0.019, 0.019), self.rng.uniform(-0.019, 0.019), self.rng.uniform(-0.0199, 0.0199),
                                       -0.0201, 0.0201, self.rng.uniform(-0.5, 0.5)])
            x = x / np.nansum(x) * 3.6111092e14 * f
            self.faithful = False
            return Handle(self, name, dims, x)
        if integer:
            a, b = self._range(lo, hi, gt, lt, gen)
            x = self.rng.integers(int(math.ceil(a)), int(math.floor(b)) + 1, shape)
            x = np.asarray(self._over(name, x.astype(float), lo, hi, gt, lt), dtype="int64")
            return Handle(self, name, dims, np.asarray(x, dtype="int64"))
        if gen is not None and scale is None and self.rng.random() < 0.12:
            # beyond the usual range, within the precondition
            w = float(gen[1]) - float(gen[0])
            a, b = float(gen[0]) - w * self.rng.random(), float(gen[1]) + w * self.rng.random()
            gen = tuple(v for v in (a if lo is gt is None else max(a, *(float(q) for q in (lo, gt) if q is not None)), b if hi is lt is None else min(b, *(float(q) for q in (hi, lt) if q is not None))))
        x = self._fill(shape, lo, hi, gt, lt, gen, "u" if scale == "dup" else scale)
        if scale == "dup":
            # some places occur more than once (the same ones in every such array of the axis)
            m = self.memo.get(("dup", id(dims[0])))
            if m is None:
                m = np.arange(shape[0]) if self.rng.random() < 0.5 else self.rng.integers(0, shape[0], shape[0])
                self.memo["dup", id(dims[0])] = m
                self.keep = getattr(self, "keep", []) + [dims[0]]
            x = x[m]
        if nan and self.nanmode and not self.model.get("nans"):
            kind = self.rng.choice(["el", "col"])
            if kind == "el" or len(shape) < 3:
                m = self.rng.random(shape) < self.nanmode
            else:
                m = np.broadcast_to(self.rng.random(shape[-2:]) < self.nanmode, shape)
            x = np.where(m, np.nan, x)
        x = self._over(name, x, lo, hi, gt, lt)
        if nan:
            for ix, v in self.model.get("nans", {}).get(name, []):
                if len(ix) == x.ndim and all(0 <= i < n for i, n in zip(ix, x.shape)):
                    if v:
                        x[tuple(ix)] = np.nan
                    elif np.isnan(x[tuple(ix)]):
                        x[tuple(ix)] = 1.0
        return Handle(self, name, dims, x)

    def coord(self, ax, name=None, inc=True, lo=None, hi=None, gt=None, lt=None, gen=None, id=None, attrs=None, step=None):
        nm = id or name or ax.name
        if gen is None and lo is None and hi is None and gt is None and lt is None:
            gen = (0.0, 100.0)
        x = self._fill((ax.n,), lo, hi, gt, lt, gen)
        if inc:
            for _ in range(20):
                x = self._over(nm, x, lo, hi, gt, lt) if _ == 0 else x
                if len(set(x.tolist())) == len(x):
                    break
                a, b = self._range(lo, hi, gt, lt, gen)
                x = self.rng.uniform(a, b, (ax.n,))
            y = np.sort(x)
            if inc == "dec":
                y = y[::-1].copy()
            elif inc == "distinct":
                y = x
            if not np.array_equal(x, y):
                self.faithful = False
            x = y
        else:
            x = self._over(nm, x, lo, hi, gt, lt)
        return Handle(self, name or ax.name, [ax], x, attrs)

    def affine(self, h, x0, d):
        self.faithful = False
        h.data = x0 + d * np.arange(h.dims[0].n)
        h.name = h.dims[0].name
        return h

    def time(self, ax, cal="noleap", name=None, id=None, gen="monthly", attrs=None, recent=False):
        n = ax.n
        r = self.rng
        self.faithful = False
        np64 = cal == "numpy"
        if np64:
            cal, recent = "proleptic_gregorian", True
        y0 = int(r.choice([1, 1850, 1900, 1980, 1999, 2000, 2004]))
        if recent:
            y0 = int(r.choice([1950, 1968, 1980, 1999, 2000, 2004]))
        if cal in ("standard", "gregorian", "proleptic_gregorian") and y0 < 1600:
            y0 = 1850
        elif gen in ("years", "months") and r.random() < 0.15:
            y0 = int(r.choice([8, 9, 98, 99, 998, 999, 9997]))
        out = []
        if gen == "months":
            # one to three samples in every month of whole (or almost whole) years
            ny = int(r.integers(1, 4))
            for y in range(y0, y0 + ny):
                for m in range(1, 13):
                    for d in sorted(r.choice(28, int(r.integers(1, 4)), replace=False)):
                        out.append(_date(cal, y, m, int(d) + 1, 12))
            if r.random() < 0.3:
                k = int(r.integers(0, len(out)))
                out.insert(k, out[k])  # the same time twice
            cut = int(r.choice([0, 0, 3, 20])) if not self.months_complete else 0
            out = out[cut:]
            ax.n = n = len(out)
        elif gen in ("monthly", "years"):
            m0 = int(r.integers(0, 12))
            if gen == "years" and r.random() < 0.9:
                m0 = 0
            for k in range(n):
                y, m = y0 + (m0 + k) // 12, (m0 + k) % 12 + 1
                out.append(_date(cal, y, m, int(r.integers(1, 29)), 0))
            if gen == "years" and n > 12 and r.random() < 0.15:
                # a month sampled twice and the last sample left out
                k = int(r.integers(0, min(n - 1, 12)))
                out = out[: k + 1] + [_date(cal, out[k].year, out[k].month, 28, 6)] + out[k + 1 : n - 1]
        elif gen == "daily":
            d = _date(cal, y0, int(r.integers(1, 13)), int(r.integers(1, 29)), 12)
            import datetime

            for k in range(n):
                out.append(d + datetime.timedelta(days=k))
        else:
            import datetime

            d = _date(cal, y0, int(r.integers(1, 13)), int(r.integers(1, 29)), int(r.integers(0, 24)))
            for k in range(n):
                out.append(d)
                d = d + datetime.timedelta(days=int(r.integers(1, 200)), hours=int(r.integers(0, 24)), minutes=int(r.choice([0, 0, 30, 59])))
        if gen in ("years", "months") and r.random() < 0.12:
            out = [out[k] for k in r.permutation(n)]  # not in chronological order
        x = np.empty(n, dtype=object)
        x[:] = out
        if np64:
            x = np.array([np.datetime64(d.isoformat()) for d in out], dtype="datetime64[ns]")
        h = Handle(self, name or ax.name, [ax], x, attrs)
        h.cal = cal
        return h

    def edge(self):
        return "edge"

    def flip(self, p):
        return bool(self.rng.random() < p)

    ix0 = 0

    def scalar(self, name, lo=None, hi=None, gt=None, lt=None, gen=None, integer=False):
        m = self.model.get("scalars", {}).get(f"s_{name}")
        if integer:
            a, b = self._range(lo, hi, gt, lt, gen)
            v = int(self.rng.integers(int(math.ceil(a)), int(math.floor(b)) + 1))
            if m is not None and self._ok(m, lo, hi, gt, lt):
                v = int(m)
            return v
        v = float(self._fill((1,), lo, hi, gt, lt, gen)[0])
        if m is not None and self._ok(m, lo, hi, gt, lt) and abs(m) < 1e12:
            v = float(m)
        self.drawn[f"s_{name}"] = v
        return v

    def dataset(self, vars, attrs=None, coords=None, encoding=None):
        ds = xr.Dataset()
        for k, v in vars.items():
            ds[k] = v
        for k, v in (coords or {}).items():
            ds = ds.assign_coords({k: v})
        ds.attrs = dict(attrs or {})
        ds.encoding = dict({"vc_enc": "dataset"} if encoding is None else encoding)
        self.objs.append(("dataset", ds))
        return ds

    def assume(self, b):
        if not bool(b):
            raise Skip()

    # ---- tables
    def flags(self, name, dims):
        return Handle(self, name, dims, self.rng.random(tuple(a.n for a in dims)) < 0.6)

    def strings(self, name, ax, prefix=None, distinct=True):
        if prefix is None:
            prefix = str(self.rng.choice(["g", "G", " g", "St. X, (a)/", "é'"]))
        suffix = str(self.rng.choice(["", "", " ", "-Y z", "_.", "  II"]))
        k = self.rng.permutation(10 * ax.n + 5)[: ax.n]
        x = np.empty(ax.n, dtype=object)
        x[:] = [f"{prefix}{i}{suffix}" for i in k]
        return Handle(self, name, [ax], x)

    def table(self, name, ax, cols, index=None, inames=None):
        import pandas as pd

        d = pd.concat([pd.Series(list(h.data), name=n, dtype=None if h.data.dtype.kind == "O" else h.data.dtype) for n, h in cols], axis=1)
        if isinstance(index, (list, tuple)):
            d.index = pd.MultiIndex.from_arrays([h.data for h in index], names=inames or [h.name for h in index])
        elif index is not None:
            d.index = pd.Index(index.data, name=(inames or [index.name])[0])
        self.objs.append((name, d))
        return d

    def csvfile(self, df, name="gauges"):
        import atexit
        import shutil
        import tempfile

        if ConBackend.scratch is None:
            ConBackend.scratch = tempfile.mkdtemp(prefix="vc_csv_")
            atexit.register(shutil.rmtree, ConBackend.scratch, True)
        p = f"{ConBackend.scratch}/{name}.csv"
        df.to_csv(p, index=False)
        return p

    scratch = None

    def resource(self, fname, ax_name="loc"):
        import csv
        import os

        p = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src", "momlevel", "resources", fname)
        with open(p, encoding="utf-8-sig", newline="") as f:
            rows = list(csv.DictReader(f))
        ax = Ax(ax_name, len(rows))
        self.faithful = False
        cols = {}
        for c in rows[0]:
            v = [r[c] for r in rows]
            if c in ("lat", "lon"):
                x = np.array([float(q) for q in v])
            else:
                x = np.empty(len(v), dtype=object)
                x[:] = v
            cols[c] = Handle(self, c, [ax], x)
        return ax, cols

    def nearest(self, axes, valid, lat, lon, la, lo):
        axes = axes if isinstance(axes, (list, tuple)) else [axes]
        best = []
        p0, l0 = math.radians(float(la)), math.radians(float(lo))
        for ix in itertools.product(*[a.idx() for a in axes]):
            if not bool(valid(*ix)):
                continue
            p1, l1 = math.radians(float(lat(*ix))), math.radians(float(lon(*ix)))
            h = math.sin((p1 - p0) / 2) ** 2 + math.cos(p0) * math.cos(p1) * math.sin((l1 - l0) / 2) ** 2
            best.append((2 * math.asin(min(1.0, math.sqrt(h))), ix))
        if not best:
            raise Skip()
        best.sort()
        if len(best) > 1 and best[1][0] - best[0][0] < 1e-8:
            raise Skip()  # tie: either point is a nearest one
        return np.float64(best[0][0]), list(best[0][1])

    # ---- operators
    def c(self, s):
        return np.float64(eval(s, {}) if "/" in s else s)

    def ite(self, c, a, b):
        v = a if bool(c) else b
        return v() if callable(v) else v

    def and_(self, *xs):
        return all(bool(x) for x in xs)

    def or_(self, *xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not bool(x)

    def isnan(self, x):
        return bool(np.isnan(x)) if not isinstance(x, cftime.datetime) else False

    def eq(self, a, b):
        return bool(a == b)

    def min(self, a, b):
        return np.float64(np.minimum(a, b))

    def max(self, a, b):
        return np.float64(np.maximum(a, b))

    def abs(self, a):
        return abs(a)

    def sqrt(self, a):
        return np.sqrt(np.float64(a))

    def log(self, a):
        return np.log(np.float64(a))

    def sin(self, a):
        return np.sin(np.float64(a))

    def cos(self, a):
        return np.cos(np.float64(a))

    def arctan(self, a):
        return np.arctan(np.float64(a))

    def arctan2(self, a, b):
        return np.arctan2(np.float64(a), np.float64(b))

    def real(self, a):
        return np.float64(a)

    def deriv(self, f, x):
        """d f / d x by complex step"""
        x = np.float64(x)
        if np.isnan(x):
            return x
        return np.float64(np.imag(f(complex(x, 1e-30))) / 1e-30)

    # ---- aggregates
    def _it(self, axes):
        axes = axes if isinstance(axes, (list, tuple)) else [axes]
        return itertools.product(*[a.idx() for a in axes])

    def sum(self, axes, fn, skipna=False):
        vs = [np.float64(fn(*ix)) for ix in self._it(axes)]
        if skipna:
            vs = [v for v in vs if not np.isnan(v)]
        return np.float64(math.fsum(vs)) if all(np.isfinite(vs)) else np.float64(np.sum(vs))

    def mean(self, axes, fn, skipna=True):
        vs = [np.float64(fn(*ix)) for ix in self._it(axes)]
        if skipna:
            vs = [v for v in vs if not np.isnan(v)]
        if not vs:
            return self.nan
        return np.float64(math.fsum(vs) / len(vs)) if all(np.isfinite(vs)) else np.float64(np.mean(vs))

    def std(self, axes, fn, skipna=True):
        vs = [np.float64(fn(*ix)) for ix in self._it(axes)]
        if skipna:
            vs = [v for v in vs if not np.isnan(v)]
        return np.float64(np.std(vs)) if vs else self.nan

    def count(self, axes, fn):
        return sum(1 for ix in self._it(axes) if bool(fn(*ix)))

    def amax(self, axes, fn):
        vs = [np.float64(fn(*ix)) for ix in self._it(axes)]
        vs = [v for v in vs if not np.isnan(v)]
        return max(vs) if vs else self.nan

    def amin(self, axes, fn):
        vs = [np.float64(fn(*ix)) for ix in self._it(axes)]
        vs = [v for v in vs if not np.isnan(v)]
        return min(vs) if vs else self.nan

    def all(self, axes, fn):
        return all(bool(fn(*ix)) for ix in self._it(axes))

    def any(self, axes, fn):
        return any(bool(fn(*ix)) for ix in self._it(axes))

    def sub(self, ax, pred):
        return Ax(ax.name, ax.n, [i for i in ax.idx() if bool(pred(i))])

    def grad(self, ax, f, x, i, edge_order=1):
        n = ax.n
        fx = lambda k: np.float64(f(k))
        xx = lambda k: np.float64(x(k))
        if 0 < i < n - 1:
            hd, hs = xx(i) - xx(i - 1), xx(i + 1) - xx(i)
            return (hd * hd * fx(i + 1) + (hs * hs - hd * hd) * fx(i) - hs * hs * fx(i - 1)) / (hd * hs * (hd + hs))
        if edge_order == 1:
            a, b = (0, 1) if i == 0 else (n - 2, n - 1)
            return (fx(b) - fx(a)) / (xx(b) - xx(a))
        ks = [0, 1, 2] if i == 0 else [n - 3, n - 2, n - 1]
        d1, d2 = xx(ks[1]) - xx(ks[0]), xx(ks[2]) - xx(ks[1])
        if i == 0:
            return (fx(ks[0]) * (-(2 * d1 + d2) / (d1 * (d1 + d2))) + fx(ks[1]) * ((d1 + d2) / (d1 * d2))
                    + fx(ks[2]) * (-d1 / (d2 * (d1 + d2))))
        return (fx(ks[0]) * (d2 / (d1 * (d1 + d2))) + fx(ks[1]) * (-(d2 + d1) / (d1 * d2))
                + fx(ks[2]) * ((2 * d2 + d1) / (d2 * (d1 + d2))))

    def polyfit1(self, ax, x, y):
        xs, ys = [], []
        for k in ax.idx():
            v = np.float64(y(k))
            if not np.isnan(v):
                xs.append(np.float64(x(k)))
                ys.append(v)
        if not xs:
            return self.nan, self.nan
        mx, my = math.fsum(xs) / len(xs), math.fsum(ys) / len(ys)
        den = math.fsum((a - mx) ** 2 for a in xs)
        if len(xs) < 2 or den == 0:
            raise Skip()  # rank-deficient fit: no unique least-squares line
        s = math.fsum((a - mx) * (b - my) for a, b in zip(xs, ys)) / den
        return np.float64(s), np.float64(my - s * mx)

    def ffill(self, ax, f, i):
        for k in range(i, -1, -1):
            v = np.float64(f(k))
            if not np.isnan(v):
                return v
        return self.nan

    # ---- calendar
    def year(self, d):
        return _pd(d).year

    def month(self, d):
        return _pd(d).month

    def days_in_month(self, d):
        return d.daysinmonth

    def year_mid(self, cal, y):
        a, b = _date(cal, int(y), 1, 1), _date(cal, int(y) + 1, 1, 1)
        return a + (b - a) / 2

    def month_mid(self, cal, y, m):
        y, m = int(y), int(m)
        a, b = _date(cal, y, m, 1), _date(cal, y + m // 12, m % 12 + 1, 1)
        return a + (b - a) / 2

    def mid_date(self, a, b):
        return a + (b - a) / 2

    def ns1970(self, d):
        if isinstance(d, np.datetime64):
            return np.float64(d.astype("datetime64[ns]").astype("int64"))
        return np.float64((d - _date(d.calendar, 1970, 1, 1)) / _US) * 1e3

    def dayofyear(self, d):
        return _pd(d).dayofyr

    def hour(self, d):
        return _pd(d).hour

    def leap(self, d):
        return cftime.is_leap_year(d.year, d.calendar)

    def memo_(self, f):
        """remember the values of a contract function of indices"""
        d = {}

        def g(*ix):
            if self.perturb:
                return f(*ix)
            if ix not in d:
                d[ix] = f(*ix)
            return d[ix]

        return g

    def pinv(self, rows, ax, t, c):
        """element (t, c) of the pseudo-inverse of the matrix with rows rows[j](k)"""
        key = ("pinv", id(rows))
        if key not in self.memo:
            m = np.array([[float(f(k)) for k in range(ax.n)] for f in rows])
            sv = np.linalg.svd(m, compute_uv=False)
            if sv[-1] < 1e-5 * sv[0]:
                raise Skip()  # numerically rank-deficient: the fit is decided by rounding
            self.memo[key] = (rows, np.linalg.pinv(m))
        return np.float64(self.memo[key][1][int(t), int(c)])

    def need_months(self):
        self.months_complete = True

    def groups(self, ax, key, component):
        labs = sorted({int(key(i)) for i in ax.idx()})
        if component == "month" and self.months_complete and labs != list(range(1, 13)):
            raise Skip()
        return (Ax(component, len(labs)), (lambda g: labs[int(g)]),
                (lambda lab: Ax(ax.name, 0, [i for i in ax.idx() if int(key(i)) == int(lab)])))
