"""Runs contracts against the real code (real numpy/xarray/xgcm/...): replay of
counter-models and the bounded runtime validation of every contract."""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
import ast
import contextlib
import copy
import hashlib
import importlib
import io
import itertools
import json
import signal
import time
import traceback
import warnings

warnings.simplefilter("ignore")
import numpy as np
import xarray as xr
import cftime

import rt.conc as C
from specs import base as B
from specs import meta as META
import specs.all  # noqa: F401  registers every scenario

np.seterr(all="ignore")


class Viol(Exception):
    def __init__(self, label, detail="", frame=False):
        super().__init__(f"{label}: {detail}")
        self.label, self.detail, self.frame = label, detail, frame


def resolve(q):
    mod, _, attr = q.partition(":")
    o = importlib.import_module(mod)
    for a in attr.split("."):
        o = getattr(o, a)
    return o


def close(a, b, scale, case):
    if isinstance(a, cftime.datetime) or isinstance(b, cftime.datetime):
        return isinstance(a, cftime.datetime) and isinstance(b, cftime.datetime) and a.calendar == b.calendar and a == b
    if isinstance(a, np.datetime64) or isinstance(b, np.datetime64):
        return isinstance(a, np.datetime64) and isinstance(b, np.datetime64) and a == b
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    if np.isnan(b):
        return np.isnan(a)
    if np.isinf(b):
        return not np.isfinite(a)
    if not np.isfinite(a):
        return False
    return abs(a - b) <= case.rtol * abs(b) + case.srel * scale + case.atol


def attrs_check(got, want, lab):
    for k, v in want.items():
        if k not in got:
            raise Viol(f"{lab}: attribute {k}", f"missing; has {sorted(got)}")
        g = got[k]
        if v is B.ANY or isinstance(v, B.Words):
            if v is not B.ANY and not v.ok(g):
                raise Viol(f"{lab}: attribute {k}", f"expected {v!r} got {g!r}")
        elif isinstance(v, tuple) and isinstance(g, tuple) and len(v) == len(g):
            for i, (x, y) in enumerate(zip(g, v)):
                attrs_check({k: x}, {k: y}, lab)
        elif isinstance(v, float) and isinstance(g, (int, float, np.floating)):
            if abs(float(g) - v) > 1e-9 * abs(v) + 1e-3 * (k == "distance"):
                raise Viol(f"{lab}: attribute {k}", f"expected {v!r} got {g!r}")
        elif g != v:
            raise Viol(f"{lab}: attribute {k}", f"expected {v!r} got {g!r}")


def check_value(S, case, out, res, lab):
    if isinstance(out, B.Anything):
        return
    if isinstance(out, B.Tup):
        if not isinstance(res, (tuple, list)) or len(res) != len(out.items):
            raise Viol(f"{lab}: tuple of {len(out.items)}", f"got {type(res).__name__}")
        for i, (o, r) in enumerate(zip(out.items, res)):
            check_value(S, case, o, r, f"{lab}[{i}]")
        return
    if isinstance(out, B.Py):
        v = out.value
        ok = False
        try:
            if isinstance(v, float) and not isinstance(v, bool):
                ok = abs(float(res) - v) <= 1e-9 * abs(v) + case.atol
            elif isinstance(v, bool) or v is None:
                ok = (res is v) or (isinstance(res, np.bool_) and bool(res) == v)
            else:
                ok = bool(res == v) if not isinstance(v, (list, tuple)) else list(res) == list(v)
        except Exception as e:
            raise Viol(f"{lab}: value", f"expected {v!r} got {res!r} ({e})"[:300])
        if not ok:
            raise Viol(f"{lab}: value", f"expected {v!r} got {res!r}"[:300])
        return
    if isinstance(out, B.Obj):
        if res is not resolve(out.target):
            raise Viol(f"{lab}: is {out.target}", f"got {res!r}")
        return
    if isinstance(out, B.DS):
        if not isinstance(res, xr.Dataset):
            raise Viol(f"{lab}: Dataset", f"got {type(res).__name__}")
        for n, o in out.vars.items():
            if n not in res.variables:
                raise Viol(f"{lab}: has variable {n}", f"variables {sorted(map(str, res.variables))}")
            check_value(S, case, o, res[n], f"{lab}.{n}")
        if out.exact and set(res.data_vars) - set(out.vars):
            raise Viol(f"{lab}: exactly {sorted(out.vars)}", f"extra {sorted(set(map(str, res.data_vars)) - set(out.vars))}")
        if out.order is not None and list(res.data_vars) != list(out.order):
            raise Viol(f"{lab}: order of the variables", f"expected {out.order} got {list(res.data_vars)}")
        if out.encoding is not None and dict(res.encoding) != out.encoding:
            raise Viol(f"{lab}: encoding", f"expected {out.encoding} got {dict(res.encoding)}")
        attrs_check(res.attrs, out.attrs, lab)
        return
    if isinstance(out, B.Table):
        return check_table(S, case, out, res, lab)
    if isinstance(out, B.Fam):
        if not isinstance(res, xr.Dataset):
            raise Viol(f"{lab}: Dataset", f"got {type(res).__name__}")
        rows = list(out.rows.idx())
        want = {out.name(i): i for i in rows}
        got = [str(v) for v in res.data_vars]
        if sorted(got) != sorted(want):
            raise Viol(f"{lab}: rows kept", f"expected variables {sorted(want)} got {sorted(got)}"[:400])
        for n, i in want.items():
            check_array(S, case, out.arr(i), res[n], f"{lab}.{n}")
        return
    check_array(S, case, out, res, lab)


def check_cell(case, g, v, lab):
    if v is B.ANY:
        return
    if isinstance(v, tuple):
        if not isinstance(g, (tuple, list)) or len(g) != len(v):
            raise Viol(lab, f"expected {v!r} got {g!r}")
        for i, (x, y) in enumerate(zip(g, v)):
            check_cell(case, x, y, f"{lab}[{i}]")
        return
    if isinstance(v, str):
        if str(g) != v:
            raise Viol(lab, f"expected {v!r} got {g!r}")
        return
    if not close(g, v, 0.0, case):
        raise Viol(lab, f"expected {v!r} got {g!r}")


def check_table(S, case, out, res, lab):
    import pandas as pd

    if not isinstance(res, pd.DataFrame):
        raise Viol(f"{lab}: DataFrame", f"got {type(res).__name__}")
    rows = list(out.rows.idx())
    if len(res) != len(rows):
        raise Viol(f"{lab}: rows kept", f"expected {len(rows)} rows {rows}, got {len(res)}")
    names = list(res.columns)
    if out.exact is not None and sorted(names) != sorted(out.exact):
        raise Viol(f"{lab}: columns {sorted(out.exact)}", f"got {sorted(names)}")
    for n in out.no_cols:
        if n in names:
            raise Viol(f"{lab}: no column {n}", "present")
    for p, i in enumerate(rows):
        if out.index is not None:
            check_cell(case, res.index[p], out.index(i), f"{lab}: row label at {p}")
        for n, f in out.cols.items():
            if names.count(n) != 1:
                raise Viol(f"{lab}: column {n}", f"columns {names}")
            check_cell(case, res[n].iloc[p], f(i), f"{lab}: column {n} at row {p}")


def check_array(S, case, out, res, lab):
    names = [a.name for a in out.dims]
    sizes = [len(list(a.idx())) for a in out.dims]
    if out.kind == "da" or (out.kind == "scalar" and isinstance(res, xr.DataArray)):
        if not isinstance(res, xr.DataArray):
            raise Viol(f"{lab}: DataArray", f"got {type(res).__name__}")
        if set(res.dims) != set(names) or len(res.dims) != len(names) or (out.ordered and list(res.dims) != names):
            raise Viol(f"{lab}: dimensions {tuple(names)}", f"got {res.dims}")
        if out.name is not B.ANY and res.name != out.name:
            raise Viol(f"{lab}: name {out.name!r}", f"got {res.name!r}")
        attrs_check(res.attrs, out.attrs, lab)
        if out.encoding is not None and dict(res.encoding) != out.encoding:
            raise Viol(f"{lab}: encoding", f"expected {out.encoding} got {dict(res.encoding)}")
        if out.dtype is not None and str(res.dtype) != out.dtype:
            raise Viol(f"{lab}: element type {out.dtype}", f"got {res.dtype}")
        if out.exact_attrs is not None and set(res.attrs) != set(out.exact_attrs):
            raise Viol(f"{lab}: attribute names {sorted(out.exact_attrs)}", f"got {sorted(res.attrs)}")
        for c, h in out.coords.items():
            if c not in res.coords:
                raise Viol(f"{lab}: coordinate {c}", f"missing; has {sorted(map(str, res.coords))}")
            o = h if isinstance(h, B.Arr) else B.Arr(h.dims, h.__call__)
            check_array(S, case, o, res.coords[c].reset_coords(drop=True), f"{lab}.{c}")
        for c, want in out.labels.items():
            got = [str(x) for x in res.coords[c].values.ravel()] if c in res.coords else None
            if got != list(want):
                raise Viol(f"{lab}: labels along {c}", f"expected {want} got {got}")
        for c in out.no_coords:
            if c in res.coords:
                raise Viol(f"{lab}: no coordinate {c}", "present")
        vals = np.asarray(res.transpose(*names).values)
    elif out.kind == "np":
        vals = np.asarray(res)
        if vals.ndim != len(names):
            raise Viol(f"{lab}: {len(names)}-d array", f"got shape {vals.shape}")
    else:
        vals = np.asarray(res)
        if vals.ndim != 0:
            raise Viol(f"{lab}: scalar", f"got shape {vals.shape}")
    if list(vals.shape) != sizes:
        raise Viol(f"{lab}: shape {tuple(sizes)}", f"got {vals.shape}")
    exp = {}
    for pos in itertools.product(*[range(n) for n in sizes]):
        ix = [list(a.idx())[p] for a, p in zip(out.dims, pos)]
        exp[pos] = out.fn(*ix)
    scale = 0.0
    for v in exp.values():
        if isinstance(v, (int, float, np.number)) and np.isfinite(v):
            scale = max(scale, abs(float(v)))
    for pos, v in exp.items():
        g = vals[pos]
        if isinstance(g, np.ndarray):
            g = g[()]
        if v is B.ANY:
            continue
        if case.illcond and mismatch(g, v, scale, case) and ill(S, case, out, pos, v, scale):
            continue
        if isinstance(v, B.Either):
            if not any(close(g, w, scale, case) for w in v.vals):
                raise Viol(f"{lab}: element value", f"at {pos} expected one of {v.vals!r} got {g!r}")
        elif not close(g, v, scale, case):
            raise Viol(f"{lab}: element value", f"at {pos} expected {v!r} got {g!r}")


def mismatch(g, v, scale, case):
    return not any(close(g, w, scale, case) for w in (v.vals if isinstance(v, B.Either) else [v]))


def ill(S, case, out, pos, v, scale):
    """the contract's own value jumps under 1e-9 relative changes of the inputs: rounding decides it"""
    ix = [list(a.idx())[p] for a, p in zip(out.dims, pos)]
    vs = list(v.vals) if isinstance(v, B.Either) else [v]
    try:
        for k in range(1, 13):
            S.perturb = k
            u = out.fn(*ix)
            us = list(u.vals) if isinstance(u, B.Either) else [u]
            if any(not close(a, b, scale, case) or abs(a - b) > 1e-3 * max(abs(a), abs(b)) for a, b in zip(us, vs)):
                return True
    finally:
        S.perturb = 0
    return False


def same_obj(a, b):
    if isinstance(a, xr.DataArray):
        return a.identical(b) and a.encoding == b.encoding and a.dims == b.dims and list(a.coords) == list(b.coords) and all(
            a.coords[c].attrs == b.coords[c].attrs and a.coords[c].encoding == b.coords[c].encoding for c in a.coords) and a.dtype == b.dtype
    if isinstance(a, xr.Dataset):
        return a.identical(b) and a.encoding == b.encoding and set(a.variables) == set(b.variables) and all(
            a[v].attrs == b[v].attrs and a[v].dims == b[v].dims and a[v].encoding == b[v].encoding for v in a.variables)
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and (np.array_equal(a, b) if a.dtype.kind not in "f" else np.array_equal(a, b, equal_nan=True))
    if hasattr(a, "equals"):
        return a.equals(b) and list(a.columns) == list(b.columns) and list(a.dtypes) == list(b.dtypes) and a.index.equals(b.index) and list(a.index.names) == list(b.index.names)
    return True


def run_case(scn, rng, model, pool, frame):
    """returns None when the contract holds, raises Viol / Skip otherwise"""
    S = C.ConBackend(rng, model, pool)
    run_case.S = S
    case = scn["fn"](S)
    for p in case.pre:
        S.assume(p)
    snaps = [(n, o, o.copy(deep=True) if hasattr(o, "equals") or isinstance(o, (xr.DataArray, xr.Dataset)) else copy.deepcopy(o)) for n, o in S.objs]
    plain = [(k, o, B.shape_of(o)) for k, o in list(enumerate(case.args)) + list(case.kwargs.items()) if isinstance(o, (list, dict, set))]
    out = None
    for cond, o in case.expect:
        if cond is None or bool(cond):
            out = o
            break
    exc = res = None
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            if case.call is not None:
                res = case.call(S, resolve)
            else:
                res = resolve(case.target)(*case.args, **case.kwargs)
            # force lazily evaluated results, so that deferred failures surface here
            for r in res if isinstance(res, (tuple, list)) else [res]:
                if isinstance(r, (xr.DataArray, xr.Dataset)):
                    r.load()
    except Viol:
        raise
    except C.Skip:
        raise
    except Exception as e:
        exc = e
    if frame:
        for n, o, s in snaps:
            if not same_obj(o, s):
                raise Viol(f"frame: {n} unchanged", "the caller's object was modified", frame is True)
        for k, o, s in plain:
            if not B.same_shape(o, s):
                raise Viol(f"frame: argument {k} unchanged", f"now {o!r}"[:200], frame is True)
        if frame is True:
            return
    if isinstance(out, B.Raises):
        if exc is None:
            raise Viol(f"must raise {'/'.join(out.types)}", f"returned {type(res).__name__}")
        if not {c.__name__ for c in type(exc).__mro__} & set(out.types):
            raise Viol(f"must raise {'/'.join(out.types)}", f"raised {type(exc).__name__}: {exc}"[:300])
        return
    if out is None:
        raise C.Skip()
    if exc is not None:
        tb = traceback.format_exception(exc)[-3:]
        raise Viol("must return a value", f"raised {type(exc).__name__}: {exc}; " + "".join(tb)[-500:])
    try:
        check_value(S, case, out, res, "result")
        for lab, fn in case.post or []:
            if not bool(fn(S, res)):
                raise Viol(lab, "")
    except (Viol, C.Skip, _TO):
        raise
    except Exception as e:
        raise Viol("result: comparable with the contract", f"{type(e).__name__}: {e}"[:300])


def harvest():
    """numeric literals of the current source, used as boundary values"""
    vals = set()
    src = os.path.join(REPO, "src", "momlevel")
    for d, _, fs in os.walk(src):
        if "test_data" in d:
            continue
        for f in fs:
            if f.endswith(".py"):
                try:
                    t = ast.parse(open(os.path.join(d, f), encoding="utf-8").read())
                except SyntaxError:
                    continue
                for n in ast.walk(t):
                    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                        if abs(n.value) < 1e7:
                            vals.add(float(n.value))
                            vals.add(-float(n.value))
    return sorted(vals)


def rng_of(seed, name, trial):
    h = hashlib.sha256(f"{seed}|{name}|{trial}".encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "big"))


class _TO(BaseException):
    pass


def _alarm(*a):
    raise _TO()


def run_scn(prop, name, trials, seed, model, pool, frame, limit_s, maxv=1):
    scn = B.SCN[prop][name]
    out = dict(name=name, trials=0, skipped=0, violations=[], errors=[], faithful=0)
    t0 = time.time()
    k = 0
    while out["trials"] < trials and k < trials * 4 and time.time() - t0 < limit_s:
        k += 1
        m = model if (model and k % 2 == 1) else None
        try:
            signal.alarm(60)
            run_case(scn, rng_of(seed, name, k), m, pool, frame)
            out["trials"] += 1
            if m and run_case.S.faithful:
                out["faithful"] += 1
        except C.Skip:
            out["skipped"] += 1
        except _TO:
            out["errors"].append("timeout")
            break
        except Viol as v:
            out["trials"] += 1
            out["violations"].append(dict(label=v.label, detail=str(v.detail)[:600], seed=seed, trial=k, model=m, frame=v.frame))
            if len(out["violations"]) >= maxv:
                break
        except Exception as e:
            out["errors"].append("".join(traceback.format_exception(e))[-800:])
            if len(out["errors"]) > 3:
                break
        finally:
            signal.alarm(0)
    out["wall_s"] = round(time.time() - t0, 2)
    return out


def main():
    signal.signal(signal.SIGALRM, _alarm)
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        if r["property"] == "C22":
            import check as CK

            CK.fill_frame()
        scn = B.SCN[r["property"]].get(r["scenario"]) or B.FINDINGS[r["property"]][r["scenario"]]
        try:
            run_case(scn, rng_of(r["seed"], r["scenario"], r["trial"]), r.get("model"), r.get("pool") or [], r.get("frame", False) or ("both" if r["property"] in META.WITH_FRAME else False))
            print("contract holds on this input")
            return 0
        except Viol as v:
            print(f"VIOLATED {v.label}: {v.detail}")
            return 1
    job = json.load(open(sys.argv[1]))
    import momlevel

    if not os.path.abspath(momlevel.__file__).startswith(os.path.abspath(REPO) + os.sep):
        print("wrong momlevel:", momlevel.__file__)
        return 3
    pool = harvest()
    res = []
    if job.get("frame") is True:
        import check as CK

        CK.fill_frame()
    for key in job.get("findings", []):
        B.SCN.setdefault(job["property"] + "!", {})[key] = B.FINDINGS[job["property"]][key]
        r = run_scn(job["property"] + "!", key, 1, job["seed"], None, pool, False, 60)
        r["finding"] = True
        r["pool"] = []
        res.append(r)
    for j in job["scenarios"]:
        res.append(run_scn(job["property"], j["name"], j["trials"], job["seed"], j.get("model"), pool, job.get("frame", False), j.get("limit_s", 60)))
        res[-1]["pool"] = pool if res[-1]["violations"] else []
    with open(job["out"], "w") as f:
        json.dump(res, f)
    return 0


if __name__ == "__main__":
    sys.exit(main())
