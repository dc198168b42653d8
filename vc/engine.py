"""Symbolic execution of the real code against its contract, path by path, and
generation/discharge of the proof obligations."""
import functools
import os
import re
import sys
import time
import traceback
from fractions import Fraction
import z3
from . import terms as K
from . import sym, snp, sxr, spd, prover as P, loader as L, libs
from .sym import Num, SymBool, DtVal, TdVal, Unsupported, PathAbort, num, tonum, tobool, sb
from . import symb
from .symb import SymBackend, Ax, Handle
from specs import base as B


class Ob:
    """one discharged / failed obligation"""

    __slots__ = ("label", "status", "backend", "model", "detail", "frame", "interp")

    def __init__(self, label, status, backend="", model=None, detail="", frame=False, interp=True):
        self.label, self.status, self.backend = label, status, backend
        self.model, self.detail, self.frame, self.interp = model, detail, frame, interp

    def js(self):
        return dict(label=self.label, status=self.status, backend=self.backend, detail=self.detail, frame=self.frame,
                    model=self.model, interp=self.interp)


MAXPATH = 64
HERE = os.path.dirname(os.path.abspath(__file__))


class Run:
    def __init__(self, scn, prop, timeout_ms=8000, budget_s=300, frame_only=False, contracts=None):
        self.use_contracts = prop not in ("C01", "C02") if contracts is None else contracts
        self.scn = scn
        self.prop = prop
        self.obs = []
        self.status = "ok"
        self.note = ""
        self.paths = 0
        self.t0 = time.time()
        self.budget = budget_s
        self.prover = P.Prover(timeout_ms=timeout_ms)
        self.inlined = {}
        self.reached_value = 0
        self.warn = []
        self.frame_only = frame_only
        self.contracts = {}
        self.controls = 0
        self.vacuous = 0

    def execute(self):
        try:
            self._execute()
            if not self.paths or self.vacuous == self.paths:
                self.status, self.note = "unsupported", "no feasible path"
        except Unsupported as e:
            self.status, self.note = "unsupported", str(e)[:400]
        except RecursionError:
            self.status, self.note = "unsupported", "recursion limit"
        except z3.Z3Exception as e:
            self.status, self.note = "unsupported", f"z3: {e}"[:300]
        except K_ERR as e:  # defect of the verifier itself: undecided
            self.status, self.note = "unsupported", "engine: " + "".join(traceback.format_exception(e))[-1500:]
        return self

    def _execute(self):
        ctx = sym.Ctx(self.prover)
        sym.set_ctx(ctx)
        loader = L.Loader(libs.shadows())
        if self.use_contracts:
            loader.hook = symb.hook
        todo = [[]]
        seen = 0
        while todo:
            script = todo.pop()
            seen += 1
            if seen > MAXPATH:
                raise Unsupported("too many paths")
            if time.time() - self.t0 > self.budget:
                raise Unsupported("time budget")
            K.reset_fresh()
            self.prover.inputs.__init__()
            ctx.reset(script)
            ctx.facts = []
            ctx.months_complete = False
            ctx.key_bounds = {"year": (1, 9999)}
            S = SymBackend(ctx)
            S.contracts = self.use_contracts
            case = self.scn["fn"](S)
            ctx.facts = list(S.pre)
            ctx.target = case.target
            ctx.months_complete = getattr(case, "months_complete", False) or getattr(S, "months_complete", False)
            if seen == 1:
                ok = self.prover.smt(ctx.facts, False)
                if ok.status == "unsat":
                    raise Unsupported("vacuous precondition")
            snap = Frame(S, case)
            res = exc = None
            aborted = False
            sym.RUNNING[0] = True
            try:
                if case.call is not None:
                    res = case.call(S, lambda q: resolve(loader, q))
                else:
                    f = resolve(loader, case.target)
                    res = f(*case.args, **case.kwargs)
            except PathAbort:
                aborted = True
            except Unsupported:
                raise
            except Exception as e:
                internal(e)
                exc = e
            finally:
                sym.RUNNING[0] = False
            # siblings
            for i in range(len(ctx.taken) - 1, len(script) - 1, -1):
                t, d, forced = ctx.taken[i]
                if not forced:
                    todo.append([x[1] for x in ctx.taken[:i]] + [not d])
            if aborted:
                continue
            self.paths += 1
            for k, v in ctx.used_contracts.items():
                self.contracts[k] = self.contracts.get(k, 0) + v
            ctx.used_contracts = {}
            for k, v in ctx.inlined.items():
                self.inlined[k] = self.inlined.get(k, 0) + v
            ctx.inlined = {}
            # reachability control: the path must be satisfiable, or its proofs are vacuous
            q = self.prover.smt(ctx.all_facts(), True)
            self.controls += 1
            if q.status == "unsat":
                self.vacuous += 1
                continue
            if not self.frame_only:
                self.check(S, ctx, case, res, exc)
            for lab, st in snap.compare(S, ctx):
                self.emit(S, ctx, ctx.all_facts(), st, "frame: " + lab, frame=True)

    # ---------------------------------------------------------------- obligations
    def emit(self, S, ctx, facts, goal, label, frame=False, extra=()):
        facts = list(facts) + list(extra)
        r = self.prover.prove(facts, goal)
        o = Ob(label, r.status, r.backend, frame=frame)
        if r.status == "refuted":
            o.interp = interpreted(facts + [goal])
            o.model = self.model(S, facts, goal, r)
            o.detail = K.show(goal, 9)[:700]
        elif r.status == "unknown":
            o.detail = f"{r.note}: " + K.show(goal, 9)[:700]
        self.obs.append(o)
        return r.status == "proved"

    def fail(self, S, ctx, facts, label, detail="", frame=False):
        """an obligation that is structurally false on this path: refuted iff the
        path is feasible"""
        r = self.prover.prove(facts, K.FALSE)
        if r.status == "proved":
            self.obs.append(Ob(label, "proved", r.backend, frame=frame))
            return
        o = Ob(label, r.status, r.backend, frame=frame, detail=detail)
        if r.status == "refuted":
            o.interp = interpreted(facts)
            o.model = self.model(S, facts, K.FALSE, r)
        self.obs.append(o)

    def model(self, S, facts, goal, r):
        """concrete input fragment from the counter-model, preferring small sizes"""
        best = r
        small = [K.le(info[1], K.num(max(3, info[2]))) for k, info in S.reg.items() if info[0] == "axis"]
        if small:
            m = self.prover.merge(facts, facts + [goal], 0)
            fs = [K.subst(f, m) for f in facts + [K.not_(goal)]] if m else facts + [K.not_(goal)]
            q = self.prover.smt(fs + small, True)
            if q.status == "sat":
                best = q
        if best.model is None:
            return None
        try:
            return extract(S, best.model, best.zz)
        except Exception as e:
            return {"error": str(e)}

    def check(self, S, ctx, case, res, exc):
        prev = []
        for cond, out in case.expect:
            if cond is None:
                g = K.TRUE
            else:
                g = tobool(cond)
                if g is None:
                    g = K.boolc(bool(cond))
            guard = K.and_(g, *[K.not_(p) for p in prev])
            prev.append(g)
            if guard is K.FALSE:
                continue
            facts = ctx.all_facts() + ([] if guard is K.TRUE else [guard])
            if guard is not K.TRUE and not self.prover.sat(ctx.all_facts(), guard):
                continue
            self.check_outcome(S, ctx, facts, case, out, res, exc)

    def check_outcome(self, S, ctx, facts, case, out, res, exc):
        if isinstance(out, B.Raises):
            if exc is None:
                self.fail(S, ctx, facts, f"must raise {'/'.join(out.types)}", "returned a value instead")
            else:
                names = {c.__name__ for c in type(exc).__mro__}
                if names & set(out.types):
                    self.obs.append(Ob(f"raises {type(exc).__name__}", "proved", "path"))
                else:
                    self.fail(S, ctx, facts, f"must raise {'/'.join(out.types)}", f"raised {type(exc).__name__}: {exc}")
            return
        if exc is not None:
            self.warn.append("".join(traceback.format_exception(exc))[-1200:])
            self.fail(S, ctx, facts, "must return a value", f"raised {type(exc).__name__}: {exc}"[:300])
            return
        self.reached_value += 1
        self.value(S, ctx, facts, out, res, "result")
        if case.lemmas is not None:
            for lab, fa, goal in case.lemmas(S):
                self.emit(S, ctx, facts + [tobool(x) for x in fa], tobool(goal), "lemma: " + lab)
        if case.post:
            for lab, fn in case.post:
                b = fn(S, res)
                t = tobool(b)
                if t is None:
                    t = K.boolc(bool(b))
                self.emit(S, ctx, facts, t, lab)

    def value(self, S, ctx, facts, out, res, lab):
        if isinstance(out, B.Anything):
            return
        if isinstance(out, B.Tup):
            if not isinstance(res, (tuple, list)) or len(res) != len(out.items):
                return self.fail(S, ctx, facts, f"{lab}: tuple of {len(out.items)}", f"got {type(res).__name__}")
            for i, (o, r) in enumerate(zip(out.items, res)):
                self.value(S, ctx, facts, o, r, f"{lab}[{i}]")
            return
        if isinstance(out, B.Py):
            ok = py_equal(res, out.value)
            if ok is True:
                self.obs.append(Ob(f"{lab}: value", "proved", "path"))
            elif ok is False:
                self.fail(S, ctx, facts, f"{lab}: value", f"expected {out.value!r}, got {res!r}"[:300])
            else:
                self.emit(S, ctx, facts, ok, f"{lab}: value")
            return
        if isinstance(out, B.Obj):
            q = getattr(res, "__vc_fn__", None)
            if q == out.target:
                self.obs.append(Ob(f"{lab}: {out.target}", "proved", "path"))
            else:
                self.fail(S, ctx, facts, f"{lab}: is {out.target}", f"got {q or res!r}"[:200])
            return
        if isinstance(out, B.DS):
            if not isinstance(res, sxr.Dataset):
                return self.fail(S, ctx, facts, f"{lab}: Dataset", f"got {type(res).__name__}")
            names = set(res.data_vars.keys()) if hasattr(res.data_vars, "keys") else set(res.data_vars)
            for n, o in out.vars.items():
                if n not in names and n not in res._vars:
                    self.fail(S, ctx, facts, f"{lab}: has variable {n}", f"variables {sorted(names)}")
                else:
                    self.value(S, ctx, facts, o, res[n], f"{lab}.{n}")
            if out.exact:
                extra = names - set(out.vars)
                if extra:
                    self.fail(S, ctx, facts, f"{lab}: exactly the variables {sorted(out.vars)}", f"extra {sorted(extra)}")
            if out.order is not None:
                got = [n for n in res._vars if n not in res._coord_names()]
                self.plain(S, ctx, facts, got == list(out.order), f"{lab}: order of the variables", f"expected {out.order} got {got}")
            if out.encoding is not None:
                self.plain(S, ctx, facts, dict(res.encoding) == out.encoding, f"{lab}: encoding", f"expected {out.encoding} got {dict(res.encoding)}")
            self.attrs(S, ctx, facts, res.attrs, out.attrs, lab)
            return
        if isinstance(out, B.Table):
            return self.table(S, ctx, facts, out, res, lab)
        if isinstance(out, B.Fam):
            return self.family(S, ctx, facts, out, res, lab)
        assert isinstance(out, B.Arr), out
        self.array(S, ctx, facts, out, res, lab)

    def rows(self, S, ctx, facts, got, want, lab):
        """the same rows of the same base, in order; returns a generic row and its facts"""
        w = want.axis
        if got is not w and not (got.member is None and w.member is None and got.size is w.size):
            if not self.emit(S, ctx, facts, K.eq(got.size, w.size), f"{lab}: base rows"):
                return None
            v = K.fresh("m", "I")
            fa = facts + [K.ge(v, K.num(0)), K.lt(v, w.size)]
            if not self.emit(S, ctx, fa, K.iff(got.inside(v), w.inside(v)), f"{lab}: rows kept"):
                return None
        else:
            self.obs.append(Ob(f"{lab}: rows kept", "proved", "path"))
        v = K.fresh("row", "I")
        g = w.guard(v)
        return v, facts + [g], g

    def generic(self, ctx, g, fn):
        n0 = len(ctx.path)
        ctx.path.append(g)
        try:
            return fn()
        finally:
            del ctx.path[n0:]

    def table(self, S, ctx, facts, out, res, lab):
        if not isinstance(res, spd.DataFrame):
            return self.fail(S, ctx, facts, f"{lab}: DataFrame", f"got {type(res).__name__}")
        r = self.rows(S, ctx, facts, res._axis, out.rows, lab)
        if r is None:
            return
        v, fa, g = r
        names = list(res.columns)
        if out.exact is not None:
            if sorted(names) == sorted(out.exact):
                self.obs.append(Ob(f"{lab}: columns", "proved", "path"))
            else:
                self.fail(S, ctx, facts, f"{lab}: columns {sorted(out.exact)}", f"got {sorted(names)}")
        for n in out.no_cols:
            if n in names:
                self.fail(S, ctx, facts, f"{lab}: no column {n}", "present")
        if out.index is not None:
            e, x = self.generic(ctx, g, lambda: (out.index(Num(v)), res._index(v)))
            self.elem(S, ctx, fa, e, x, f"{lab}: row label")
        for n, f in out.cols.items():
            if names.count(n) != 1:
                self.fail(S, ctx, facts, f"{lab}: column {n}", f"columns {names}")
                continue
            e, x = self.generic(ctx, g, lambda: (f(Num(v)), dict(map(tuple, res._cols))[n](v)))
            self.elem(S, ctx, fa, e, x, f"{lab}: column {n}")

    def family(self, S, ctx, facts, out, res, lab):
        if not isinstance(res, sxr.Dataset):
            return self.fail(S, ctx, facts, f"{lab}: Dataset", f"got {type(res).__name__}")
        fam = res.__dict__.get("_vars")
        if not isinstance(fam, sxr._FamVars):
            raise Unsupported("Dataset of symbolic size expected")
        r = self.rows(S, ctx, facts, fam.axis, out.rows, lab)
        if r is None:
            return
        v, fa, g = r
        e, x, arr, da = self.generic(ctx, g, lambda: (out.name(Num(v)), fam.key(v), out.arr(Num(v)), fam.val(v)))
        self.elem(S, ctx, fa, e, x, f"{lab}: variable name")
        self.generic(ctx, g, lambda: self.array(S, ctx, fa, arr, da, f"{lab}: variable"))

    def attrs(self, S, ctx, facts, got, want, lab):
        for k, v in want.items():
            if k not in got:
                self.fail(S, ctx, facts, f"{lab}: attribute {k}", f"missing; attributes {sorted(got)}")
                continue
            ok = (v is B.ANY or v.ok(got[k])) if v is B.ANY or isinstance(v, B.Words) else py_equal(got[k], v)
            if ok is True:
                self.obs.append(Ob(f"{lab}: attribute {k}", "proved", "path"))
            elif ok is False:
                self.fail(S, ctx, facts, f"{lab}: attribute {k}", f"expected {v!r} got {got[k]!r}"[:300])
            else:
                self.emit(S, ctx, facts, ok, f"{lab}: attribute {k}")

    def plain(self, S, ctx, facts, ok, lab, msg):
        if ok:
            self.obs.append(Ob(lab, "proved", "path"))
        else:
            self.fail(S, ctx, facts, lab, msg[:300])

    def array(self, S, ctx, facts, out, res, lab):
        names = [a.name for a in out.dims]
        if out.kind == "da" or (out.kind == "scalar" and isinstance(res, sxr.DataArray)):
            if not isinstance(res, sxr.DataArray):
                return self.fail(S, ctx, facts, f"{lab}: DataArray", f"got {type(res).__name__}")
            if set(res.dims) != set(names) or (out.ordered and list(res.dims) != names):
                return self.fail(S, ctx, facts, f"{lab}: dimensions {tuple(names)}", f"got {res.dims}")
            axes = [res.variable.axis(d) for d in names]
            at = res.variable.fn()
            get = lambda ix: at(dict(zip(names, ix)))
            self.obs.append(Ob(f"{lab}: dimensions", "proved", "path"))
            if out.name is not B.ANY:
                if res.name == out.name:
                    self.obs.append(Ob(f"{lab}: name", "proved", "path"))
                else:
                    self.fail(S, ctx, facts, f"{lab}: name {out.name!r}", f"got {res.name!r}")
            self.attrs(S, ctx, facts, res.attrs, out.attrs, lab)
            if out.encoding is not None:
                got = dict(res.encoding)
                self.plain(S, ctx, facts, got == out.encoding, f"{lab}: encoding", f"expected {out.encoding} got {got}")
            if out.dtype is not None:
                if str(res.dtype) == out.dtype:
                    self.obs.append(Ob(f"{lab}: element type", "proved", "path"))
                else:
                    self.fail(S, ctx, facts, f"{lab}: element type {out.dtype}", f"got {res.dtype}")
            if out.exact_attrs is not None and set(res.attrs) != set(out.exact_attrs):
                self.fail(S, ctx, facts, f"{lab}: attribute names {sorted(out.exact_attrs)}", f"got {sorted(res.attrs)}")
            for c, h in out.coords.items():
                if c not in res._coord_names():
                    self.fail(S, ctx, facts, f"{lab}: coordinate {c}", f"missing; has {sorted(res._coord_names())}")
                    continue
                cv = res._coord_var(c)
                if isinstance(h, B.Arr):
                    self.array(S, ctx, facts, h, sxr.DataArray._mk(cv, {}, c), f"{lab}.{c}")
                else:
                    self.array(S, ctx, facts, B.Arr(h.dims, h.__call__), sxr.DataArray._mk(cv, {}, c), f"{lab}.{c}")
            for c, want in out.labels.items():
                got = None
                if c in res._coord_names():
                    cv = res._coord_var(c)
                    if tuple(cv.dims) == (c,) and cv.nd.axes[0].const == len(want):
                        got = [cv.nd.elem([K.num(i)]) for i in range(len(want))]
                if got == list(want):
                    self.obs.append(Ob(f"{lab}: labels along {c}", "proved", "path"))
                else:
                    self.fail(S, ctx, facts, f"{lab}: labels along {c}", f"expected {want} got {got}"[:300])
            for c in out.no_coords:
                if c in res._coord_names():
                    self.fail(S, ctx, facts, f"{lab}: no coordinate {c}", "present")
        elif out.kind == "np":
            if isinstance(res, Num) or (not isinstance(res, snp.NdArray) and tonum(res) is not None):
                res = snp._nd(num(res)) if names == [] else res
            if not isinstance(res, snp.NdArray):
                return self.fail(S, ctx, facts, f"{lab}: ndarray", f"got {type(res).__name__}")
            if len(res.axes) != len(names):
                return self.fail(S, ctx, facts, f"{lab}: {len(names)}-d", f"got {len(res.axes)}-d")
            axes = list(res.axes)
            g = res.snap()
            get = lambda ix: g(list(ix))
        else:
            if isinstance(res, snp.NdArray) and not res.axes:
                res = res.elem([])
            if isinstance(res, (Num, int, float, SymBool, bool, DtVal, TdVal)):
                axes = []
                get = lambda ix: res
            else:
                return self.fail(S, ctx, facts, f"{lab}: scalar", f"got {type(res).__name__}")
        ix = []
        gd = []
        for nm, ax, want in zip(names, axes, out.dims):
            w = want.axis
            if ax is not w and not (ax.member is None and w.member is None and ax.size is w.size):
                if ax.member is None and w.member is None:
                    if not self.emit(S, ctx, facts, K.eq(ax.size, w.size), f"{lab}: length of {nm}"):
                        return
                else:
                    # subsets of the same base: membership must agree
                    v = K.fresh("m", "I")
                    fa = facts + [K.ge(v, K.num(0)), K.lt(v, w.size)]
                    if not self.emit(S, ctx, facts, K.eq(ax.size, w.size), f"{lab}: base length of {nm}"):
                        return
                    if not self.emit(S, ctx, fa, K.iff(ax.inside(v), w.inside(v)), f"{lab}: members of {nm}"):
                        return
            v = K.fresh("i_" + nm, "I")
            ix.append(v)
            gd.append(w.guard(v))
        fa = facts + [g for g in gd if g is not K.TRUE]
        n0 = len(ctx.path)
        ctx.path.extend(gd)
        try:
            e = out.fn(*[Num(v) for v in ix])
            r = get(ix)
        finally:
            del ctx.path[n0:]
        self.elem(S, ctx, fa, e, r, lab)

    def elem(self, S, ctx, facts, e, r, lab):
        if isinstance(e, B.Either):
            r = num(r)
            ch = [t for t in K.subterms([r.t, r.nan]) if t.op == "app" and t.args[0] == "choice" and not t.fv]
            if len(ch) == 1:
                # a callee's contract offers two values: each in turn
                for k in (0, 1):
                    m = {ch[0]: K.num(k)}
                    self.elem(S, ctx, facts, e, Num(K.subst(r.t, m), K.subst(r.nan, m)), f"{lab}: callee's value {k + 1}")
                return
            alts = []
            for v in e.vals:
                v = num(v)
                alts.append(K.and_(K.iff(v.nan, r.nan), K.or_(v.nan, K.eq(K.toreal(v.t), K.toreal(r.t)))))
                # one of them throughout
                if self.prover.prove(facts, K.iff(v.nan, r.nan), quick=True).status == "proved":
                    q = self.prover.prove(facts + [K.not_(v.nan), K.not_(r.nan)], K.eq(K.toreal(v.t), K.toreal(r.t)), quick=True)
                    if q.status == "proved":
                        self.obs.append(Ob(f"{lab}: element value", "proved", q.backend))
                        return
            self.emit(S, ctx, facts, K.or_(*alts), f"{lab}: element value")
            return
        if isinstance(e, DtVal) or isinstance(r, DtVal):
            if not (isinstance(e, DtVal) and isinstance(r, DtVal)) or e.cal != r.cal:
                return self.fail(S, ctx, facts, f"{lab}: date value", f"{e!r} vs {r!r}"[:200])
            self.emit(S, ctx, facts, K.eq(e.t, r.t), f"{lab}: date value")
            return
        if isinstance(e, (bool, SymBool)) or isinstance(r, (bool, SymBool)):
            te, tr = tobool(e), tobool(r)
            if te is None or tr is None:
                en, rn = tonum(e), tonum(r)
                if en is None or rn is None:
                    return self.fail(S, ctx, facts, f"{lab}: boolean element", f"{e!r} {r!r}"[:200])
                self.emit(S, ctx, facts, K.eq(en.t, rn.t), f"{lab}: element")
                return
            self.emit(S, ctx, facts, K.iff(te, tr), f"{lab}: element")
            return
        if isinstance(e, tuple) or isinstance(r, tuple):
            if not (isinstance(e, tuple) and isinstance(r, tuple)) or len(e) != len(r):
                return self.fail(S, ctx, facts, f"{lab}: tuple element", f"{e!r} vs {r!r}"[:200])
            for i, (x, y) in enumerate(zip(e, r)):
                self.elem(S, ctx, facts, x, y, f"{lab}[{i}]")
            return
        if isinstance(e, str) and isinstance(r, str) and e != r:
            te, tr = sym.TOK.findall(e), sym.TOK.findall(r)
            if te and len(te) == len(tr) and sym.TOK.sub("#", e) == sym.TOK.sub("#", r):
                for a, b in zip(te, tr):
                    if a[1] != b[1]:
                        break
                    self.elem(S, ctx, facts, sym.token_value(a[0]), sym.token_value(b[0]), f"{lab}: text")
                else:
                    return
        if isinstance(e, str) or isinstance(r, str):
            if e == r:
                self.obs.append(Ob(f"{lab}: element", "proved", "path"))
            else:
                self.fail(S, ctx, facts, f"{lab}: element", f"{e!r} vs {r!r}")
            return
        e, r = num(e), num(r)
        self.emit(S, ctx, facts, K.iff(e.nan, r.nan), f"{lab}: missing where the contract says missing")
        ok = self.emit(S, ctx, facts + [K.not_(e.nan), K.not_(r.nan)] if (e.nan is not K.FALSE or r.nan is not K.FALSE) else facts,
                       K.eq(K.toreal(e.t), K.toreal(r.t)), f"{lab}: element value")
        if ok:
            self.defined(S, ctx, facts, e, r, lab)

    def defined(self, S, ctx, facts, e, r, lab):
        """the code divides by nothing that can vanish unless the contract divides by it too"""
        want = [t.args[0] for t in K.subterms([e.t, e.nan]) if t.op == "inv"] + [
            t.args[1] for t in K.subterms([e.t]) if t.op == "app" and t.args[0] == "log"]
        got = [t.args[0] for t in K.subterms([r.t, r.nan]) if t.op == "inv"]
        new = [b for b in got if b not in want and not b.fv]
        if not new:
            return
        nz = [K.not_(K.eq(b, K.num(0, b.sort))) for b in want if not b.fv]
        for b in new:
            g = K.not_(K.eq(b, K.num(0, b.sort)))
            # product of contract denominators?
            if P.numer_key(b) is not None and P.numer_key(b) in {P.numer_key(w) for w in want}:
                continue
            rr = self.prover.prove(facts + nz + [K.not_(e.nan)], g, quick=True)
            self.obs.append(Ob(f"{lab}: divisor non-zero", "proved" if rr.status == "proved" else "undef", rr.backend,
                               detail=K.show(b, 5)[:200]))


K_ERR = (AssertionError, TypeError, KeyError, IndexError, AttributeError, ValueError, ZeroDivisionError)


def resolve(loader, q):
    mod, _, attr = q.partition(":")
    m = loader.load(mod)
    o = m
    for a in attr.split("."):
        o = getattr(o, a)
    return o


def py_equal(a, b):
    if isinstance(a, (Num, SymBool)) or isinstance(b, (Num, SymBool)):
        x, y = tonum(a), tonum(b)
        if x is None or y is None:
            return False
        return K.and_(K.iff(x.nan, y.nan), K.eq(K.toreal(x.t), K.toreal(y.t)))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        rs = [py_equal(x, y) for x, y in zip(a, b)]
        if any(r is False for r in rs):
            return False
        ts = [r for r in rs if r is not True]
        return K.and_(*ts) if ts else True
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    try:
        return bool(a == b)
    except Unsupported:
        raise
    except Exception:
        return False


OPAQUE_APPS = ("sqrt", "log", "pow", "exp", "arctan", "arctan2", "sin", "cos")


def internal(e):
    """an exception that the verifier's own code ran into (rather than raised on
    behalf of a modelled library) decides nothing"""
    tb = traceback.extract_tb(e.__traceback__)
    if not tb:
        return
    fr = tb[-1]
    if os.path.abspath(fr.filename).startswith(HERE + os.sep) and not (fr.line or "").lstrip().startswith(("raise ", "raise\n")):
        raise Unsupported("engine: " + "".join(traceback.format_exception(e))[-900:])
    if isinstance(e, (TypeError, AttributeError)) and set(re.findall(r"'(\w+)'", str(e))) & standins():
        # an operation the stand-in of the library does not have; where the library has not either, the run on the real libraries tells
        raise Unsupported(f"{type(e).__name__}: {e}")


@functools.lru_cache(None)
def standins():
    return {n for m in list(sys.modules.values()) if getattr(m, "__file__", None) and os.path.abspath(m.__file__).startswith(HERE + os.sep) for n, c in vars(m).items() if isinstance(c, type) and c.__module__ == m.__name__}


def interpreted(ts):
    """no aggregates and no opaque functions: a z3 counter-model is a real one"""
    for t in K.subterms(ts):
        if t.op == "agg":
            return False
        if t.op == "app" and len(t.args) > 1:
            f = t.args[0]
            if not f.startswith(("v_", "nan_")):
                return False
    return True


class Frame:
    """snapshot of every input object for the frame obligations"""

    def __init__(self, S, case=None):
        self.s = [(n, o, self.snap(o)) for n, o in S.objs]
        args = list(enumerate(case.args)) + list(case.kwargs.items()) if case is not None else []
        self.plain = [(f"argument {k}", o, B.shape_of(o)) for k, o in args if isinstance(o, (list, dict, set))]

    def snapvar(self, v):
        return (v, v.dims, v.nd, v.nd._elem, v.nd.axes, dict(v._attrs), v.nd.snap(), tuple(v.nd.axes), dict(v.encoding))

    def snap(self, o):
        if isinstance(o, snp.NdArray):
            return ("np", o._elem, o.snap(), tuple(o.axes))
        if isinstance(o, sxr.DataArray):
            return ("da", o.name, self.snapvar(o.variable), {k: self.snapvar(v) for k, v in o._coords.items()})
        if isinstance(o, spd.DataFrame):
            return ("df", [tuple(c) for c in o._cols], o._axis, o._index, o._inames, dict(o._at))
        if isinstance(o, sxr.Dataset):
            return ("ds", {k: self.snapvar(v) for k, v in o._vars.items()}, set(o._coord_names()), dict(o.attrs), dict(o.encoding))
        return None

    def compare(self, S, ctx):
        out = [(f"{n} unchanged", K.boolc(B.same_shape(o, s))) for n, o, s in self.plain]
        for n, o, s in self.s:
            if s is None:
                continue
            if s[0] == "df":
                out.append((f"{n} rows and labels unchanged", K.boolc(o._axis is s[2] and o._index is s[3] and o._inames == s[4] and dict(o._at) == s[5])))
                out.append((f"{n} columns unchanged", K.boolc([tuple(c) for c in o._cols] == s[1])))
            elif s[0] == "np":
                out.append((f"{n} data unchanged", self.data(o, s[1], s[2], s[3])))
            elif s[0] == "da":
                out.append((f"{n} name unchanged", K.boolc(o.name == s[1])))
                out += self.var(n, o.variable, s[2])
                out.append((f"{n} coordinates unchanged", K.boolc(set(o._coords) == set(s[3]))))
                for k, v in o._coords.items():
                    if k in s[3]:
                        out += self.var(f"{n}.{k}", v, s[3][k])
            else:
                out.append((f"{n} variables unchanged", K.boolc(set(o._vars) == set(s[1]) and set(o._coord_names()) == s[2])))
                out.append((f"{n} attributes unchanged", K.boolc(dict(o.attrs) == s[3])))
                out.append((f"{n} encoding unchanged", K.boolc(dict(o.encoding) == s[4])))
                for k, v in o._vars.items():
                    if k in s[1]:
                        out += self.var(f"{n}.{k}", v, s[1][k])
        return out

    def var(self, n, v, s):
        r = [(f"{n} dimensions unchanged", K.boolc(v.dims == s[1])), (f"{n} attributes unchanged", K.boolc(dict(v._attrs) == s[5])),
             (f"{n} encoding unchanged", K.boolc(dict(v.encoding) == s[8]))]
        # both the array object the input was built on and the one it now holds
        r.append((f"{n} data unchanged", self.data(v.nd, s[3], s[6], s[7]) if v.dims == s[1] else K.FALSE))
        if s[2] is not v.nd:
            r.append((f"{n} buffer unchanged", self.data(s[2], s[3], s[6], s[7])))
        return r

    def data(self, nd, el, f, axes):
        if nd._elem is el and tuple(nd.axes) == tuple(axes):
            return K.TRUE
        if len(nd.axes) != len(axes):
            return K.FALSE
        vs = [K.fresh("f", "I") for _ in axes]
        a, b = nd.elem(vs), f(vs)
        g = K.and_(*[x.guard(v) for x, v in zip(axes, vs)])
        if isinstance(a, DtVal):
            return K.implies(g, K.eq(a.t, b.t)) if isinstance(b, DtVal) else K.FALSE
        if isinstance(a, (bool, SymBool)):
            return K.implies(g, K.iff(tobool(a), tobool(b)))
        a, b = num(a), num(b)
        return K.implies(g, K.and_(K.iff(a.nan, b.nan), K.or_(a.nan, K.eq(K.toreal(a.t), K.toreal(b.t)))))


# ------------------------------------------------------------------ counter-models
def _zval(model, e):
    v = model.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(12)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise ValueError(str(v))


def extract(S, model, zz):
    out = {"sizes": {}, "cells": {}, "nans": {}, "scalars": {}}
    for k, info in S.reg.items():
        if info[0] == "axis":
            out["sizes"][k] = _zval(model, z3.Const(k, z3.IntSort()))
        elif info[0] == "scalar":
            out["scalars"][k] = _zval(model, z3.Const(k, z3.IntSort() if info[1].sort == "I" else z3.RealSort()))
    for t, e in zz.memo.items():
        if t.op == "app" and t.args[0] in S.reg:
            kind = S.reg[t.args[0]][0]
            try:
                ix = [_zval(model, zz.memo[a]) for a in t.args[1:]]
                v = _zval(model, e)
            except Exception:
                continue
            key = {"arr": "cells", "nan": "nans"}.get(kind)
            if key:
                out[key].setdefault(S.reg[t.args[0]][1], []).append([ix, v])
    return out
