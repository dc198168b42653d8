"""Loads the real source of momlevel from the working tree for symbolic execution.

The text that is verified is the repository's own: each module is parsed and
executed after these mechanical, meaning-preserving rewrites (nothing is dropped):
  * float literals become exact decimal rationals
  * `/ // % **` go through helpers (exact rationals on Python ints)
  * `is`, conditional expressions, comprehensions, list/dict displays and `for`
    loops go through helpers that also accept symbolic values/sequences
  * builtins and third-party imports resolve to symbolic counterparts
    (the assumed contracts on dependencies)
"""
import ast
import builtins
import os
import sys
import types
from fractions import Fraction
from . import terms as K
from . import sym
from .sym import Unsupported, Num, SymBool, RealLit, SymSeq, PList, PDict, DtVal, TdVal, tonum, num, ctx, Axis
from . import snp, sxr

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")


# ------------------------------------------------------------------ AST rewriting
def _call(fn, *args):
    return ast.Call(func=ast.Name(id=fn, ctx=ast.Load()), args=list(args), keywords=[])


class Rewriter(ast.NodeTransformer):
    def __init__(self, source):
        self.source = source
        self.func_stack = []

    def visit_Constant(self, node):
        if isinstance(node.value, float):
            seg = ast.get_source_segment(self.source, node)
            txt = (seg or repr(node.value)).replace("_", "")
            try:
                Fraction(txt)
            except (ValueError, ZeroDivisionError):
                txt = repr(node.value)
            return ast.copy_location(_call("__vc_real__", ast.Constant(txt)), node)
        if isinstance(node.value, complex):
            return ast.copy_location(_call("__vc_unsupported__", ast.Constant("complex literal")), node)
        return node

    def visit_JoinedStr(self, node):
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        nm = {ast.Div: "__vc_div__", ast.FloorDiv: "__vc_fdiv__", ast.Mod: "__vc_mod__", ast.Pow: "__vc_pow__"}.get(type(node.op))
        if nm:
            return ast.copy_location(_call(nm, node.left, node.right), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            r = _call("__vc_is__", node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.IsNot):
                r = _call("__vc_not__", r)
            return ast.copy_location(r, node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = _call("__vc_in__", node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.NotIn):
                r = _call("__vc_not__", r)
            return ast.copy_location(r, node)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        if any(isinstance(n, (ast.NamedExpr, ast.Yield, ast.Await)) for n in ast.walk(node)):
            return node
        return ast.copy_location(_call("__vc_ifexp__", node.test, _thunk(node.body), _thunk(node.orelse)), node)

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(_call("__vc_list__", node), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call("__vc_dict__", node), node)

    # comprehensions
    def _comp(self, node, helper, elts):
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async:
            return node
        g = node.generators[0]
        names = _flat_names(g.target)
        if names is None or any(isinstance(n, ast.NamedExpr) for n in ast.walk(node)):
            return node
        cond = None
        if g.ifs:
            cond = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs)
        args = [_call("__vc_thunkiter__", g.iter)]
        for e in elts(node):
            args.append(_lam(g.target, names, e))
        args.append(_lam(g.target, names, cond) if cond is not None else ast.Constant(None))
        return ast.copy_location(_call(helper, *args), node)

    def visit_ListComp(self, node):
        return self._comp(node, "__vc_listcomp__", lambda n: [n.elt])

    def visit_GeneratorExp(self, node):
        return self._comp(node, "__vc_genexp__", lambda n: [n.elt])

    def visit_SetComp(self, node):
        return self._comp(node, "__vc_setcomp__", lambda n: [n.elt])

    def visit_DictComp(self, node):
        return self._comp(node, "__vc_dictcomp__", lambda n: [n.key, n.value])

    # loops
    def visit_FunctionDef(self, node):
        self.func_stack.append(node)
        node.body = [self.visit(s) for s in node.body]
        node.args = self.visit(node.args)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
            a.annotation = None
        self.func_stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return ast.copy_location(ast.Pass(), node)
        return self.visit(ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node))

    def visit_For(self, node):
        carried = _carried(node, self.func_stack[-1] if self.func_stack else None)
        self.generic_visit(node)
        node.iter = ast.copy_location(_call("__vc_iter__", node.iter, ast.Constant(carried)), node.iter)
        return node


def _thunk(e):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)


def _flat_names(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Name) for x in t.elts):
        return [x.id for x in t.elts]
    return None


def _lam(target, names, body):
    args = [ast.arg(arg=n) for n in names]
    lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=args, kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
    if isinstance(target, ast.Name):
        return lam
    return _call("__vc_star__", lam, ast.Constant(len(names)))


def _carried(node, func):
    """names through which one iteration could influence another or the code after"""
    stores, out = [], set()
    bad = []
    inner = _scoped(node)
    for s in node.body:
        for n in ast.walk(s):
            if id(n) in inner:
                continue
            if isinstance(n, (ast.Break, ast.Continue, ast.Return, ast.Yield)):
                bad.append(type(n).__name__)
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                out.add(n.target.id)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stores.append(n.id)
    stores = set(stores)
    # order of evaluation: approximate by source position of loads before first store
    first_store, first_load = {}, {}
    for s in node.body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and id(n) not in inner:
                # value side of an assignment evaluates before its targets
                pos = (s.lineno, n.lineno, n.col_offset)
                if isinstance(n.ctx, ast.Store):
                    st = _enclosing_stmt(node, n)
                    p = (st.end_lineno or st.lineno, st.end_col_offset or 0)
                    first_store[n.id] = min(first_store.get(n.id, p), p)
                else:
                    p = (n.lineno, n.col_offset)
                    first_load[n.id] = min(first_load.get(n.id, p), p)
    for v in stores:
        if v in first_load and first_load[v] < first_store[v]:
            out.add(v)
    if func is not None:
        after = set(_flat_names(node.target) or []) | stores
        end = node.end_lineno
        stored_later = {}
        for n in ast.walk(func):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in after and n.lineno > end:
                # harmless when re-bound by a later loop/comprehension/assignment first
                if not _rebound(func, n, end):
                    out.add(n.id)
    if node.orelse:
        bad.append("else")
    return ",".join(sorted(out) + sorted(set("!" + b for b in bad)))


def _scoped(node):
    """ids of the Name nodes that belong to a comprehension's or a lambda's own scope"""
    inner = set()
    for s in node.body:
        for c in ast.walk(s):
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                bound = {n.id for g in c.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                outer = {id(n) for n in ast.walk(c.generators[0].iter)}
            elif isinstance(c, ast.Lambda):
                a = c.args
                bound = {x.arg for x in a.args + a.posonlyargs + a.kwonlyargs}
                outer = {id(n) for d in a.defaults + [k for k in a.kw_defaults if k] for n in ast.walk(d)}
            else:
                continue
            inner |= {id(n) for n in ast.walk(c) if isinstance(n, ast.Name) and n.id in bound and id(n) not in outer}
    return inner


def _enclosing_stmt(loop, name):
    best = None
    for st in ast.walk(loop):
        if isinstance(st, ast.stmt) and not isinstance(st, (ast.For, ast.If, ast.While, ast.With, ast.Try)):
            for n in ast.walk(st):
                if n is name:
                    best = st
    return best or loop.body[0]


def _rebound(func, load, end):
    """is the name bound again between the loop and this load (conservative)"""
    for n in ast.walk(func):
        if isinstance(n, ast.For) and n.lineno > end and n.lineno <= load.lineno <= (n.end_lineno or 0):
            if load.id in (_flat_names(n.target) or []):
                return True
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) and n.lineno > end:
            if n.lineno <= load.lineno <= (n.end_lineno or 0):
                for g in n.generators:
                    if load.id in (_flat_names(g.target) or []):
                        return True
    for s in func.body:
        if isinstance(s, ast.Assign) and s.lineno > end and s.end_lineno < load.lineno:
            for t in s.targets:
                if load.id in (_flat_names(t) or []):
                    return True
    return False


# ------------------------------------------------------------------ helpers used by rewritten code
def _conc(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def h_div(a, b):
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return RealLit(0.0, Fraction(a, b))
    if isinstance(a, Num) and _conc(b) and not b:
        if a.py:
            raise ZeroDivisionError("division by zero")
    return a / b


def h_fdiv(a, b):
    if _conc(a) and _conc(b):
        if isinstance(a, int) and isinstance(b, int):
            return a // b
        fa, fb = RealLit(a).frac, RealLit(b).frac
        if fb == 0:
            raise ZeroDivisionError
        return RealLit(0.0, Fraction(fa // fb))
    return a // b


def h_mod(a, b):
    if isinstance(a, str):
        return a % b
    if _conc(a) and _conc(b):
        if isinstance(a, int) and isinstance(b, int):
            return a % b
        fa, fb = RealLit(a).frac, RealLit(b).frac
        return RealLit(0.0, fa % fb)
    return a % b


def h_pow(a, b):
    if isinstance(a, (int, bool)) and isinstance(b, int) and b < 0:
        return RealLit(0.0, Fraction(a) ** b)
    if isinstance(a, int) and isinstance(b, RealLit):
        return RealLit(a) ** b
    if isinstance(b, (RealLit, float)) and isinstance(a, (float,)) and not isinstance(a, RealLit):
        return RealLit(a) ** b
    return a ** b


def h_is(a, b):
    if isinstance(a, SymBool) and isinstance(b, bool):
        if getattr(a, "np", False):
            return False
        return a if b else ~a
    if isinstance(b, SymBool) and isinstance(a, bool):
        return h_is(b, a)
    return a is b


def h_not(a):
    if isinstance(a, SymBool):
        return ~a
    return not a


def h_in(a, b):
    if isinstance(a, sym.SymStr) and isinstance(b, (dict, set, frozenset, list, tuple, type({}.keys()))):
        return a.among([x for x in b if isinstance(x, str)])
    if isinstance(b, (str, dict, set, frozenset)) or hasattr(b, "__vc_shadow__"):
        return a in b
    if isinstance(b, (list, tuple)) and isinstance(a, (Num,)):
        r = False
        for x in b:
            e = a == x
            if e is True:
                return True
            if e is False:
                continue
            r = e if r is False else (r | e)
        return r
    return a in b


def h_ifexp(test, a, b):
    if isinstance(test, SymBool):
        c = ctx()
        t = test.t
        if t is K.TRUE:
            return a()
        if t is K.FALSE:
            return b()
        if c.loops:
            af = c.all_facts()
            if not c.prover.sat(af, K.not_(t)):
                return a()
            if not c.prover.sat(af, t):
                return b()
            n = len(c.path)
            c.path.append(t)
            x = a()
            del c.path[n:]
            c.path.append(K.not_(t))
            y = b()
            del c.path[n:]
            return sym.v_ite(t, _lift(x), _lift(y))
    return a() if test else b()


def _lift(x):
    if isinstance(x, (bool, SymBool, DtVal, TdVal)):
        return x
    n = tonum(x)
    if n is None:
        raise Unsupported("conditional expression of non-scalars in a symbolic loop")
    return n


def h_star(f, n):
    def g(p):
        return f(*h_unpack(p, n))

    return g


def h_unpack(p, n):
    if isinstance(p, snp.NdArray):
        return [p[i] for i in range(n)]
    return p


def native(it):
    if isinstance(it, SymSeq):
        return iter(it)
    return iter(it)


def h_listcomp(it, f, cond):
    s = sym.seq_of(it)
    if s is not None:
        r = PList()
        r.sym = sym.sym_map(f, s, cond)
        return r
    out = PList()
    for x in native(it):
        if cond is None or cond(x):
            list.append(out, f(x))
    return out


def h_genexp(it, f, cond):
    return h_listcomp(it, f, cond)


def h_setcomp(it, f, cond):
    s = sym.seq_of(it)
    if s is not None:
        raise Unsupported("set comprehension over symbolic sequence")
    return set(f(x) for x in native(it) if cond is None or cond(x))


class SymDict:
    """dict with symbolically many entries (keys distinct by assumption of the iterated keys)"""

    __vc_shadow__ = True

    def __init__(self, keys, values=None, getter=None):
        self._k, self._v, self._get = keys, values, getter

    def items(self):
        k, v = self._k, self.values()
        return SymSeq(k.axis, lambda i: (k.item(i), v.item(i)), k.sorted, k.distinct)

    def __getitem__(self, key):
        if self._get is not None:
            return self._get(key)
        t = getattr(tonum(key), "t", None)
        for lp in reversed(ctx().loops):
            if lp.axis is self._k.axis and self._v is not None:
                q = tonum(self._k.item(lp.var))
                if t is not None and q is not None and q.t is t:
                    return self._v.item(lp.var)
        raise Unsupported("look-up in a dict with symbolically many entries")

    def get(self, key, default=None):
        raise Unsupported("look-up in a dict with symbolically many entries")

    pop = __setitem__ = __contains__ = update = setdefault = copy = lambda self, *a, **k: _uns("change of a dict with symbolically many entries")

    def keys(self):
        return self._k

    def __vc_seq__(self):
        return self._k

    def __iter__(self):
        return iter(self._k)

    def values(self):
        if self._v is None:
            raise Unsupported("values of symbolic dict")
        return self._v

    @property
    def sym_items(self):
        return (self._k, self._v)

    def __vc_len__(self):
        return self._k.axis.length()


def h_dictcomp(it, fk, fv, cond):
    s = sym.seq_of(it)
    if s is not None:
        if cond is not None:
            raise Unsupported("filtered dict comprehension")
        both = sym.sym_map(lambda x: (fk(x), fv(x)), s)
        return SymDict(SymSeq(both.axis, lambda i: both.item(i)[0]), SymSeq(both.axis, lambda i: both.item(i)[1]))
    out = PDict()
    for x in native(it):
        if cond is None or cond(x):
            dict.__setitem__(out, fk(x), fv(x))
    return out


def h_iter(it, carried):
    s = sym.seq_of(it)
    if s is None:
        yield from native(it)
        return
    if carried:
        raise Unsupported(f"loop-carried state {carried} in a loop over a symbolic sequence")
    lp = sym.begin_loop(s)
    x = s.item(lp.var)
    yield x
    sym.end_loop(lp)


# ------------------------------------------------------------------ builtins
class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return v_isinstance(x, cls)

    def __eq__(cls, o):
        return cls is o or o is cls._py

    def __hash__(cls):
        return hash(cls._py)

    def __subclasscheck__(cls, c):
        return issubclass(getattr(c, "_py", c), cls._py)


class v_float(metaclass=_TypeMeta):
    _py = float

    def __new__(cls, x=0):
        if isinstance(x, (Num, SymBool)):
            n = tonum(x)
            return Num(K.toreal(n.t), n.nan, True)
        if isinstance(x, str):
            if x.strip().lower().lstrip("+-") in ("nan", "inf", "infinity"):
                return float(x)
            return RealLit(x.strip()) if "⟦" not in x else _uns("float(symbolic string)")
        f = getattr(x, "__vc_tofloat__", None)
        if f is not None:
            return v_float(f())
        if hasattr(x, "__vc_scalar__"):
            return v_float(x.__vc_scalar__())
        if isinstance(x, float) and x != x:
            return x
        return RealLit(x)


class v_int(metaclass=_TypeMeta):
    _py = int

    def __new__(cls, x=0, *a):
        if isinstance(x, SymBool):
            return x.num()
        if isinstance(x, Num):
            if x.isint:
                return x
            return Num(snp.trunc_t(x.t), x.nan)
        f = getattr(x, "__vc_tofloat__", None)
        if f is not None:
            return v_int(f())
        if hasattr(x, "__vc_scalar__"):
            return v_int(x.__vc_scalar__())
        if isinstance(x, str) and sym.TOK.search(x):
            m = sym.TOK.fullmatch(x)
            if m:
                return v_int(sym.token_value(m.group(1)))
            raise Unsupported("int(symbolic string)")
        return int(x, *a)


class v_str(metaclass=_TypeMeta):
    _py = str

    def __new__(cls, x="", *a):
        if isinstance(x, Num):
            return x.__str__()
        if isinstance(x, SymBool):
            raise Unsupported("str(symbolic bool)")
        return x if isinstance(x, str) else str(x, *a)

    join = staticmethod(str.join)
    lower = staticmethod(str.lower)
    upper = staticmethod(str.upper)


class v_bool(metaclass=_TypeMeta):
    _py = bool

    def __new__(cls, x=False):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, sxr.DataArray) and not x.dims:
            v = x._scalar()
            if isinstance(v, (bool, SymBool)):
                return v
        return bool(x)


class v_list(metaclass=_TypeMeta):
    _py = list

    def __new__(cls, x=()):
        s = sym.seq_of(x)
        if s is not None:
            r = PList()
            r.sym = s
            return r
        return PList(native(x))


class v_tuple(metaclass=_TypeMeta):
    _py = tuple

    def __new__(cls, x=()):
        s = sym.seq_of(x)
        if s is not None:
            return s
        return tuple(native(x))


class v_dict(metaclass=_TypeMeta):
    _py = dict

    def __new__(cls, *a, **k):
        if len(a) == 1 and hasattr(a[0], "__vc_dictkeys__"):
            g = a[0]
            keys = g.__vc_dictkeys__()
            return SymDict(keys, SymSeq(keys.axis, lambda i: g[keys.item(i)]), lambda q: g[q])
        if len(a) == 1:
            x = a[0]
            s = sym.seq_of(x)
            if s is not None:
                if k:
                    raise Unsupported("dict of symbolic sequence")
                return SymDict(SymSeq(s.axis, lambda i: s.item(i)[0]), SymSeq(s.axis, lambda i: s.item(i)[1]))
            if hasattr(x, "__vc_rowdict__"):
                return PDict(x.__vc_rowdict__())
            if isinstance(x, dict):
                return PDict(x, **k)
            if hasattr(x, "keys"):
                return PDict({q: x[q] for q in x.keys()}, **k)
            return PDict([tuple(p) for p in x], **k)
        return PDict(*a, **k)

    fromkeys = staticmethod(lambda ks, v=None: PDict((k, v) for k in ks))


class v_set(metaclass=_TypeMeta):
    _py = set

    def __new__(cls, x=()):
        if sym.seq_of(x) is not None:
            raise Unsupported("set of symbolic sequence")
        return set(native(x))


_TYPES = {float: (float,), int: (int,)}


def v_isinstance(x, t):
    if isinstance(t, tuple):
        return any(v_isinstance(x, q) for q in t)
    py = t.__dict__.get("_py") if isinstance(t, type) else None
    if py is None and t in (float, int, str, bool, list, tuple, dict, set):
        py = t
    if py is float:
        if isinstance(x, Num):
            return not x.isint
        return builtins.isinstance(x, float)
    if py is int:
        if isinstance(x, Num):
            return x.isint and (x.py or True)
        return builtins.isinstance(x, int)
    if py is bool:
        return builtins.isinstance(x, (bool, SymBool))
    if py is list:
        return builtins.isinstance(x, list)
    if py is tuple:
        return builtins.isinstance(x, tuple) or (isinstance(x, SymSeq))
    if py is not None:
        return builtins.isinstance(x, py)
    f = getattr(t, "__vc_instance__", None)
    if f is not None:
        return f(x)
    if builtins.isinstance(t, _Opaque):
        return False
    if builtins.isinstance(t, type):
        if builtins.isinstance(x, (Num, SymBool)):
            import numbers

            if t in (numbers.Number, numbers.Real):
                return True
        return builtins.isinstance(x, t)
    raise Unsupported(f"isinstance against {t!r}")


def v_len(x):
    f = getattr(x, "__vc_len__", None)
    if f is not None:
        return f()
    return len(x)


def v_range(*a):
    if any(isinstance(x, Num) and x.const() is None for x in a):
        if len(a) == 1:
            return SymSeq(Axis(sym.idx(a[0])), lambda i: Num(i))
        if len(a) == 2:
            lo, hi = sym.idx(a[0]), sym.idx(a[1])
            return SymSeq(Axis(K.sub(hi, lo)), lambda i: Num(K.add(i, lo)))
        raise Unsupported("range with symbolic step")
    return range(*[int(x) if isinstance(x, Num) else x for x in a])


def v_zip(*its, **k):
    ss = [sym.seq_of(i) for i in its]
    if any(s is not None for s in ss):
        if not all(s is not None for s in ss):
            raise Unsupported("zip of symbolic and concrete sequences")
        for s in ss[1:]:
            if not sym.same_axis(ss[0].axis, s.axis):
                raise Unsupported("zip of sequences of different length")
        return SymSeq(ss[0].axis, lambda i: tuple(s.item(i) for s in ss))
    return list(zip(*[native(i) for i in its], **k))


def v_enumerate(it, start=0):
    s = sym.seq_of(it)
    if s is not None:
        if s.axis.member is not None:
            raise Unsupported("enumerate of filtered sequence")
        return SymSeq(s.axis, lambda i: (Num(K.add(i, K.num(start))), s.item(i)))
    return list(enumerate(native(it), start))


def v_map(f, *its):
    if len(its) == 1:
        return h_listcomp(its[0], f, None)
    return PList(f(*x) for x in v_zip(*its))


def v_filter(f, it):
    return h_listcomp(it, lambda x: x, (lambda x: f(x)) if f is not None else (lambda x: x))


def v_sorted(it, key=None, reverse=False):
    s = sym.seq_of(it)
    if s is not None:
        if s.sorted and key is not None and not reverse:
            x = s.item(K.fresh("it", "I"))
            q, l = tonum(key(x)), tonum(x[0] if isinstance(x, tuple) else x)
            if q is not None and l is not None and q.t is l.t:
                key = None
        if s.sorted and key is None and not reverse:
            r = PList()
            r.sym = s
            return r
        raise Unsupported("sorting a symbolic sequence")
    return PList(sorted(native(it), key=key, reverse=reverse))


def v_reversed(it):
    s = sym.seq_of(it)
    if s is not None:
        if s.axis.member is not None:
            raise Unsupported("reversed filtered")
        n = s.axis.size
        return SymSeq(s.axis, lambda i: s.item(K.sub(K.sub(n, K.num(1)), i)))
    return PList(list(native(it))[::-1])


def _minmax(op):
    def f(*a, key=None, default=None):
        if key is not None:
            raise Unsupported("min/max key")
        it = a[0] if len(a) == 1 else a
        s = sym.seq_of(it)
        if s is not None:
            return snp.red_ext("min" if op == "min" else "max", [s.axis], lambda ix: s.item(ix[0]), False)
        xs = list(native(it))
        if not any(isinstance(x, (Num, SymBool)) for x in xs):
            return (min if op == "min" else max)(xs)
        r = num(xs[0])
        for x in xs[1:]:
            x = num(x)
            if r.nan is not K.FALSE or x.nan is not K.FALSE:
                c = (x < r) if op == "min" else (x > r)
                r = sym.v_ite(sym.tobool_force(c), x, r)
            else:
                r = sym.n_min(r, x) if op == "min" else sym.n_max(r, x)
        return r

    return f


def v_abs(x):
    return abs(x)


def v_sum(it, start=0):
    s = sym.seq_of(it)
    if s is not None:
        p = s.item(K.fresh("s", "I"))
        if isinstance(p, sxr.DataArray):
            raise Unsupported("sum of symbolic list of arrays")
        return snp.red_sum([s.axis], lambda ix: num(s.item(ix[0])), False) + start
    r = start
    for x in native(it):
        r = r + x
    return r


def v_any(it):
    s = sym.seq_of(it)
    if s is not None:
        return snp.red_bool("any", [s.axis], lambda ix: s.item(ix[0]))
    r = False
    for x in native(it):
        if isinstance(x, SymBool):
            r = x if r is False else (r | x)
        elif x:
            return True
    return r


def v_all(it):
    s = sym.seq_of(it)
    if s is not None:
        return snp.red_bool("all", [s.axis], lambda ix: s.item(ix[0]))
    r = True
    for x in native(it):
        if isinstance(x, SymBool):
            r = x if r is True else (r & x)
        elif not x:
            return False
    return r


def v_print(*a, **k):
    ctx().prints.append(len(a))


def v_round(x, n=None):
    if isinstance(x, RealLit):
        return RealLit(round(float(x), n)) if n else int(round(x.frac))
    if isinstance(x, (int, float)):
        return round(x, n)
    raise Unsupported("round of symbolic value")


def v_getattr(o, k, *d):
    if d:
        try:
            return getattr(o, k)
        except (AttributeError, Unsupported):
            return d[0]
    return getattr(o, k)


def v_type(x, *a):
    if a:
        return type(x, *a)
    if isinstance(x, Num):
        return v_int if x.isint else v_float
    if isinstance(x, RealLit):
        return v_float
    if isinstance(x, (PList,)):
        return v_list
    if isinstance(x, PDict):
        return v_dict
    for c in (v_str, v_bool, v_int, v_tuple, v_set):
        if type(x) is c._py:
            return c
    return type(x)


def v_divmod(a, b):
    return (h_fdiv(a, b), h_mod(a, b))


def v_pow(a, b, *m):
    if m:
        raise Unsupported("3-argument pow")
    return h_pow(a, b)


def v_next(it, *d):
    if isinstance(it, PList):
        if it.sym is not None:
            raise Unsupported("next of symbolic")
        for x in it:
            return x
        if d:
            return d[0]
        raise StopIteration
    return next(it, *d)


def v_iter(it):
    if sym.seq_of(it) is not None:
        raise Unsupported("iter of symbolic sequence")
    return iter(it)


def _uns(msg):
    raise Unsupported(msg)


# ------------------------------------------------------------------ modules
class _Opaque:
    def __init__(self, name):
        self.__dict__["_n"] = name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return _Opaque(f"{self._n}.{k}")

    def __call__(self, *a, **k):
        raise Unsupported(self._n)


class Loader:
    """one symbolic instance of the repository's modules"""

    def __init__(self, shadows):
        self.shadows = shadows
        self.mods = {}
        self.funcs = {}
        self.hook = None
        self.bdict = self._builtins()

    def _builtins(self):
        b = dict(builtins.__dict__)
        b.update(
            __import__=self._import, isinstance=v_isinstance, len=v_len, range=v_range, float=v_float, int=v_int, str=v_str,
            bool=v_bool, list=v_list, tuple=v_tuple, dict=v_dict, set=v_set, zip=v_zip, enumerate=v_enumerate, map=v_map,
            filter=v_filter, sorted=v_sorted, reversed=v_reversed, min=_minmax("min"), max=_minmax("max"), abs=v_abs, sum=v_sum,
            any=v_any, all=v_all, print=v_print, round=v_round, getattr=v_getattr, type=v_type, divmod=v_divmod, pow=v_pow,
            next=v_next, iter=v_iter,
            open=lambda *a, **k: _uns("open"), exec=lambda *a, **k: _uns("exec"), eval=lambda *a, **k: _uns("eval"),
            input=lambda *a: _uns("input"), globals=lambda: _uns("globals"), locals=lambda: _uns("locals"), id=lambda x: _uns("id"), hash=lambda x: _uns("hash"),
            __vc_real__=RealLit, __vc_div__=h_div, __vc_fdiv__=h_fdiv, __vc_mod__=h_mod, __vc_pow__=h_pow, __vc_is__=h_is,
            __vc_not__=h_not, __vc_in__=h_in, __vc_ifexp__=h_ifexp, __vc_list__=PList, __vc_dict__=PDict, __vc_star__=h_star,
            __vc_listcomp__=h_listcomp, __vc_genexp__=h_genexp, __vc_setcomp__=h_setcomp, __vc_dictcomp__=h_dictcomp,
            __vc_iter__=h_iter, __vc_thunkiter__=lambda x: x, __vc_unsupported__=_uns,
        )
        return b

    def path_of(self, name):
        p = os.path.join(SRC, *name.split("."))
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            return (f, True) if os.path.exists(f) else (None, True)
        f = p + ".py"
        return (f, False) if os.path.exists(f) else (None, False)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
            if name in self.mods:
                return self.mods[name]
        f, pkg = self.path_of(name)
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.bdict
        m.__package__ = name if pkg else name.rpartition(".")[0]
        m.__file__ = f
        if pkg:
            m.__path__ = [os.path.dirname(f) if f else os.path.join(SRC, *name.split("."))]
        self.mods[name] = m
        if f is None and not pkg:
            del self.mods[name]
            raise ModuleNotFoundError(name)
        if f is not None:
            with open(f, encoding="utf-8") as fh:
                src = fh.read()
            tree = ast.parse(src, f)
            tree = Rewriter(src).visit(tree)
            ast.fix_missing_locations(tree)
            code = compile(tree, f, "exec")
            try:
                exec(code, m.__dict__)
            except Unsupported as e:
                m.__dict__["__vc_broken__"] = str(e)
                m.__getattr__ = lambda k, e=e, name=name: _broken(name, k, e)
            for k, v in list(m.__dict__.items()):
                if isinstance(v, types.FunctionType) and v.__module__ == name and v.__globals__ is m.__dict__:
                    self.funcs[f"{name}:{k}"] = v
                    m.__dict__[k] = self._wrap(f"{name}:{k}", v)
        if "." in name:
            p, _, c = name.rpartition(".")
            setattr(self.mods[p], c, m)
        return m

    def _wrap(self, q, f):
        loader = self

        def w(*a, **k):
            h = loader.hook
            if h is not None:
                r = h(q, f, a, k)
                if r is not NotImplemented:
                    return r
            c = sym.CTX
            if c is None:
                return f(*a, **k)
            c.inlined[q] = c.inlined.get(q, 0) + 1
            return f(*a, **k)

        w.__name__ = f.__name__
        w.__doc__ = f.__doc__
        w.__wrapped__ = f
        w.__dict__["__vc_fn__"] = q
        w.__module__ = f.__module__
        w.__defaults__ = None
        return w

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = globals["__package__"]
            for _ in range(level - 1):
                pk = pk.rpartition(".")[0]
            name = f"{pk}.{name}" if name else pk
        if name == "momlevel" or name.startswith("momlevel."):
            m = self.load(name)
            if not fromlist:
                return self.load(name.split(".")[0])
            for x in fromlist:
                if x != "*" and x not in m.__dict__:
                    f, pkg = self.path_of(f"{name}.{x}")
                    if f is not None or pkg:
                        self.load(f"{name}.{x}")
            return m
        if name in self.shadows:
            if not fromlist:
                return self.shadows[name.split(".")[0]]
            m = self.shadows[name]
            for x in fromlist:
                # submodules
                if f"{name}.{x}" in self.shadows and x not in getattr(m, "__dict__", {}):
                    m.__dict__[x] = self.shadows[f"{name}.{x}"]
            return m
        root = name.split(".")[0]
        if root in PASS:
            return builtins.__import__(name, {}, {}, fromlist or (), 0)
        return _Opaque(name)


PASS = {"re", "functools", "itertools", "operator", "typing", "collections", "string", "abc", "dataclasses", "enum", "__future__",
        "copy", "types", "fractions", "numbers", "contextlib", "inspect", "textwrap", "calendar_"}


def _broken(name, k, e):
    if k.startswith("__"):
        raise AttributeError(k)
    raise Unsupported(f"module {name} not loadable: {e}")
