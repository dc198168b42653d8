"""Symbolic scalars, path exploration and sequence/loop rules.

Code under verification runs natively; every scalar it computes with is a `Num`
(mathematical real/integer term plus an explicit not-a-number flag), every
undetermined branch condition is a `SymBool` whose truth test forks the path.
"""
import re
from fractions import Fraction
from . import terms as K


class Unsupported(BaseException):
    """the code left the supported subset (undecided, never an alarm)"""


class PathAbort(BaseException):
    """infeasible path"""


# ------------------------------------------------------------------ context
class Ctx:
    def __init__(self, prover, facts=()):
        self.prover = prover
        self.facts = list(facts)
        self.path = []
        self.script = []
        self.pos = 0
        self.taken = []
        self.loops = []
        self.loop_done = {}
        self.warnings = []
        self.prints = []
        self.forks = 0
        self.tokens = {}
        self.contracts = {}
        self.used_contracts = {}
        self.inlined = {}
        self.reads = set()
        self.requires = []
        self.depth = 0

    def all_facts(self):
        return self.facts + self.path

    def reset(self, script):
        self.path = []
        self.script = list(script)
        self.pos = 0
        self.taken = []
        self.loops = []
        self.warnings = []
        self.prints = []
        self.requires = []
        self.depth = 0

    def assume(self, t):
        if t is not K.TRUE:
            self.path.append(t)

    def decide(self, t):
        if t is K.TRUE:
            return True
        if t is K.FALSE:
            return False
        af = self.all_facts()
        if t in af:
            return True
        if K.not_(t) in af:
            return False
        if self.pos < len(self.script):
            d = self.script[self.pos]
            self.pos += 1
            self.taken.append((t, d, True))
            self._commit(t, d)
            return d
        can_t = self.prover.sat(af, t)
        can_f = self.prover.sat(af, K.not_(t))
        if not can_t and not can_f:
            raise PathAbort()
        if can_t and not can_f:
            d = True
            forced = True
        elif can_f and not can_t:
            d = False
            forced = True
        else:
            d = True
            forced = False
            self.forks += 1
            if self.forks > 400:
                raise Unsupported("too many forks")
        self.pos += 1
        self.script.append(d)
        self.taken.append((t, d, forced))
        self._commit(t, d)
        return d

    def _commit(self, t, d):
        c = t if d else K.not_(t)
        if self.loops:
            self.loops[-1].decisions.append(c)
        self.path.append(c)

    def entails(self, t):
        if t is K.TRUE:
            return True
        if t is K.FALSE:
            return False
        return bool(self.prover.prove(self.all_facts(), t, quick=True))


CTX = None


def set_ctx(c):
    global CTX
    CTX = c


def ctx():
    if CTX is None:
        raise Unsupported("no symbolic context")
    return CTX


# ------------------------------------------------------------------ exact literals
class RealLit(float):
    """a float literal of the source (or a constant computed from such literals),
    carrying its exact decimal value"""

    __slots__ = ("frac",)

    def __new__(cls, v, frac=None):
        if isinstance(v, str):
            o = float.__new__(cls, float(v))
            o.frac = Fraction(v)
            return o
        if frac is None:
            frac = getattr(v, "frac", None)
            if frac is None:
                frac = Fraction(v) if isinstance(v, int) else Fraction(repr(float(v)))
        o = float.__new__(cls, _ff(frac))
        o.frac = frac
        return o

    def _b(self, o, f, sw=False):
        if isinstance(o, bool) or not isinstance(o, (int, float)):
            return NotImplemented
        if isinstance(o, float) and not isinstance(o, RealLit):
            if o != o or o in (float("inf"), float("-inf")):
                raise Unsupported("non-finite python float")
            o = RealLit(o)
        of = o.frac if isinstance(o, RealLit) else Fraction(o)
        a, b = (of, self.frac) if sw else (self.frac, of)
        return RealLit(0.0, f(a, b))

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._b(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._b(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        return self._b(o, _fdiv)

    def __rtruediv__(self, o):
        return self._b(o, _fdiv, True)

    def __neg__(self):
        return RealLit(0.0, -self.frac)

    def __pos__(self):
        return self

    def __abs__(self):
        return RealLit(0.0, abs(self.frac))

    def __pow__(self, o):
        if isinstance(o, float) and not isinstance(o, RealLit):
            o = RealLit(o)
        if isinstance(o, RealLit) and o.frac.denominator == 1:
            o = int(o.frac)
        if isinstance(o, int):
            if o < 0 and self.frac == 0:
                raise ZeroDivisionError
            return RealLit(0.0, self.frac ** o)
        if isinstance(o, RealLit):
            return num(self) ** o
        return NotImplemented

    def __hash__(self):
        return float.__hash__(self)

    def __eq__(self, o):
        if isinstance(o, RealLit):
            return self.frac == o.frac
        return float.__eq__(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r


def _ff(f):
    try:
        return f.numerator / f.denominator
    except OverflowError:
        return float("inf")


def _fdiv(a, b):
    if b == 0:
        raise ZeroDivisionError("float division by zero")
    return a / b


# ------------------------------------------------------------------ symbolic booleans
class SymBool:
    __slots__ = ("t", "np")

    def __init__(self, t, np=False):
        self.t = t
        self.np = np

    def __bool__(self):
        return ctx().decide(self.t)

    def __and__(self, o):
        o = tobool(o)
        return NotImplemented if o is None else SymBool(K.and_(self.t, o))

    __rand__ = __and__

    def __or__(self, o):
        o = tobool(o)
        return NotImplemented if o is None else SymBool(K.or_(self.t, o))

    __ror__ = __or__

    def __xor__(self, o):
        o = tobool(o)
        return NotImplemented if o is None else SymBool(K.not_(K.iff(self.t, o)))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(K.not_(self.t))

    def __eq__(self, o):
        b = tobool(o)
        if b is not None:
            return SymBool(K.iff(self.t, b))
        if isinstance(o, (int, float, Num)):
            return self.num() == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else (not r)

    def __hash__(self):
        return hash(self.t)

    def num(self):
        return Num(K.ite(self.t, K.num(1), K.num(0)))

    def __add__(self, o):
        return self.num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self.num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self.num() - o

    def __rsub__(self, o):
        return o - self.num()

    def __truediv__(self, o):
        return self.num() / o

    def __int__(self):
        raise Unsupported("int(symbolic bool)")

    def all(self):
        return self

    any = all

    def item(self):
        return self

    @property
    def values(self):
        return self

    def __repr__(self):
        return f"SymBool({self.t})"


def tobool(o):
    if isinstance(o, SymBool):
        return o.t
    if isinstance(o, bool):
        return K.boolc(o)
    return None


def sb(t):
    if t is K.TRUE:
        return True
    if t is K.FALSE:
        return False
    return SymBool(t)


# ------------------------------------------------------------------ symbolic numbers
class Num:
    """symbolic scalar: term (sort R or I) and NaN flag"""

    __slots__ = ("t", "nan", "py")
    __array_priority__ = 1

    def __init__(self, t, nan=K.FALSE, py=False):
        self.t = t
        self.nan = nan
        self.py = py

    @property
    def isint(self):
        return self.t.sort == "I"

    # -- arithmetic
    def _bin(self, o, f, sw=False):
        if getattr(o, "__vc_shadow__", False):
            return NotImplemented
        o = tonum(o)
        if o is None:
            return NotImplemented
        a, b = (o, self) if sw else (self, o)
        return f(a, b)

    def __add__(self, o):
        return self._bin(o, n_add)

    def __radd__(self, o):
        return self._bin(o, n_add, True)

    def __sub__(self, o):
        return self._bin(o, n_sub)

    def __rsub__(self, o):
        return self._bin(o, n_sub, True)

    def __mul__(self, o):
        return self._bin(o, n_mul)

    def __rmul__(self, o):
        return self._bin(o, n_mul, True)

    def __truediv__(self, o):
        return self._bin(o, n_div)

    def __rtruediv__(self, o):
        return self._bin(o, n_div, True)

    def __floordiv__(self, o):
        return self._bin(o, n_floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, n_floordiv, True)

    def __mod__(self, o):
        return self._bin(o, n_mod)

    def __rmod__(self, o):
        return self._bin(o, n_mod, True)

    def __pow__(self, o):
        return self._bin(o, n_pow)

    def __rpow__(self, o):
        return self._bin(o, n_pow, True)

    def __neg__(self):
        return Num(K.neg(self.t), self.nan)

    def __pos__(self):
        return self

    def __abs__(self):
        return Num(K.abs_(self.t), self.nan)

    # -- comparison
    def _cmp(self, o, f):
        if getattr(o, "__vc_shadow__", False):
            return NotImplemented
        o = tonum(o)
        if o is None:
            return NotImplemented
        return sb(K.and_(K.not_(self.nan), K.not_(o.nan), f(self.t, o.t)))

    def __lt__(self, o):
        return self._cmp(o, K.lt)

    def __le__(self, o):
        return self._cmp(o, K.le)

    def __gt__(self, o):
        return self._cmp(o, K.gt)

    def __ge__(self, o):
        return self._cmp(o, K.ge)

    def __eq__(self, o):
        r = self._cmp(o, K.eq)
        if r is NotImplemented and getattr(o, "__vc_shadow__", False):
            return r
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, K.eq)
        if r is NotImplemented and getattr(o, "__vc_shadow__", False):
            return r
        if r is NotImplemented:
            return True
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        if K.isconst(self.t):
            return hash(self.t.args[0])
        return hash((self.t, self.nan))

    def __bool__(self):
        return ctx().decide(K.or_(self.nan, K.not_(K.eq(self.t, K.num(0, self.t.sort)))))

    def const(self):
        if K.isconst(self.t) and self.nan is K.FALSE:
            return self.t.args[0]
        return None

    def __index__(self):
        c = self.const()
        if c is not None and c.denominator == 1 and self.isint:
            return int(c)
        raise Unsupported(f"symbolic value used as a concrete index: {self.t}")

    def __int__(self):
        c = self.const()
        if c is not None:
            return int(c)
        raise Unsupported("int() of symbolic value")

    def __float__(self):
        c = self.const()
        if c is not None:
            return RealLit(0.0, Fraction(c))
        raise Unsupported("float() of symbolic value")

    def __round__(self, n=None):
        c = self.const()
        if c is not None:
            return round(RealLit(0.0, Fraction(c)), n)
        raise Unsupported("round() of symbolic value")

    # -- numpy-scalar-like interface
    shape = ()
    ndim = 0
    size = 1
    dims = ()

    @property
    def dtype(self):
        from .snp import DType

        return DType("int64" if self.isint else "float64")

    def item(self):
        return self

    def all(self, *a, **k):
        return self != 0

    any = all

    def sum(self, *a, **k):
        return self

    mean = min = max = sum

    def copy(self):
        return self

    @property
    def values(self):
        return self

    def astype(self, dt, **k):
        from .snp import cast_num

        return cast_num(self, dt)

    def conjugate(self):
        return self

    def is_integer(self):
        if self.isint:
            return True
        return sb(K.eq(K.toreal(K.floor(self.t)), self.t))

    # -- strings
    def __format__(self, spec):
        if spec not in ("", "s", "d"):
            m = re.fullmatch(r"0?(\d+)d?", spec)
            if m and spec.startswith("0"):
                return token(self, f"z{m.group(1)}")
            return token(self, "f" + spec)
        return token(self)

    def __str__(self):
        return token(self)

    def __repr__(self):
        return f"Num({self.t}{'' if self.nan is K.FALSE else ' nan:' + str(self.nan)})"


class TokStr(str):
    """string rendering of a symbolic number"""

    def zfill(self, n):
        m = TOK.fullmatch(self)
        if m and not m.group(2):
            return TokStr(f"⟦{m.group(1)}:z{n}⟧")
        return str.zfill(self, n)

    def rjust(self, n, c=" "):
        if c == "0":
            return self.zfill(n)
        raise Unsupported("rjust of symbolic string")


TOK = re.compile(r"⟦(\d+)(?::([^⟧]*))?⟧")


def token(n, fmt=None):
    c = n.const()
    if c is not None and fmt is None:
        return str(int(c)) if n.isint else str(RealLit(0.0, c))
    i = n.t.id if n.nan is K.FALSE else (n.t.id * 1000003 + n.nan.id)
    ctx().tokens[i] = n
    return TokStr(f"⟦{i}⟧" if fmt is None else f"⟦{i}:{fmt}⟧")


def token_value(i):
    return ctx().tokens[int(i)]


def num(x, py=False):
    n = tonum(x)
    if n is None:
        raise Unsupported(f"not a number: {type(x).__name__}")
    return n


def tonum(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, SymBool):
        return x.num()
    if isinstance(x, bool):
        return Num(K.num(int(x)))
    if isinstance(x, int):
        return Num(K.num(x))
    if isinstance(x, RealLit):
        return Num(K.num(x.frac, "R"))
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (float("inf"), float("-inf")):
            raise Unsupported("infinite constant")
        return Num(K.num(Fraction(repr(x)), "R"))
    if isinstance(x, Fraction):
        return Num(K.num(x, "R"))
    z = getattr(x, "__vc_scalar__", None)
    if z is not None:
        return z()
    return None


def n_add(a, b):
    return Num(K.add(a.t, b.t), K.or_(a.nan, b.nan))


def n_sub(a, b):
    return Num(K.sub(a.t, b.t), K.or_(a.nan, b.nan))


def n_mul(a, b):
    return Num(K.mul(a.t, b.t), K.or_(a.nan, b.nan))


def n_div(a, b):
    return Num(K.div(a.t, b.t), K.or_(a.nan, b.nan))


def n_floordiv(a, b):
    nan = K.or_(a.nan, b.nan)
    if a.isint and b.isint:
        if K.isconst(b.t) and K.cval(b.t) > 0:
            return Num(K.idiv(a.t, b.t), nan)
        if ctx().entails(K.gt(b.t, K.num(0))):
            return Num(K.idiv(a.t, b.t), nan)
        raise Unsupported("integer floor division by a symbolic/negative value")
    return Num(K.toreal(K.floor(K.div(a.t, b.t))), nan)


def n_mod(a, b):
    nan = K.or_(a.nan, b.nan)
    if a.isint and b.isint and K.isconst(b.t) and K.cval(b.t) > 0:
        return Num(K.imod(a.t, b.t), nan)
    if a.isint and b.isint and ctx().entails(K.gt(b.t, K.num(0))):
        zero = K.num(0)
        if ctx().entails(K.and_(K.ge(a.t, zero), K.lt(a.t, b.t))):
            return a
        if ctx().entails(K.and_(K.lt(a.t, zero), K.ge(K.add(a.t, b.t), zero))):
            return Num(K.add(a.t, b.t), nan)
        return Num(K.imod(a.t, b.t), nan)
    q = K.toreal(K.floor(K.div(a.t, b.t)))
    return Num(K.sub(K.toreal(a.t), K.mul(q, b.t)), nan)


def n_pow(a, b):
    nan = K.or_(a.nan, b.nan)
    if K.isconst(b.t):
        e = K.cval(b.t)
        if e.denominator == 1:
            e = int(e)
            if abs(e) > 40:
                raise Unsupported("large power")
            if e == 0:
                nan = K.FALSE
            base = a.t if (e >= 0 and not b.t.sort == "R") else K.toreal(a.t)
            return Num(K.powi(base, e), nan)
        if e == Fraction(1, 2):
            return n_sqrt(a)
    return Num(K.app("pow", (K.toreal(a.t), K.toreal(b.t)), "R"), nan)


def n_sqrt(a):
    t = K.toreal(a.t)
    return Num(K.app("sqrt", (t,), "R"), K.or_(a.nan, K.lt0(t)))


def n_log(a):
    t = K.toreal(a.t)
    return Num(log_term(t), K.or_(a.nan, K.lt0(t)))


def log_term(t):
    """log |t|, the logarithm of a product being the sum of the logarithms of its
    factors (negative arguments are missing values, zero is outside the contract)"""
    if t.op == "mul":
        return K.add(*[log_term(x) for x in t.args])
    if t.op == "inv":
        return K.neg(log_term(t.args[0]))
    if t.op == "toreal":
        return log_term(t.args[0])
    if t.op == "const" and t.args[0] != 0:
        q = abs(t.args[0])
        if q == 1:
            return K.num(0, "R")
        return K.app("log", (K.num(q, "R"),), "R")
    if t.op == "add":
        k, p = K.primitive(t)
        if k != 1 and k != 0:
            return K.add(log_term(K.num(k, "R")), K.app("log", (K.toreal(p),), "R"))
    return K.app("log", (K.toreal(t),), "R")


def n_app(f, *a):
    return Num(K.app(f, tuple(K.toreal(x.t) for x in a), "R"), K.or_(*[x.nan for x in a]))


def n_sin(a):
    t = K.toreal(a.t)
    # odd symmetry, so that sin(-x) and -sin(x) coincide
    c, neg = _signed(t)
    r = K.app("sin", (c,), "R")
    return Num(K.neg(r) if neg else r, a.nan)


def n_cos(a):
    c, _ = _signed(K.toreal(a.t))
    return Num(K.app("cos", (c,), "R"), a.nan)


def n_odd(f, a):
    c, neg = _signed(K.toreal(a.t))
    r = K.app(f, (c,), "R")
    return Num(K.neg(r) if neg else r, a.nan)


def _signed(t):
    """canonical sign: (|.|-canonical term, was negated)"""
    lead = t.args[0] if t.op == "add" else t
    c, _ = K._coef(lead)
    if c < 0:
        return K.neg(t), True
    return t, False


def n_min(a, b):
    """NaN-propagating minimum"""
    return Num(K.min_(a.t, b.t), K.or_(a.nan, b.nan))


def n_max(a, b):
    return Num(K.max_(a.t, b.t), K.or_(a.nan, b.nan))


def n_fmin(a, b):
    return Num(
        K.ite(a.nan, b.t, K.ite(b.nan, a.t, K.min_(a.t, b.t))), K.and_(a.nan, b.nan)
    )


def n_fmax(a, b):
    return Num(
        K.ite(a.nan, b.t, K.ite(b.nan, a.t, K.max_(a.t, b.t))), K.and_(a.nan, b.nan)
    )


NAN = Num(K.num(0, "R"), K.TRUE)
PI = Num(K.PI)


def v_ite(c, a, b):
    """merge two values under a Bool term"""
    if c is K.TRUE:
        return a
    if c is K.FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return sb(K.ite(c, tobool(a), tobool(b)))
    if isinstance(a, DtVal) and isinstance(b, DtVal):
        if a.cal != b.cal:
            raise Unsupported("mixed calendars")
        return type(a)(K.ite(c, a.t, b.t), a.cal, K.ite(c, a.nan, b.nan))
    if isinstance(a, TdVal) and isinstance(b, TdVal):
        return TdVal(K.ite(c, a.t, b.t), K.ite(c, a.nan, b.nan))
    if isinstance(a, DtVal) or isinstance(b, DtVal) or isinstance(a, TdVal) or isinstance(b, TdVal):
        d, o, cc = (a, b, c) if isinstance(a, (DtVal, TdVal)) else (b, a, K.not_(c))
        if isinstance(o, Num) and o.nan is K.TRUE:
            return d.with_nan(K.or_(d.nan, K.not_(cc)))
        raise Unsupported("mixed datetime merge")
    x, y = tonum(a), tonum(b)
    if x is None or y is None:
        if type(a) is type(b) and a == b:
            return a
        raise Unsupported(f"cannot merge {type(a).__name__} and {type(b).__name__}")
    xt, yt = x.t, y.t
    # a NaN branch contributes no value: reuse the other branch's term
    if x.nan is K.TRUE:
        return Num(K.toreal(yt), K.or_(c, y.nan))
    if y.nan is K.TRUE:
        return Num(K.toreal(xt), K.or_(K.not_(c), x.nan))
    return Num(K.ite(c, xt, yt), K.ite(c, x.nan, y.nan))


def is_nan(v):
    """Bool term"""
    if isinstance(v, Num):
        return v.nan
    if isinstance(v, (DtVal, TdVal)):
        return v.nan
    if isinstance(v, float) and v != v:
        return K.TRUE
    return K.FALSE


# ------------------------------------------------------------------ calendar time
class DtVal:
    """a cftime datetime: real day number on a calendar"""

    __slots__ = ("t", "cal", "nan")

    def __init__(self, t, cal, nan=K.FALSE):
        self.t = t
        self.cal = cal
        self.nan = nan

    def with_nan(self, n):
        return type(self)(self.t, self.cal, n)

    @property
    def calendar(self):
        return self.cal

    def field(self, f):
        return Num(dt_field(f, self.t, self.cal), self.nan)

    year = property(lambda s: s.field("year"))
    month = property(lambda s: s.field("month"))
    day = property(lambda s: s.field("day"))
    hour = property(lambda s: s.field("hour"))
    minute = property(lambda s: s.field("minute"))
    second = property(lambda s: s.field("second"))
    dayofyr = property(lambda s: s.field("dayofyear"))
    dayofyear = dayofyr
    daysinmonth = property(lambda s: s.field("days_in_month"))

    def __sub__(self, o):
        if isinstance(o, DtVal):
            if o.cal != self.cal:
                raise TypeError("different calendars")
            return TdVal(K.sub(self.t, o.t), K.or_(self.nan, o.nan))
        if isinstance(o, TdVal):
            return type(self)(K.sub(self.t, o.t), self.cal, K.or_(self.nan, o.nan))
        return NotImplemented

    def __add__(self, o):
        if isinstance(o, TdVal):
            return type(self)(K.add(self.t, o.t), self.cal, K.or_(self.nan, o.nan))
        return NotImplemented

    __radd__ = __add__

    def _cmp(self, o, f):
        if not isinstance(o, DtVal):
            return NotImplemented
        if o.cal != self.cal:
            raise TypeError("cannot compare different calendars")
        return sb(K.and_(K.not_(self.nan), K.not_(o.nan), f(self.t, o.t)))

    def __lt__(self, o):
        return self._cmp(o, K.lt)

    def __le__(self, o):
        return self._cmp(o, K.le)

    def __gt__(self, o):
        return self._cmp(o, K.gt)

    def __ge__(self, o):
        return self._cmp(o, K.ge)

    def __eq__(self, o):
        r = self._cmp(o, K.eq)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash((self.t, self.cal))

    def __repr__(self):
        return f"Dt({self.t},{self.cal})"

    def __str__(self):
        return token(Num(self.t))

    def replace(self, **k):
        raise Unsupported("datetime.replace")

    def strftime(self, *a):
        raise Unsupported("strftime")


class NpDt(DtVal):
    """a numpy datetime64: an instant of the proleptic Gregorian calendar without fields of its own"""

    __slots__ = ()

    def _none(self):
        raise AttributeError("'numpy.datetime64' object has no such attribute")

    calendar = year = month = day = hour = minute = second = dayofyr = dayofyear = daysinmonth = property(_none)


class TdVal:
    """timedelta in days"""

    __slots__ = ("t", "nan")

    def __init__(self, t, nan=K.FALSE):
        self.t = K.toreal(t)
        self.nan = nan

    def with_nan(self, n):
        return TdVal(self.t, n)

    def __truediv__(self, o):
        if isinstance(o, TdVal):
            return Num(K.div(self.t, o.t), K.or_(self.nan, o.nan))
        n = tonum(o)
        if n is None:
            return NotImplemented
        return TdVal(K.div(self.t, n.t), K.or_(self.nan, n.nan))

    def __mul__(self, o):
        n = tonum(o)
        if n is None:
            return NotImplemented
        return TdVal(K.mul(self.t, n.t), K.or_(self.nan, n.nan))

    __rmul__ = __mul__

    def __floordiv__(self, o):
        raise Unsupported("timedelta floor division")

    def __add__(self, o):
        if isinstance(o, TdVal):
            return TdVal(K.add(self.t, o.t), K.or_(self.nan, o.nan))
        return NotImplemented

    def __sub__(self, o):
        if isinstance(o, TdVal):
            return TdVal(K.sub(self.t, o.t), K.or_(self.nan, o.nan))
        return NotImplemented

    def __neg__(self):
        return TdVal(K.neg(self.t), self.nan)

    @property
    def days(self):
        return Num(K.floor(self.t), self.nan)

    def total_seconds(self):
        return Num(K.mul(self.t, K.num(86400)), self.nan)

    def _cmp(self, o, f):
        if not isinstance(o, TdVal):
            return NotImplemented
        return sb(f(self.t, o.t))

    def __lt__(self, o):
        return self._cmp(o, K.lt)

    def __le__(self, o):
        return self._cmp(o, K.le)

    def __gt__(self, o):
        return self._cmp(o, K.gt)

    def __ge__(self, o):
        return self._cmp(o, K.ge)

    def __eq__(self, o):
        r = self._cmp(o, K.eq)
        return False if r is NotImplemented else r

    def __hash__(self):
        return hash(self.t)


def ymd(cal, y, m, d):
    """day number of a calendar date"""
    return K.app(f"ymd_{cal}", (y, m, d), "R")


def dt_field(f, t, cal):
    """calendar field of day number t (uninterpreted, with range axioms)"""
    if t.op == "app" and t.args[0] == f"ymd_{cal}":
        if f == "year":
            return t.args[1]
        if f == "month":
            return t.args[2]
        if f == "day":
            return t.args[3]
        if f in ("hour", "minute", "second"):
            return K.num(0)
    if f == "days_in_month":
        return K.app(f"dim_{cal}", (dt_field("year", t, cal), dt_field("month", t, cal)), "I")
    return K.app(f"{f}_{cal}", (t,), "I")


# ------------------------------------------------------------------ axes
class Axis:
    """one array dimension: size term and, for data-dependent subsets, a
    membership predicate over the base index range"""

    __slots__ = ("size", "member", "tag", "_count", "src")

    def __init__(self, size, member=None, tag=""):
        self.size = size
        self.member = member
        self.tag = tag
        self._count = None
        self.src = None  # axes whose raveled index this is

    @property
    def const(self):
        if self.member is None and K.isconst(self.size):
            return int(K.cval(self.size))
        return None

    def count(self):
        if self.member is None:
            return self.size
        if self._count is None:
            self._count = K.agg_sum(
                [self.size], lambda ix: K.ite(self.member(ix[0]), K.num(1), K.num(0))
            )
        return self._count

    def length(self):
        c = self.count()
        return int(K.cval(c)) if K.isconst(c) else Num(c, py=True)

    def guard(self, i):
        g = [K.ge(i, K.num(0)), K.lt(i, self.size)]
        if self.member is not None:
            g.append(self.member(i))
        return K.and_(*g)

    def inside(self, i):
        return K.TRUE if self.member is None else self.member(i)

    def __repr__(self):
        return f"Axis({self.size}{' filtered' if self.member else ''})"


def const_axis(n):
    return Axis(K.num(n))


def same_axis(a, b):
    if a is b:
        return True
    if a.member is None and b.member is None:
        if a.size is b.size:
            return True
        if K.isconst(a.size) and K.isconst(b.size):
            return False
        return ctx().entails(K.eq(a.size, b.size))
    if a.member is None or b.member is None:
        return False
    if a.size is not b.size:
        return False
    v = K.fresh("ax", "I")
    x, y = a.member(v), b.member(v)
    if x is y:
        return True
    c = ctx()
    return bool(
        c.prover.prove(
            c.all_facts() + [K.ge(v, K.num(0)), K.lt(v, a.size)], K.iff(x, y), quick=True
        )
    )


def idx(v):
    """python int / Num -> Int term"""
    if isinstance(v, bool):
        raise Unsupported("bool index")
    if isinstance(v, int):
        return K.num(v)
    n = tonum(v)
    if n is None or not n.isint:
        raise Unsupported("non-integer index")
    return n.t


# ------------------------------------------------------------------ value-level substitution
def subst_val(v, m):
    """substitute terms inside a value (used to instantiate generic loop items)"""
    if not m:
        return v
    if isinstance(v, Num):
        return Num(K.subst(v.t, m), K.subst(v.nan, m), v.py)
    if isinstance(v, SymBool):
        return sb(K.subst(v.t, m))
    if isinstance(v, DtVal):
        return type(v)(K.subst(v.t, m), v.cal, K.subst(v.nan, m))
    if isinstance(v, TdVal):
        return TdVal(K.subst(v.t, m), K.subst(v.nan, m))
    if isinstance(v, Axis):
        mem = v.member
        r = Axis(K.subst(v.size, m), None if mem is None else (lambda i: K.subst(mem(i), m)), v.tag)
        if v.src:
            r.src = tuple(subst_val(a, m) for a in v.src)
        return r
    if isinstance(v, str):
        if TOK.search(v):
            def rep(mm):
                n = subst_val(token_value(mm.group(1)), m)
                return token(n, mm.group(2))

            return type(v)(TOK.sub(rep, v))
        return v
    if v is None or isinstance(v, (bool, int, float)):
        return v
    if isinstance(v, tuple):
        return tuple(subst_val(x, m) for x in v)
    if isinstance(v, PList):
        if v.sym is not None:
            s = v.sym
            r = PList()
            r.sym = subst_val(s, m)
            return r
        return PList(subst_val(x, m) for x in v)
    if isinstance(v, list):
        return [subst_val(x, m) for x in v]
    if isinstance(v, dict):
        return type(v)((k, subst_val(x, m)) for k, x in v.items())
    f = getattr(v, "__vc_subst__", None)
    if f is not None:
        return f(m)
    raise Unsupported(f"generic loop item of type {type(v).__name__}")


# ------------------------------------------------------------------ symbolic sequences and loops
class SymSeq:
    """a sequence of symbolic length: item(i) for 0 <= i < count (filtered by member)"""

    def __init__(self, axis, item, sorted_=False, distinct=False):
        self.axis = axis
        self.item = item
        self.sorted = sorted_
        self.distinct = distinct

    def __vc_len__(self):
        return self.axis.length()

    def __len__(self):
        n = self.axis.length()
        if isinstance(n, int):
            return n
        raise Unsupported("len of symbolic sequence")

    def __getitem__(self, k):
        if isinstance(k, slice):
            if self.axis.member is not None:
                raise Unsupported("slice of filtered sequence")
            off, ax = slice_axis(self.axis, k)
            return SymSeq(ax, lambda i: self.item(off(i)), self.sorted, self.distinct)
        if self.axis.member is not None:
            raise Unsupported("index into filtered sequence")
        i = norm_index(k, self.axis)
        return self.item(i)

    def __iter__(self):
        c = self.axis.const
        if c is None:
            raise Unsupported("iteration over symbolic sequence outside a supported loop")
        return iter([self.item(K.num(i)) for i in range(c)])

    def __contains__(self, x):
        raise Unsupported("membership in symbolic sequence")

    def __vc_subst__(self, m):
        return SymSeq(subst_val(self.axis, m), lambda i: subst_val(self.item(i), m), self.sorted, self.distinct)

    def __add__(self, o):
        raise Unsupported("concatenation of symbolic sequences")

    def index(self, *a):
        raise Unsupported("index in symbolic sequence")


def norm_index(k, axis):
    if isinstance(k, int) and not isinstance(k, bool):
        if k < 0:
            return K.add(axis.size, K.num(k))
        return K.num(k)
    t = idx(k)
    c = ctx()
    if c.entails(K.ge(t, K.num(0))):
        return t
    if c.entails(K.lt(t, K.num(0))):
        return K.add(axis.size, t)
    return K.ite(K.lt(t, K.num(0)), K.add(axis.size, t), t)


def slice_axis(axis, s):
    """(index map, new axis) for a unit-step slice of an unfiltered axis"""
    if axis.member is not None:
        if s == slice(None):
            return (lambda i: i), axis
        raise Unsupported("slice of a filtered axis")
    step = s.step
    if step is not None and idx_const(step) not in (1,):
        if idx_const(step) == -1 and s.start is None and s.stop is None:
            n = axis.size
            return (lambda i: K.sub(K.sub(n, K.num(1)), i)), Axis(n)
        c = axis.const
        if c is not None and idx_const(step) is not None:
            r = list(range(c))[s]
            return (lambda i: _pick([K.num(v) for v in r], i)), const_axis(len(r))
        k = idx_const(step)
        if k is not None and k > 1 and s.stop is None and (s.start is None or isinstance(s.start, int) and 0 <= s.start < k):
            a = s.start or 0
            if a and not ctx().entails(K.gt(axis.size, K.num(a))):
                raise Unsupported("strided slice")
            # ceil((n - a) / k) elements
            return (lambda i: K.add(K.num(a), K.mul(K.num(k), i))), Axis(K.floor(K.div(K.toreal(K.add(axis.size, K.num(k - 1 - a))), K.num(k, "R"))))
        raise Unsupported("strided slice")
    n = axis.size

    def bound(b, default):
        if b is None:
            return default
        if isinstance(b, int):
            if b >= 0:
                if axis.const is not None:
                    return K.num(min(b, axis.const))
                c = ctx()
                if b == 0 or c.entails(K.le(K.num(b), n)):
                    return K.num(b)
                return K.min_(K.num(b), n)
            if axis.const is not None:
                return K.num(max(0, axis.const + b))
            if ctx().entails(K.ge(n, K.num(-b))):
                return K.add(n, K.num(b))
            return K.max_(K.num(0), K.add(n, K.num(b)))
        t = idx(b)
        c = ctx()
        if c.entails(K.and_(K.ge(t, K.num(0)), K.le(t, n))):
            return t
        raise Unsupported("symbolic slice bound")

    lo = bound(s.start, K.num(0))
    hi = bound(s.stop, n)
    if K.isconst(lo) and K.cval(lo) == 0 and hi is n:
        return (lambda i: i), axis
    return (lambda i: K.add(i, lo)), Axis(K.sub(hi, lo))


def idx_const(v):
    if isinstance(v, int):
        return v
    if isinstance(v, Num) and v.const() is not None:
        return int(v.const())
    return None


def _pick(items, i):
    """items[i] for a list of terms and an index term"""
    if K.isconst(i):
        return items[int(K.cval(i))]
    r = items[-1]
    for j in range(len(items) - 2, -1, -1):
        r = K.ite(K.eq(i, K.num(j)), items[j], r)
    return r


def pick_val(items, i):
    if K.isconst(i):
        return items[int(K.cval(i))]
    r = items[-1]
    for j in range(len(items) - 2, -1, -1):
        r = v_ite(K.eq(i, K.num(j)), items[j], r)
    return r


class PList(list):
    """list that may be filled by a generic loop iteration"""

    sym = None

    def __init__(self, *a):
        list.__init__(self, *a)
        self.birth = len(CTX.loops) if CTX is not None else 0

    def _generic(self):
        return CTX is not None and len(CTX.loops) > self.birth

    def append(self, x):
        if self._generic():
            if len(CTX.loops) != self.birth + 1 or list.__len__(self) or self.sym is not None:
                raise Unsupported("append pattern in generic loop")
            lp = CTX.loops[-1]
            if self in lp.filled_ids():
                raise Unsupported("several appends in a generic loop")
            lp.filled.append((self, x))
            return
        if self.sym is not None:
            raise Unsupported("append to symbolic list")
        list.append(self, x)

    def extend(self, xs):
        if self._generic() or self.sym is not None:
            raise Unsupported("extend in generic loop")
        list.extend(self, xs)

    def _mut(self, name, *a, **k):
        if self._generic() or self.sym is not None:
            raise Unsupported("list mutation in generic loop")
        return getattr(list, name)(self, *a, **k)

    def insert(self, *a):
        return self._mut("insert", *a)

    def pop(self, *a):
        return self._mut("pop", *a)

    def remove(self, *a):
        return self._mut("remove", *a)

    def sort(self, **k):
        return self._mut("sort", **k)

    def reverse(self):
        return self._mut("reverse")

    def __setitem__(self, k, v):
        return self._mut("__setitem__", k, v)

    def __iter__(self):
        if self.sym is not None:
            return iter(self.sym)
        return list.__iter__(self)

    def __getitem__(self, k):
        if self.sym is not None:
            return self.sym[k]
        r = list.__getitem__(self, k)
        return PList(r) if isinstance(k, slice) else r

    def __len__(self):
        if self.sym is not None:
            return len(self.sym)
        return list.__len__(self)

    def __vc_len__(self):
        if self.sym is not None:
            return self.sym.__vc_len__()
        return list.__len__(self)

    def __add__(self, o):
        if self.sym is not None or getattr(o, "sym", None) is not None or isinstance(o, SymSeq):
            raise Unsupported("concatenation with symbolic list")
        return PList(list.__add__(self, list(o) if isinstance(o, list) else o))

    def __mul__(self, o):
        if isinstance(o, Num):
            c = o.const()
            if c is None:
                if list.__len__(self) != 1 or self.sym is not None:
                    raise Unsupported("list repetition")
                x = self[0]
                return SymSeq(Axis(o.t), lambda i: x)
            o = int(c)
        if self.sym is not None:
            raise Unsupported("list repetition")
        return PList(list.__mul__(self, o))

    __rmul__ = __mul__

    def copy(self):
        if self.sym is not None:
            raise Unsupported("copy of symbolic list")
        return PList(self)

    def __contains__(self, x):
        if self.sym is not None:
            raise Unsupported("membership in symbolic list")
        return list.__contains__(self, x)

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        if self.sym is not None:
            raise Unsupported("comparison of symbolic list")
        return list.__eq__(self, o)


RUNNING = [False]  # set while the verified code runs


class PDict(dict):
    def __init__(self, *a, **k):
        dict.__init__(self, *a, **k)
        self.birth = len(CTX.loops) if CTX is not None else 0

    def __setitem__(self, k, v):
        if CTX is not None and len(CTX.loops) > self.birth:
            lp = CTX.loops[-1]
            if len(CTX.loops) != self.birth + 1 or len(self) or type(self) is not PDict or self in lp.filled_ids():
                raise Unsupported("dict mutation in generic loop")
            lp.filled.append((self, (k, v)))
            return
        dict.__setitem__(self, k, v)

    def copy(self):
        return PDict(self)

    def __getitem__(self, k):
        if isinstance(k, SymStr):
            ok, v = symstr_lookup(self, k)
            if not ok:
                raise KeyError(k)
            return v
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        if isinstance(k, SymStr):
            return symstr_lookup(self, k)[0]
        return dict.__contains__(self, k)

    def get(self, k, d=None):
        if isinstance(k, SymStr):
            ok, v = symstr_lookup(self, k)
            return v if ok else d
        return dict.get(self, k, d)


class FilledDict(PDict):
    """dict filled by a generic loop (keys distinct by assumption of the iterated keys)"""

    def _no(self, *a, **k):
        raise Unsupported("use of a dict filled by a generic loop")

    __getitem__ = __setitem__ = __delitem__ = __contains__ = __eq__ = __len__ = get = pop = update = setdefault = items = popitem = clear = copy = _no
    __hash__ = None

    __bool__ = _no

    def __iter__(self):
        return iter(self.sym_items[0])

    def keys(self):
        return self.sym_items[0]

    def values(self):
        return self.sym_items[1]

    def __vc_seq__(self):
        return self.sym_items[0]

    def __vc_len__(self):
        return self.sym_items[0].axis.length()


class Loop:
    def __init__(self, var, axis):
        self.var = var
        self.axis = axis
        self.decisions = []
        self.filled = []
        self.pathlen = 0

    def filled_ids(self):
        return _IdSet([id(x) for x, _ in self.filled])


class _IdSet:
    def __init__(self, ids):
        self.ids = set(ids)

    def __contains__(self, x):
        return id(x) in self.ids


def seq_of(it):
    """symbolic view of an iterable, or None when it is an ordinary one"""
    if isinstance(it, SymSeq):
        return it if it.axis.const is None else None
    if isinstance(it, PList) and it.sym is not None:
        return it.sym
    f = getattr(it, "__vc_seq__", None)
    if f is not None:
        s = f()
        if s is not None and s.axis.const is None:
            return s
    return None


def begin_loop(seq):
    c = ctx()
    v = K.fresh("it", "I")
    lp = Loop(v, seq.axis)
    lp.pathlen = len(c.path)
    c.loops.append(lp)
    c.path.append(seq.axis.guard(v))
    return lp


def end_loop(lp):
    c = ctx()
    assert c.loops[-1] is lp
    c.loops.pop()
    # every iteration took the same (only non-raising) branch: generalise
    key = tuple(d for (_, d, _) in c.taken)
    site = (len(c.taken) - len(lp.decisions), tuple(d for (_, d, _) in c.taken[: len(c.taken) - len(lp.decisions)]))
    done = c.loop_done.setdefault(site, set())
    done.add(tuple(c.taken[len(c.taken) - len(lp.decisions):][i][1] for i in range(len(lp.decisions))))
    if len(done) > 1:
        raise Unsupported("branching inside a loop over a symbolic sequence")
    extra = c.path[lp.pathlen + 1:]
    del c.path[lp.pathlen:]
    for d in extra:
        if lp.var in K.subterms([d]):
            body = K.or_(K.not_(lp.axis.guard(lp.var)), d)
            t = K.agg_bool(
                "all", [lp.axis.size], lambda ix, body=body: K.subst(body, {lp.var: ix[0]})
            )
            c.path.append(t)
        else:
            c.path.append(d)
    for lst, x in lp.filled:
        if isinstance(lst, PDict) or hasattr(lst, "__vc_filled__"):
            kv = tuple(SymSeq(lp.axis, lambda i, y=y: subst_val(y, {lp.var: i})) for y in x)
            if isinstance(lst, PDict):
                lst.__class__ = FilledDict
                lst.sym_items = kv
            else:
                lst.__vc_filled__(*kv)
            continue
        lst.sym = SymSeq(lp.axis, lambda i, x=x: subst_val(x, {lp.var: i}))


def abort_loop(lp):
    c = CTX
    if c is not None and lp in c.loops:
        del c.loops[c.loops.index(lp):]


def sym_map(fn, seq, cond=None):
    """[fn(x) for x in seq if cond(x)] by the generic-iteration rule"""
    lp = begin_loop(seq)
    try:
        x = seq.item(lp.var)
        mem = None
        if cond is not None:
            b = tobool_force(cond(x))
            if b is K.FALSE:
                raise Unsupported("empty filter")
            if b is not K.TRUE:
                mem = b
                ctx().path.append(b)
        y = fn(x)
    except BaseException:
        abort_loop(lp)
        raise
    if mem is not None:
        # the filter holds only for members: it must not be generalised
        c = ctx()
        c.path.remove(mem)
    end_loop(lp)
    ax = seq.axis
    if mem is not None:
        base = ax.member

        def member(i, mem=mem):
            m = K.subst(mem, {lp.var: i})
            return m if base is None else K.and_(base(i), m)

        ax = Axis(seq.axis.size, member)
    return SymSeq(ax, lambda i: subst_val(y, {lp.var: i}))


def tobool_force(v):
    b = tobool(v)
    if b is None:
        b = K.boolc(bool(v))
    return b


# ------------------------------------------------------------------ symbolic strings
_STRCODE = {}


class SymStr(str):
    """an arbitrary string of a class given by the precondition: either none of a list of
    words (unknown), or some casing of one word; comparisons are decided by that
    precondition or become branches, derived strings remember how they were made"""

    def __new__(cls, name, excl=None, fold=False, word=None, path=()):
        o = str.__new__(cls, f"<{name}{''.join('.' + str(p) for p in path)}>")
        o.s_name, o.excl, o.fold, o.word, o.path = name, excl, fold, word, tuple(path)
        return o

    def _derive(self, op):
        return SymStr(self.s_name, self.excl, self.fold, self.word, self.path + (op,))

    CASE = ("lower", "upper", "casefold", "swapcase", "capitalize", "title")

    def _case(self, op):
        if self.word is not None and not (self.path and op == "swapcase"):
            if op != "swapcase":
                return getattr(self.word, op)()
        if op == "casefold":
            op = "lower"
        if self.path and op in self.CASE and self.path[-1] in self.CASE and op != "swapcase":
            return SymStr(self.s_name, self.excl, self.fold, self.word, self.path[:-1] + (op,))
        return self._derive(op)

    def lower(self):
        return self._case("lower")

    def upper(self):
        return self._case("upper")

    def casefold(self):
        return self._case("casefold")

    def swapcase(self):
        return self._case("swapcase")

    def capitalize(self):
        return self._case("capitalize")

    def title(self):
        return self._case("title")

    def strip(self, *a):
        return self._strip("strip", *a)

    def lstrip(self, *a):
        return self._strip("lstrip", *a)

    def rstrip(self, *a):
        return self._strip("rstrip", *a)

    def _strip(self, m, *a):
        if self.word is not None and not a:
            return self
        return self._derive(f"{m}{a!r}")

    def replace(self, a, b, *c):
        return self._derive(f"replace{(a, b) + c!r}")

    def removeprefix(self, a):
        return self._derive(f"removeprefix({a!r})")

    def removesuffix(self, a):
        return self._derive(f"removesuffix({a!r})")

    # ---- predicates
    def _code(self, c):
        return K.eq(K.app("str:" + self.s_name + "".join("." + p for p in self.path), (), "I"), K.num(_STRCODE.setdefault(c, len(_STRCODE) + 1)))

    def _eq(self, c):
        if isinstance(c, SymStr):
            if c.s_name == self.s_name and c.path == self.path:
                return True
            raise Unsupported("comparison of symbolic strings")
        if not isinstance(c, str):
            return False
        case_only = all(p in self.CASE for p in self.path)
        if case_only and self.path and self.path[-1] != "swapcase" and getattr(c, self.path[-1])() != c:
            return False
        if self.word is not None:
            if case_only and c.lower() != self.word.lower():
                return False
            return sb(self._code(c))
        if c.startswith("__") and case_only:
            return False
        if case_only and (c.lower() in self.excl if self.fold else (not self.path and c in self.excl)):
            return False
        return sb(self._code(c))

    def __eq__(self, c):
        return self._eq(c)

    def __ne__(self, c):
        r = self._eq(c)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return str.__hash__(self)

    def among(self, words):
        for w in words:
            if self._eq(w):
                return True
        return False

    def pick(self, words):
        """the word equal to this string, None if there is none"""
        for w in words:
            if self._eq(w):
                return w
        return None

    def _pred(self, m, *a):
        return sb(K.app(f"str.{m}{a!r}:" + self.s_name + "".join("." + p for p in self.path), (), "B"))

    def startswith(self, *a):
        return True if a == ("",) else self._pred("startswith", *a)

    def endswith(self, *a):
        return True if a == ("",) else self._pred("endswith", *a)

    def __contains__(self, a):
        return True if a == "" else bool(self._pred("contains", a))

    def isupper(self):
        return self._pred("isupper")

    def islower(self):
        return self._pred("islower")

    def __bool__(self):
        return bool(self != "")

    def __str__(self):
        return self

    def __repr__(self):
        return str.__repr__(self)

    def __format__(self, spec):
        return format("".join(str.__iter__(self)), spec)

    def __add__(self, o):
        return f"{self}" + o

    def __radd__(self, o):
        return o + f"{self}"

    def _no(self, *a, **k):
        raise Unsupported("operation on a symbolic string")

    __getitem__ = __iter__ = __len__ = __lt__ = __le__ = __gt__ = __ge__ = __mul__ = __rmul__ = __mod__ = _no
    split = rsplit = partition = rpartition = splitlines = encode = find = rfind = index = rindex = count = join = translate = _no
    zfill = center = ljust = rjust = expandtabs = isalpha = isalnum = isdigit = isnumeric = isspace = isidentifier = istitle = isdecimal = isascii = isprintable = _no
    __vc_len__ = _no


def symstr_lookup(d, k):
    """(found, value) of a dictionary at a symbolic string"""
    w = k.pick([x for x in dict.keys(d) if isinstance(x, str)])
    return (False, None) if w is None else (True, dict.__getitem__(d, w))
