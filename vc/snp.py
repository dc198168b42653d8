"""Assumed contract of numpy, over symbolic arrays (exact real arithmetic)."""
import types as _types
from fractions import Fraction
from . import terms as K
from . import sym
from .sym import (
    Num, SymBool, RealLit, Axis, Unsupported, SymSeq, PList, DtVal, TdVal, NAN,
    num, tonum, tobool, sb, v_ite, is_nan, const_axis, same_axis, ctx,
)


class DType:
    def __init__(self, name):
        self.name = _dtname(name)

    def __eq__(self, o):
        try:
            return self.name == _dtname(o)
        except Exception:
            return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"dtype('{self.name}')"

    def __str__(self):
        return self.name

    @property
    def kind(self):
        n = self.name
        if n.startswith("float"):
            return "f"
        if n.startswith("int"):
            return "i"
        if n.startswith("uint"):
            return "u"
        if n == "bool":
            return "b"
        if n == "object":
            return "O"
        if n.startswith("timedelta"):
            return "m"
        if n.startswith("datetime"):
            return "M"
        return "U"

    @property
    def type(self):
        return {"f": float64, "i": int64, "b": bool_}.get(self.kind, object)

    @property
    def str(self):
        return {"float64": "<f8", "float32": "<f4"}.get(self.name, self.name)


def _dtname(o):
    if isinstance(o, DType):
        return o.name
    if isinstance(o, str):
        return {
            "f8": "float64", "<f8": "float64", "f4": "float32", "<f4": "float32", "d": "float64",
            "float": "float64", "int": "int64", "O": "object", "i8": "int64", "f": "float32",
            "double": "float64", "single": "float32",
        }.get(o, o)
    if isinstance(o, ScalarType):
        return o.dtname
    if o is float:
        return "float64"
    if o is int:
        return "int64"
    if o is bool:
        return "bool"
    if o is object:
        return "object"
    if o is str:
        return "str"
    n = getattr(o, "__name__", None)
    if n in ("vc_float",):
        return "float64"
    if n in ("vc_int",):
        return "int64"
    if n in ("vc_bool",):
        return "bool"
    raise TypeError("dtype")


class ScalarType:
    def __init__(self, dtname):
        self.dtname = dtname
        self.__name__ = dtname

    def __call__(self, x=0):
        if isinstance(x, NdArray) or hasattr(x, "__vc_ufunc__"):
            return x.astype(self.dtname)
        return cast_num(num(x), self.dtname)

    def __vc_instance__(self, x):
        if isinstance(x, Num) and not x.py:
            if self.dtname in ("floating", "float64", "number"):
                return x.t.sort == "R"
            if self.dtname in ("integer", "int64"):
                return x.t.sort == "I"
        return False

    def __eq__(self, o):
        try:
            return self.dtname == _dtname(o)
        except Exception:
            return False

    def __hash__(self):
        return hash(self.dtname)


float64 = ScalarType("float64")
float32 = ScalarType("float32")
float16 = ScalarType("float16")
int64 = ScalarType("int64")
int32 = ScalarType("int32")
bool_ = ScalarType("bool")
floating = ScalarType("floating")
integer = ScalarType("integer")
number = ScalarType("number")
object_ = ScalarType("object")


def trunc_t(t):
    if t.sort == "I":
        return t
    z = K.num(0, "R")
    return K.ite(K.ge(t, z), K.floor(t), K.neg(K.floor(K.neg(t))))


def narrow(t, d):
    """rounding to a narrower float: uninterpreted, except that exact values stay"""
    if K.isconst(t):
        import struct

        c = "f" if d == "float32" else "e"
        try:
            if Fraction(struct.unpack(c, struct.pack(c, float(K.cval(t))))[0]) == K.cval(t):
                return t
        except OverflowError:
            pass
    if t.op == "app" and t.args[0] == d:
        return t
    return K.app(d, (t,), "R")


def round_(a, decimals=0):
    """rounding to a number of decimals: uninterpreted, except on constants that stay"""
    if not isinstance(decimals, int):
        raise Unsupported("round to a symbolic number of decimals")
    q = Fraction(10) ** decimals

    def f(v):
        n = num(v)
        if K.isconst(n.t) and (K.cval(n.t) * q).denominator == 1:
            return n
        if n.isint and decimals >= 0:
            return n
        return Num(K.app(f"round{decimals}", (K.toreal(n.t),), "R"), n.nan)

    if hasattr(a, "__vc_ufunc__"):
        return a.__vc_ufunc__(f, (a,), None)
    return ew(f, _nd(a)) if _as_nd(a) is not None else f(a)


def cast_num(n, dt):
    k = DType(dt).kind
    if k == "f":
        t = K.toreal(n.t)
        d = DType(dt).name
        if d in ("float32", "float16"):
            t = narrow(t, d)
        return Num(t, n.nan)
    if k in "iu":
        if n.nan is not K.FALSE:
            raise Unsupported("NaN cast to int")
        return Num(trunc_t(n.t))
    if k == "b":
        return sb(K.or_(n.nan, K.not_(K.eq(n.t, K.num(0, n.t.sort)))))
    if k == "O":
        return n
    raise Unsupported(f"cast to {dt}")


def cast_val(v, dt):
    k = DType(dt).kind
    if isinstance(v, (DtVal, TdVal)) or k == "O":
        if k in "fiub":
            raise Unsupported("cast of datetime")
        return v
    if isinstance(v, (bool, SymBool)):
        if k == "b":
            return v
        return cast_num(num(v), dt)
    n = tonum(v)
    if n is None:
        if k == "U":
            return v
        raise Unsupported("cast of non-number")
    return cast_num(n, dt)


def store(v, src, dt):
    """cast on assignment: only a double-precision source is rounded by a narrower float"""
    if dt in ("float32", "float16") and src in (None, dt, "int64", "bool"):
        dt = "float64"
    return cast_val(v, dt)


def val_kind(v):
    if isinstance(v, (bool, SymBool)):
        return "bool"
    if isinstance(v, DtVal):
        return "datetime64[ns]" if isinstance(v, sym.NpDt) else "object"
    if isinstance(v, TdVal):
        return "timedelta64[ns]"
    n = tonum(v)
    if n is not None:
        return "int64" if n.isint else "float64"
    if isinstance(v, str):
        return "str"
    return "object"


_rank = {"bool": 0, "int32": 1, "int64": 2, "float16": 3, "float32": 3, "float64": 4}


def promote(*names):
    names = [n for n in names if n is not None]
    if not names:
        return "float64"
    if any(n not in _rank for n in names):
        for n in names:
            if n not in _rank:
                return n
    r = max(names, key=lambda n: _rank[n])
    if r == "float32" and "int64" in names:
        return "float64"
    return r


class NdArray:
    """positional symbolic array"""

    __vc_shadow__ = True

    def __init__(self, axes, elem, dtype):
        self.axes = tuple(axes)
        self._elem = elem
        self._memo = {}
        self._dt = dtype if isinstance(dtype, str) else DType(dtype).name
        self.chunks_ = None
        self.base = None
        self.version = 0
        self.birth = len(sym.CTX.loops) if sym.CTX is not None else 0

    # ---- elements
    def elem(self, ix):
        key = tuple(ix)
        r = self._memo.get(key)
        if r is None:
            r = self._elem(list(ix))
            self._memo[key] = r
        return r

    def snap(self):
        """element function of the current contents"""
        f = self._elem
        memo = self._memo

        def g(ix):
            key = tuple(ix)
            r = memo.get(key)
            if r is None:
                r = f(list(ix))
                memo[key] = r
            return r

        return g

    def set_elem(self, f):
        if sym.CTX is not None and len(sym.CTX.loops) > self.birth:
            raise Unsupported("array mutation in generic loop")
        if self.base is not None:
            raise Unsupported("mutation through an array view")
        self._elem = f
        self._memo = {}
        self.version += 1

    def __vc_subst__(self, m):
        f = self.snap()
        return NdArray(
            [sym.subst_val(a, m) for a in self.axes],
            lambda ix: sym.subst_val(f(ix), m),
            self._dt,
        )

    def __vc_scalar__(self):
        if self.axes and not all(a.const == 1 for a in self.axes):
            raise Unsupported("array used as a scalar")
        v = self.elem([K.num(0)] * len(self.axes))
        n = tonum(v)
        if n is None:
            raise Unsupported("non-numeric scalar array")
        return n

    # ---- attributes
    @property
    def dtype(self):
        return DType(self._dt)

    @property
    def shape(self):
        return tuple(a.length() for a in self.axes)

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def size(self):
        r = 1
        for a in self.axes:
            r = r * a.length()
        return r

    @property
    def T(self):
        return self.transpose()

    @property
    def values(self):
        return self

    @property
    def flat(self):
        return self.flatten()

    @property
    def chunks(self):
        if self.chunks_ is None:
            raise AttributeError("chunks")
        return self.chunks_

    def __vc_len__(self):
        if not self.axes:
            raise TypeError("len() of unsized object")
        return self.axes[0].length()

    def __len__(self):
        n = self.__vc_len__()
        if isinstance(n, int):
            return n
        raise Unsupported("len of symbolic array")

    def __vc_seq__(self):
        if not self.axes:
            return None
        rest = self.axes[1:]
        f = self.snap()
        if not rest:
            return SymSeq(self.axes[0], lambda i: f([i]))
        dt = self._dt
        return SymSeq(self.axes[0], lambda i: NdArray(rest, lambda ix: f([i] + ix), dt))

    def __iter__(self):
        if not self.axes:
            raise TypeError("iteration over a 0-d array")
        s = self.__vc_seq__()
        return iter(s)

    def __bool__(self):
        n = self.size
        if isinstance(n, int) and n == 1:
            v = self.elem([K.num(0)] * len(self.axes))
            return bool(v)
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __float__(self):
        return float(self.__vc_scalar__())

    def __int__(self):
        return int(self.__vc_scalar__())

    def __index__(self):
        return self.__vc_scalar__().__index__()

    def __hash__(self):
        raise TypeError("unhashable")

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        n = self.size
        if n != 1:
            raise ValueError("can only convert an array of size 1")
        return self.elem([K.num(0)] * len(self.axes))

    def tolist(self):
        s = self.__vc_seq__()
        if s is None:
            return self.item()
        if s.axis.const is None:
            if len(self.axes) == 1:
                return s
            return SymSeq(s.axis, lambda i: s.item(i).tolist())
        return PList(x.tolist() if isinstance(x, NdArray) else x for x in s)

    def copy(self, *a, **k):
        return NdArray(self.axes, self.snap(), self._dt)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, **k):
        f = self.snap()
        dt = DType(dt).name
        if dt == self._dt:
            return self.copy()
        return NdArray(self.axes, lambda ix: cast_val(f(ix), dt), dt)

    # ---- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    # ---- shape
    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        n = len(self.axes)
        if not axes or axes == (None,):
            axes = tuple(reversed(range(n)))
        axes = [a % n for a in axes]
        f = self.snap()

        def el(ix):
            o = [None] * n
            for j, a in enumerate(axes):
                o[a] = ix[j]
            return f(o)

        r = NdArray([self.axes[a] for a in axes], el, self._dt)
        r.base = self
        return r

    def swapaxes(self, a, b):
        n = len(self.axes)
        p = list(range(n))
        a, b = a % n, b % n
        p[a], p[b] = p[b], p[a]
        return self.transpose(*p)

    def flatten(self, order="C"):
        if order != "C":
            raise Unsupported("order")
        f = self.snap()
        axes = self.axes
        if len(axes) == 1:
            return NdArray(axes, f, self._dt)
        if not axes:
            return NdArray([const_axis(1)], lambda ix: f([]), self._dt)
        if any(a.member is not None for a in axes):
            raise Unsupported("flatten of a filtered array")
        return NdArray(
            [Axis(K.mul(*[a.size for a in axes]))],
            lambda ix: f(unravel(ix[0], axes)),
            self._dt,
        )

    def ravel(self, order="C"):
        return self.flatten(order)

    def reshape(self, *shape, **k):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def squeeze(self, axis=None):
        keep = [
            i for i, a in enumerate(self.axes)
            if not (a.const == 1 and (axis is None or i in _axl(axis, len(self.axes))))
        ]
        f = self.snap()
        n = len(self.axes)

        def el(ix):
            o = [K.num(0)] * n
            for j, i in enumerate(keep):
                o[i] = ix[j]
            return f(o)

        return NdArray([self.axes[i] for i in keep], el, self._dt)

    # ---- reductions
    def sum(self, axis=None, keepdims=False, **k):
        return reduce_np(self, "sum", axis, keepdims)

    def mean(self, axis=None, keepdims=False, **k):
        return reduce_np(self, "mean", axis, keepdims)

    def min(self, axis=None, keepdims=False, **k):
        return reduce_np(self, "min", axis, keepdims)

    def max(self, axis=None, keepdims=False, **k):
        return reduce_np(self, "max", axis, keepdims)

    def std(self, axis=None, keepdims=False, ddof=0, **k):
        return reduce_np(self, "std", axis, keepdims, ddof=ddof)

    def all(self, axis=None, **k):
        return reduce_np(self, "all", axis, False)

    def any(self, axis=None, **k):
        return reduce_np(self, "any", axis, False)

    def prod(self, axis=None, **k):
        return prod(self, axis)

    def cumsum(self, axis=None):
        return cumsum(self, axis)

    def dot(self, o):
        return dot(self, o)

    def fill(self, v):
        self[...] = v

    def clip(self, lo=None, hi=None):
        return clip(self, lo, hi)

    def round(self, decimals=0, out=None):
        return round_(self, decimals)

    # ---- dask-like interface
    def map_overlap(self, func, depth=None, boundary=None, dtype=None, chunks=None, meta=None, **kw):
        return _dask_blocks(self, func, chunks, kw)

    def map_blocks(self, func, *a, dtype=None, chunks=None, meta=None, drop_axis=None, new_axis=None, **kw):
        if a or drop_axis or new_axis:
            raise Unsupported("map_blocks arguments")
        return _dask_blocks(self, func, chunks, kw)

    def rechunk(self, *a, **k):
        raise Unsupported("rechunk")

    def compute(self):
        r = NdArray(self.axes, self.snap(), self._dt)
        return r

    def load(self):
        return self.compute()

    def __array__(self, *a, **k):
        raise Unsupported("conversion of a symbolic array to a real numpy array")

    def __contains__(self, x):
        raise Unsupported("membership in array")

    def __matmul__(self, o):
        return dot(self, o)

    def __rmatmul__(self, o):
        return dot(asarray(o), self)

    def __neg__(self):
        return ew(lambda a: -a, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return ew(abs, self)

    def __invert__(self):
        return ew(v_not, self, dtype="bool")


def v_not(a):
    b = tobool(a)
    if b is None:
        raise Unsupported("~ of non-boolean")
    return sb(K.not_(b))


def _axl(axis, n):
    if isinstance(axis, (tuple, list)):
        return [a % n for a in axis]
    return [axis % n]


# ------------------------------------------------------------------ ravel
def _rv(axes):
    return "_".join(str(a.size.id) for a in axes)


def ravel_t(ix, axes):
    if all(a.const is not None for a in axes):
        t = K.num(0)
        for i, a in zip(ix, axes):
            t = K.add(K.mul(t, a.size), i)
        if K.isconst(t):
            return t
    return K.app("ravel:" + _rv(axes), tuple(ix), "I")


def unravel(i, axes):
    tag = _rv(axes)
    if i.op == "app" and i.args[0] == "ravel:" + tag:
        return list(i.args[1:])
    if K.isconst(i) and all(a.const is not None for a in axes):
        v = int(K.cval(i))
        out = []
        for a in reversed(axes):
            out.append(K.num(v % a.const))
            v //= a.const
        return list(reversed(out))
    nz = [j for j, a in enumerate(axes) if a.const != 1]
    if len(nz) == 1:
        o = [K.num(0)] * len(axes)
        o[nz[0]] = i
        return o
    return [K.num(0) if a.const == 1 else K.app(f"unravel{j}:" + tag, (i,), "I") for j, a in enumerate(axes)]


def reshape(a, shape):
    shape = [s for s in shape]
    # sizes
    axes = []
    neg = None
    for j, s in enumerate(shape):
        if isinstance(s, float):
            raise TypeError("'float' object cannot be interpreted as an integer")
        if isinstance(s, int) and s == -1:
            neg = j
            axes.append(None)
        elif isinstance(s, int):
            axes.append(const_axis(s))
        else:
            axes.append(Axis(sym.idx(s)))
    f = a.snap()
    src = a.axes
    total = K.mul(K.num(1), *[x.size for x in src])
    if neg is not None:
        # match leading/trailing sizes
        known = [x for x in axes if x is not None]
        rest = list(src)
        for x in known:
            for y in rest:
                if y.size is x.size:
                    rest.remove(y)
                    break
            else:
                if x.const == 1:
                    continue
                if x.const is not None and total.op == "const":
                    rest = [const_axis(int(K.cval(total)) // x.const)]
                    break
                raise Unsupported("reshape with -1")
        axes[neg] = Axis(K.mul(K.num(1), *[y.size for y in rest]))
    tgt = K.mul(K.num(1), *[x.size for x in axes])
    if tgt is not total and not ctx().entails(K.eq(tgt, total)):
        raise Unsupported("reshape: sizes not provably equal")
    if len(axes) == len(src) and all(x.size is y.size for x, y in zip(axes, src)):
        return NdArray(src, f, a._dt)
    if any(x.member is not None for x in src):
        raise Unsupported("reshape of filtered array")
    # split both shapes into matching groups where possible
    def el(ix):
        return f(_remap(ix, axes, src))

    return NdArray(axes, el, a._dt)


def _remap(ix, axes, src):
    """index in `src` of the element at `ix` in `axes` (C order, equal totals)"""
    # peel equal trailing / leading sizes
    ix, ax, sr = list(ix), list(axes), list(src)
    tail = []
    while ax and sr and ax[-1].size is sr[-1].size:
        tail.insert(0, ix.pop())
        ax.pop()
        sr.pop()
    head = []
    while ax and sr and ax[0].size is sr[0].size:
        head.append(ix.pop(0))
        ax.pop(0)
        sr.pop(0)
    if not sr:
        return head + tail
    if not ax:
        return head + [K.num(0)] * len(sr) + tail
    # drop size-one axes
    ix2 = [i for i, a in zip(ix, ax) if a.const != 1]
    ax2 = [a for a in ax if a.const != 1]
    if len(ax2) == 1:
        flat = ix2[0]
    elif not ax2:
        flat = K.num(0)
    else:
        flat = ravel_t(ix2, ax2)
    sr2 = [a for a in sr if a.const != 1]
    if len(sr2) == 1:
        mid1 = [flat]
    elif not sr2:
        mid1 = []
    else:
        mid1 = unravel(flat, sr2)
    mid = []
    it = iter(mid1)
    for a in sr:
        mid.append(K.num(0) if a.const == 1 else next(it))
    return head + mid + tail


# ------------------------------------------------------------------ construction
def asarray(x, dtype=None, **k):
    return array(x, dtype=dtype)


def array(x, dtype=None, copy=True, **k):
    r = _array(x)
    if dtype is not None:
        r = r.astype(dtype)
    return r


def _array(x):
    if isinstance(x, NdArray):
        return x.copy()
    f = getattr(x, "__vc_array__", None)
    if f is not None:
        return f().copy()
    if isinstance(x, (list, tuple, SymSeq)):
        seq = sym.seq_of(x)
        if seq is not None:
            probe = seq.item(K.fresh("p", "I"))
            if isinstance(probe, (tuple, list)) and not isinstance(probe, NdArray):
                n = len(probe)
                dt = promote(*[val_kind(v) for v in probe])
                return NdArray(
                    [seq.axis, const_axis(n)],
                    lambda ix: sym.pick_val(list(seq.item(ix[0])), ix[1]),
                    dt,
                )
            pa = _as_nd(probe)
            if pa is None:
                return NdArray([seq.axis], lambda ix: seq.item(ix[0]), val_kind(probe))
            return NdArray(
                (seq.axis,) + pa.axes, lambda ix: _as_nd(seq.item(ix[0])).elem(ix[1:]), pa._dt
            )
        items = list(x)
        if not items:
            return NdArray([const_axis(0)], lambda ix: NAN, "float64")
        subs = [_array(i) if isinstance(i, (list, tuple, SymSeq)) or _as_nd(i) is not None else i for i in items]
        nd = [s if isinstance(s, NdArray) else None for s in subs]
        if any(s is not None for s in nd):
            nd = [s if s is not None else NdArray([], lambda ix, v=v: v, val_kind(v)) for s, v in zip(nd, subs)]
            a0 = nd[0]
            for s in nd[1:]:
                if len(s.axes) != len(a0.axes) or not all(
                    same_axis(p, q) for p, q in zip(s.axes, a0.axes)
                ):
                    raise Unsupported("ragged array")
            fs = [s.snap() for s in nd]
            dt = promote(*[s._dt for s in nd])
            cast = dt in _rank

            def el(ix):
                v = sym.pick_val([f(ix[1:]) for f in fs], ix[0]) if not K.isconst(ix[0]) else fs[int(K.cval(ix[0]))](ix[1:])
                return store(v, dt, dt) if cast else v

            return NdArray((const_axis(len(nd)),) + a0.axes, el, dt)
        dt = promote(*[val_kind(v) for v in subs])
        if dt in _rank:
            subs = [cast_val(v, dt) for v in subs]
        return NdArray([const_axis(len(subs))], lambda ix: sym.pick_val(subs, ix[0]), dt)
    if isinstance(x, range):
        return _array(list(x))
    return NdArray([], lambda ix: x, val_kind(x))


def _as_nd(x):
    if isinstance(x, NdArray):
        return x
    f = getattr(x, "__vc_array__", None)
    if f is not None:
        return f()
    return None


def _shape_axes(shape):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    out = []
    for s in shape:
        if isinstance(s, int):
            out.append(const_axis(s))
        elif isinstance(s, Num):
            out.append(Axis(s.t))
        else:
            raise Unsupported("shape")
    return out


def full(shape, fill_value, dtype=None, **k):
    v = fill_value
    dt = DType(dtype).name if dtype is not None else val_kind(v)
    v = cast_val(v, dt)
    return NdArray(_shape_axes(shape), lambda ix: v, dt)


def zeros(shape, dtype="float64", **k):
    return full(shape, 0, dtype or "float64")


def ones(shape, dtype="float64", **k):
    return full(shape, 1, dtype or "float64")


def empty(shape, dtype="float64", **k):
    raise Unsupported("np.empty")


def _like(a, v, dtype=None):
    if hasattr(a, "__vc_ufunc__"):
        dt = dtype
        r = a.__vc_ufunc__(lambda x: cast_val(v, dt if dt is not None else val_kind(x)), (a,), None)
        return r
    a = _as_nd(a) if _as_nd(a) is not None else _array(a)
    dt = DType(dtype).name if dtype is not None else a._dt
    if dt == "object":
        return NdArray(a.axes, lambda ix: v, dt)
    v = cast_val(v, dt)
    return NdArray(a.axes, lambda ix: v, dt)


def full_like(a, fill_value, dtype=None, **k):
    return _like(a, fill_value, dtype)


def zeros_like(a, dtype=None, **k):
    return _like(a, 0, dtype)


def ones_like(a, dtype=None, **k):
    return _like(a, 1, dtype)


def empty_like(a, **k):
    raise Unsupported("np.empty_like")


def arange(*a, **k):
    dt = k.get("dtype")
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        start, stop, step = a[0], a[1], 1
    else:
        start, stop, step = a
    s, e, d = num(start), num(stop), num(step)
    if all(n.const() is not None for n in (s, e, d)):
        import math

        n = max(0, math.ceil((e.const() - s.const()) / d.const()))
        ax = const_axis(n)
    elif s.isint and e.isint and d.const() == 1:
        ax = Axis(K.sub(e.t, s.t)) if not (s.const() == 0) else Axis(e.t)
    else:
        raise Unsupported("arange with symbolic non-integer bounds")
    isint = s.isint and e.isint and d.isint
    r = NdArray(
        [ax],
        lambda ix: Num(K.add(s.t if isint else K.toreal(s.t), K.mul(d.t, ix[0]))),
        "int64" if isint else "float64",
    )
    return r.astype(dt) if dt is not None else r


def linspace(a, b, n=50, endpoint=True, **k):
    a, b = num(a), num(b)
    n = sym.idx_const(n)
    if n is None:
        raise Unsupported("linspace")
    d = n - 1 if endpoint else n
    return NdArray(
        [const_axis(n)],
        lambda ix: a + (b - a) * Num(K.toreal(ix[0])) / Num(K.num(d)),
        "float64",
    )


def meshgrid(x, y, indexing="xy", sparse=False, copy=True):
    x, y = _nd(x), _nd(y)
    fx, fy = x.snap(), y.snap()
    if sparse:
        raise Unsupported("sparse meshgrid")
    if indexing == "xy":
        ax = (y.axes[0], x.axes[0])
        return PList([
            NdArray(ax, lambda ix: fx([ix[1]]), x._dt),
            NdArray(ax, lambda ix: fy([ix[0]]), y._dt),
        ])
    ax = (x.axes[0], y.axes[0])
    return PList([
        NdArray(ax, lambda ix: fx([ix[0]]), x._dt),
        NdArray(ax, lambda ix: fy([ix[1]]), y._dt),
    ])


def _nd(x):
    r = _as_nd(x)
    return r if r is not None else _array(x)


# ------------------------------------------------------------------ elementwise
def broadcast_axes(axl):
    n = max((len(a) for a in axl), default=0)
    out = []
    for p in range(n):
        pick = None
        for a in axl:
            q = p - (n - len(a))
            if q < 0:
                continue
            x = a[q]
            if x.const == 1:
                if pick is None:
                    pick = x
                continue
            if pick is None or pick.const == 1:
                pick = x
            elif not same_axis(pick, x):
                if x.const is not None and pick.const is not None or True:
                    c = ctx()
                    if x.member is None and pick.member is None:
                        # size-one broadcasting or mismatch error: decide by forking
                        if c.decide(K.eq(x.size, pick.size)):
                            continue
                        if c.decide(K.eq(x.size, K.num(1))):
                            raise Unsupported("broadcast of a symbolic axis of size one")
                        if c.decide(K.eq(pick.size, K.num(1))):
                            raise Unsupported("broadcast of a symbolic axis of size one")
                        raise ValueError("operands could not be broadcast together")
                    raise Unsupported("alignment of filtered axes")
        out.append(pick)
    return out


def ew(fn, *args, dtype=None):
    """elementwise application with numpy broadcasting"""
    nds = []
    for a in args:
        r = _as_nd(a)
        if r is None and isinstance(a, (list, tuple, SymSeq)):
            r = _array(a)
        nds.append(r)
    if all(n is None for n in nds):
        return fn(*[scalar(a) for a in args])
    axes = broadcast_axes([n.axes for n in nds if n is not None])
    n = len(axes)
    parts = []
    for a, x in zip(args, nds):
        if x is None:
            v = scalar(a)
            parts.append(lambda ix, v=v: v)
        else:
            f = x.snap()
            off = n - len(x.axes)
            ones_ = [ax.const == 1 and axes[off + j].const != 1 for j, ax in enumerate(x.axes)]

            def g(ix, f=f, off=off, ones_=ones_):
                return f([K.num(0) if o else i for i, o in zip(ix[off:], ones_)])

            parts.append(g)
    if dtype is None:
        dtype = infer_dtype(fn, args, nds)
    return NdArray(axes, lambda ix: fn(*[p(ix) for p in parts]), dtype)


def infer_dtype(fn, args, nds):
    """run fn on probe scalars to see the kind of the result"""
    probes = []
    for a, x in zip(args, nds):
        if x is not None:
            try:
                probes.append(x.elem([K.fresh("p", "I") if ax.const != 1 else K.num(0) for ax in x.axes]))
            except IndexError:
                return x._dt
        else:
            probes.append(scalar(a))
    r = val_kind(fn(*probes))
    if r == "float64":
        # float32 inputs stay float32 with python scalars
        ds = [x._dt for x in nds if x is not None]
        if ds and all(d == "float32" for d in ds):
            return "float32"
    return r


def scalar(a):
    if isinstance(a, (Num, SymBool, bool, DtVal, TdVal)):
        return a
    n = tonum(a)
    if n is not None:
        return n
    if isinstance(a, str) or a is None:
        return a
    raise Unsupported(f"operand of type {type(a).__name__}")


def _binop(fn, sw=False):
    def op(self, o):
        if hasattr(o, "__vc_ufunc__"):
            return NotImplemented
        if o is None or isinstance(o, (str, dict)):
            return NotImplemented
        if sw:
            return ew(lambda a, b: fn(b, a), self, o)
        return ew(fn, self, o)

    return op


def _ibinop(fn):
    def op(self, o):
        if hasattr(o, "__vc_ufunc__"):
            return NotImplemented
        r = ew(fn, self, o)
        if self.chunks_ is not None:
            return r  # dask arrays have no in-place arithmetic
        if len(r.axes) != len(self.axes) or any(a.const == 1 and b.const != 1 for a, b in zip(self.axes, r.axes)):
            raise ValueError("non-broadcastable output operand doesn't match the broadcast shape")
        inplace_dtype(r._dt, self._dt)
        f = r.snap()
        dt = self._dt
        self.set_elem(lambda ix: store(f(ix), r._dt, dt))
        return self

    return op


def inplace_dtype(src, dst):
    if src.startswith("float") and (dst.startswith("int") or dst == "bool"):
        raise TypeError(f"Cannot cast ufunc output from dtype('{src}') to dtype('{dst}') with casting rule 'same_kind'")


def b_add(a, b):
    return a + b


def b_sub(a, b):
    return a - b


def b_mul(a, b):
    return a * b


def b_div(a, b):
    return a / b


def b_pow(a, b):
    return a ** b


def b_fdiv(a, b):
    return a // b


def b_mod(a, b):
    return a % b


def b_lt(a, b):
    return a < b


def b_le(a, b):
    return a <= b


def b_gt(a, b):
    return a > b


def b_ge(a, b):
    return a >= b


def b_eq(a, b):
    return a == b


def b_ne(a, b):
    return a != b


def b_and(a, b):
    x, y = tobool(a), tobool(b)
    if x is None or y is None:
        raise Unsupported("& of non-boolean")
    return sb(K.and_(x, y))


def b_or(a, b):
    x, y = tobool(a), tobool(b)
    if x is None or y is None:
        raise Unsupported("| of non-boolean")
    return sb(K.or_(x, y))


def b_xor(a, b):
    x, y = tobool(a), tobool(b)
    if x is None or y is None:
        raise Unsupported("^ of non-boolean")
    return sb(K.not_(K.iff(x, y)))


BINOPS = {
    "add": b_add, "sub": b_sub, "mul": b_mul, "truediv": b_div, "pow": b_pow,
    "floordiv": b_fdiv, "mod": b_mod, "and": b_and, "or": b_or, "xor": b_xor,
}
CMPS = {"lt": b_lt, "le": b_le, "gt": b_gt, "ge": b_ge, "eq": b_eq, "ne": b_ne}

for _n, _f in BINOPS.items():
    setattr(NdArray, f"__{_n}__", _binop(_f))
    setattr(NdArray, f"__r{_n}__", _binop(_f, True))
    setattr(NdArray, f"__i{_n}__", _ibinop(_f))
for _n, _f in CMPS.items():
    setattr(NdArray, f"__{_n}__", _binop(_f))


# ------------------------------------------------------------------ indexing
def _expand_key(key, n):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    if any(k is Ellipsis for k in key):
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        used = sum(1 for k in key if k is not None and k is not Ellipsis)
        key[p:p + 1] = [slice(None)] * (n - used)
    used = sum(1 for k in key if k is not None)
    key += [slice(None)] * (n - used)
    return key


def getitem(a, key):
    if isinstance(key, NdArray) or hasattr(key, "__vc_array__") or isinstance(key, list):
        key = (key,)
    key = _expand_key(key, len(a.axes))
    f = a.snap()
    src = []  # per source axis: function(out ix)->term
    out_axes = []
    adv = None
    ai = 0
    for k in key:
        if k is None:
            out_axes.append(const_axis(1))
            continue
        if ai >= len(a.axes):
            raise IndexError("too many indices for array")
        ax = a.axes[ai]
        ai += 1
        if isinstance(k, slice):
            off, nax = sym.slice_axis(ax, k)
            p = len(out_axes)
            out_axes.append(nax)
            src.append(lambda ix, off=off, p=p: off(ix[p]))
        elif isinstance(k, (NdArray, list, SymSeq)) or hasattr(k, "__vc_array__"):
            kn = _nd(k)
            if kn._dt == "bool":
                if len(kn.axes) != 1:
                    raise Unsupported("multi-dimensional boolean index")
                fk = kn.snap()
                base = ax.member
                if not same_axis(kn.axes[0], ax):
                    raise Unsupported("boolean index along different axis")

                def member(i, fk=fk, base=base):
                    t = tobool(fk([i]))
                    return t if base is None else K.and_(base(i), t)

                p = len(out_axes)
                out_axes.append(Axis(ax.size, member))
                src.append(lambda ix, p=p: ix[p])
            else:
                if adv is not None:
                    raise Unsupported("several index arrays")
                adv = True
                fk = kn.snap()
                p = len(out_axes)
                m = len(kn.axes)
                out_axes.extend(kn.axes)

                def g(ix, fk=fk, p=p, m=m, ax=ax):
                    t = sym.idx(fk(ix[p:p + m]))
                    return gather_index(t, ax)

                src.append(g)
        else:
            if ax.member is not None:
                raise Unsupported("integer index into a filtered axis")
            t = sym.norm_index(k, ax)
            check_index(t, ax)
            src.append(lambda ix, t=t: t)
    if not out_axes:
        return f([s([]) for s in src])
    r = NdArray(out_axes, lambda ix: f([s(ix) for s in src]), a._dt)
    if adv is None:
        r.base = a
    return r


def gather_index(t, ax):
    """index term into axis `ax` coming from an index array: decode ranks of filtered axes"""
    if ax.member is not None:
        if t.op == "app" and t.args[0].startswith("rank:"):
            return t.args[1]
        raise Unsupported("positional index into a filtered axis")
    return t


def check_index(t, ax):
    c = ax.const
    if c is not None and K.isconst(t):
        if not (0 <= K.cval(t) < c):
            raise IndexError("index out of bounds")
        return
    ok = K.and_(K.ge(t, K.num(0)), K.lt(t, ax.size))
    if ctx().entails(ok):
        return
    if not ctx().decide(ok):
        raise IndexError("index out of bounds")


def setitem(a, key, val):
    f = a.snap()
    if isinstance(key, NdArray) and key._dt == "bool" and len(key.axes) == len(a.axes) and len(key.axes) >= 1:
        fk = key.snap()
        vn = _as_nd(val)
        if vn is not None and vn.axes:
            raise Unsupported("boolean assignment of an array")
        v = scalar(val) if vn is None else vn.item()
        dt = a._dt
        a.set_elem(lambda ix: v_ite(tobool(fk(ix)), store(v, vn._dt if vn is not None else None, dt) if not (isinstance(v, Num) and v.nan is K.TRUE) else v, f(ix)))
        return
    if isinstance(key, NdArray):
        raise Unsupported("index-array assignment")
    key = _expand_key(key, len(a.axes))
    conds = []
    out_axes = []
    maps = []
    for j, k in enumerate(key):
        if k is None:
            raise Unsupported("newaxis assignment")
        ax = a.axes[j]
        if isinstance(k, slice):
            if k == slice(None):
                conds.append(lambda i: K.TRUE)
                maps.append(lambda i: i)
                out_axes.append(ax)
            else:
                off, nax = sym.slice_axis(ax, k)
                o0 = off(K.num(0))
                conds.append(lambda i, o0=o0, nax=nax: K.and_(K.ge(i, o0), K.lt(i, K.add(o0, nax.size))))
                maps.append(lambda i, o0=o0: K.sub(i, o0))
                out_axes.append(nax)
        elif isinstance(k, (NdArray, list)) or hasattr(k, "__vc_array__"):
            raise Unsupported("index-array assignment")
        else:
            t = sym.norm_index(k, ax)
            check_index(t, ax)
            conds.append(lambda i, t=t: K.eq(i, t))
            maps.append(None)
    vn = _as_nd(val)
    dt = a._dt

    def cv(v):
        if isinstance(v, Num) and v.nan is K.TRUE:
            return v
        return store(v, vn._dt if vn is not None else None, dt)

    if vn is None:
        v0 = scalar(val)
        getv = lambda ox: v0
    else:
        axs = broadcast_axes([tuple(out_axes), vn.axes])
        fv = vn.snap()
        n = len(out_axes)
        off = n - len(vn.axes)
        one = [ax.const == 1 and out_axes[off + j].const != 1 for j, ax in enumerate(vn.axes)]
        getv = lambda ox: fv([K.num(0) if o else i for i, o in zip(ox[off:], one)])

    def el(ix):
        c = K.and_(*[cf(i) for cf, i in zip(conds, ix)])
        if c is K.FALSE:
            return f(ix)
        ox = [mp(i) for mp, i in zip(maps, ix) if mp is not None]
        return v_ite(c, cv(getv(ox)), f(ix))

    a.set_elem(el)


# ------------------------------------------------------------------ reductions
def red_sum(ranges_axes, fn, skipna):
    """sum over axes; fn(idx list)->Num. Returns Num"""
    def body(ix):
        v = num(fn(ix))
        g = K.and_(*[a.inside(i) for a, i in zip(ranges_axes, ix)])
        if skipna:
            g = K.and_(g, K.not_(v.nan))
        return K.ite(g, v.t, K.num(0, v.t.sort))

    t = K.agg_sum([a.size for a in ranges_axes], body)
    nan = K.FALSE
    if not skipna:
        nan = K.agg_bool(
            "any",
            [a.size for a in ranges_axes],
            lambda ix: K.and_(*[a.inside(i) for a, i in zip(ranges_axes, ix)], num(fn(ix)).nan),
        )
    return Num(t, nan)


def red_count(axes, fn, skipna):
    def body(ix):
        g = K.and_(*[a.inside(i) for a, i in zip(axes, ix)])
        if skipna and fn is not None:
            g = K.and_(g, K.not_(is_nan(fn(ix))))
        return K.ite(g, K.num(1), K.num(0))

    return Num(K.agg_sum([a.size for a in axes], body))


def red_mean(axes, fn, skipna):
    s = red_sum(axes, fn, skipna)
    c = red_count(axes, fn, skipna)
    nan = s.nan
    if skipna or any(a.member is not None for a in axes):
        nan = K.or_(nan, K.eq(c.t, K.num(0)))
    return Num(K.div(s.t, c.t), nan)


def red_ext(kind, axes, fn, skipna):
    probe_int = [False]

    def guard(ix):
        g = K.and_(*[a.inside(i) for a, i in zip(axes, ix)])
        if skipna:
            g = K.and_(g, K.not_(is_nan(fn(ix))))
        return g

    sizes = [a.size for a in axes]
    if all(a.const is not None and a.const <= 16 for a in axes):
        items = [[]]
        for a in axes:
            items = [x + [K.num(i)] for x in items for i in range(a.const)]
        vals = [num(fn(x)) for x in items]
        r = vals[0]
        op = {("max", True): sym.n_fmax, ("min", True): sym.n_fmin,
              ("max", False): sym.n_max, ("min", False): sym.n_min}[(kind, skipna)]
        for v in vals[1:]:
            r = op(r, v)
        return r
    empty_ = K.not_(K.agg_bool("any", sizes, guard))
    if not skipna:
        empty_ = K.or_(empty_, K.agg_bool("any", sizes, lambda ix: K.and_(guard(ix), is_nan(fn(ix)))))
    t = K.agg_op(kind, sizes, lambda ix: [guard(ix), K.toreal(num(fn(ix)).t)])
    return Num(t, empty_)


def red_std(axes, fn, skipna, ddof=0):
    m = red_mean(axes, fn, skipna)
    sq = red_sum(axes, lambda ix: (num(fn(ix)) - m) * (num(fn(ix)) - m), skipna)
    c = red_count(axes, fn, skipna)
    nan = m.nan
    v = K.div(sq.t, K.sub(c.t, K.num(ddof)))
    return Num(K.app("sqrt", (v,), "R"), nan)


def red_bool(kind, axes, fn):
    def body(ix):
        b = tobool(fn(ix))
        if b is None:
            n = num(fn(ix))
            b = K.or_(n.nan, K.not_(K.eq(n.t, K.num(0, n.t.sort))))
        g = K.and_(*[a.inside(i) for a, i in zip(axes, ix)])
        return K.or_(K.not_(g), b) if kind == "all" else K.and_(g, b)

    return sb(K.agg_bool(kind, [a.size for a in axes], body))


def reduce(kind, axes, fn, skipna, ddof=0):
    if kind == "sum":
        return red_sum(axes, fn, skipna)
    if kind == "mean":
        return red_mean(axes, fn, skipna)
    if kind in ("max", "min"):
        return red_ext(kind, axes, fn, skipna)
    if kind == "std":
        return red_std(axes, fn, skipna, ddof)
    if kind == "var":
        s = red_std(axes, fn, skipna, ddof)
        return Num(s.t.args[1], s.nan)
    if kind in ("all", "any"):
        return red_bool(kind, axes, fn)
    if kind == "count":
        return red_count(axes, fn, skipna)
    raise Unsupported(kind)


def reduce_np(a, kind, axis, keepdims=False, skipna=False, ddof=0):
    a = _nd(a)
    n = len(a.axes)
    axl = list(range(n)) if axis is None else _axl(axis, n)
    f = a.snap()
    keep = [i for i in range(n) if i not in axl]
    raxes = [a.axes[i] for i in axl]

    def el(ix):
        def fn(rx):
            full_ = [None] * n
            for j, i in enumerate(keep):
                full_[i] = ix[j]
            for j, i in enumerate(axl):
                full_[i] = rx[j]
            return f(full_)

        return reduce(kind, raxes, fn, skipna, ddof)

    dt = "bool" if kind in ("all", "any") else ("float64" if kind in ("mean", "std", "var") else (a._dt if a._dt != "bool" else "int64"))
    if not keep and not keepdims:
        return el([])
    if keepdims:
        axes = [const_axis(1) if i in axl else a.axes[i] for i in range(n)]
        return NdArray(axes, lambda ix: el([ix[i] for i in keep]), dt)
    return NdArray([a.axes[i] for i in keep], el, dt)


def _red(kind, skipna=False):
    def fn(a, axis=None, keepdims=False, ddof=0, **k):
        if hasattr(a, "__vc_ufunc__"):
            if axis is None:
                if skipna:
                    return getattr(a, kind)()
                return getattr(a, kind)()
            raise Unsupported("np reduction of DataArray with axis")
        return reduce_np(a, kind, axis, keepdims, skipna, ddof)

    return fn


sum_n = _red("sum")
mean = _red("mean")
max_n = _red("max")
min_n = _red("min")
amax = max_n
amin = min_n
std = _red("std")
var = _red("var")
all_n = _red("all")
any_n = _red("any")
nansum = _red("sum", True)
nanmean = _red("mean", True)
nanmax = _red("max", True)
nanmin = _red("min", True)
nanstd = _red("std", True)


def average(a, axis=None, weights=None):
    if weights is None:
        return mean(a, axis)
    w = _nd(weights)
    return sum_n(_nd(a) * w, axis) / sum_n(w, axis)


def prod(a, axis=None):
    if isinstance(a, (tuple, list)) and axis is None:
        if not len(a):
            return 1.0
        r = 1
        for x in a:
            r = r * x
        return r
    a = _nd(a)
    if axis is None and len(a.axes) == 1 and a.axes[0].const is not None:
        r = 1
        for x in a:
            r = r * x
        return r
    raise Unsupported("prod")


def cumsum(a, axis=None):
    a = _nd(a)
    if len(a.axes) != 1 and axis is None:
        raise Unsupported("cumsum of flattened array")
    p = 0 if axis is None else axis % len(a.axes)
    f = a.snap()
    ax = a.axes[p]
    if ax.member is not None:
        raise Unsupported("cumsum of filtered axis")

    def el(ix):
        i = ix[p]

        def body(j):
            v = num(f(ix[:p] + j + ix[p + 1:]))
            return K.ite(K.le(j[0], i), v.t, K.num(0, v.t.sort))

        nan = K.agg_bool("any", [ax.size], lambda j: K.and_(K.le(j[0], i), num(f(ix[:p] + j + ix[p + 1:])).nan))
        return Num(K.agg_sum([ax.size], body), nan)

    return NdArray(a.axes, el, a._dt)


def diff(a, n=1, axis=-1, **k):
    if n != 1 or k:
        raise Unsupported("diff")
    a = _nd(a)
    p = axis % len(a.axes)
    f = a.snap()
    axes = list(a.axes)
    axes[p] = Axis(K.sub(axes[p].size, K.num(1)))

    def el(ix):
        jx = list(ix)
        jx[p] = K.add(ix[p], K.num(1))
        return f(jx) - f(ix)

    return NdArray(axes, el, a._dt)


def dot(a, b):
    a, b = _nd(a), _nd(b)
    fa, fb = a.snap(), b.snap()
    if not a.axes or not b.axes:
        return ew(b_mul, a, b)
    ca = len(a.axes) - 1
    cb = 0 if len(b.axes) == 1 else len(b.axes) - 2
    if not same_axis(a.axes[ca], b.axes[cb]):
        raise ValueError("shapes not aligned")
    r = a.axes[ca]
    ra = list(a.axes[:-1])
    rb = [x for i, x in enumerate(b.axes) if i != cb]

    def el(ix):
        ia, ib = ix[:len(ra)], ix[len(ra):]

        def fn(j):
            jb = list(ib)
            jb.insert(cb, j[0])
            return num(fa(ia + j)) * num(fb(jb))

        return red_sum([r], fn, False)

    if not ra and not rb:
        return el([])
    return NdArray(ra + rb, el, "float64")


matmul = dot
inner = dot


# ------------------------------------------------------------------ shape functions
def swapaxes(a, i, j):
    return _nd(a).swapaxes(i, j)


def transpose(a, axes=None):
    if hasattr(a, "__vc_ufunc__"):
        return a.transpose()
    return _nd(a).transpose(*(axes or ()))


def moveaxis(a, s, d):
    a = _nd(a)
    n = len(a.axes)
    p = list(range(n))
    s, d = s % n, d % n
    p.remove(s)
    p.insert(d, s)
    return a.transpose(*p)


def expand_dims(a, axis):
    a = _nd(a)
    n = len(a.axes) + 1
    axis = axis % n
    key = [slice(None)] * (n - 1)
    key.insert(axis, None)
    return a[tuple(key)]


def squeeze(a, axis=None):
    return _nd(a).squeeze(axis)


def ravel(a):
    return _nd(a).flatten()


def reshape_(a, shape, **k):
    if isinstance(shape, int):
        shape = (shape,)
    return _nd(a).reshape(tuple(shape))


def tile(a, reps):
    a = _nd(a)
    if isinstance(reps, (int, Num)):
        reps = (reps,)
    reps = list(reps)
    n = max(len(reps), len(a.axes))
    reps = [1] * (n - len(reps)) + reps
    while len(a.axes) < n:
        a = a[None]
    f = a.snap()
    axes = []
    maps = []
    for ax, r in zip(a.axes, reps):
        if isinstance(r, int) and r == 1:
            axes.append(ax)
            maps.append(lambda i: i)
        elif ax.const == 1:
            axes.append(const_axis(r) if isinstance(r, int) else Axis(sym.idx(r)))
            maps.append(lambda i: K.num(0))
        elif ax.const is not None and isinstance(r, int):
            c = ax.const
            axes.append(const_axis(c * r))
            maps.append(lambda i, c=c: K.imod(i, K.num(c)))
        else:
            raise Unsupported("tile of symbolic axis")
    return NdArray(axes, lambda ix: f([m(i) for m, i in zip(maps, ix)]), a._dt)


def repeat(a, n, axis=None):
    a = _nd(a)
    if axis is None and len(a.axes) != 1:
        raise Unsupported("repeat")
    p = 0 if axis is None else axis % len(a.axes)
    if a.axes[p].const == 1:
        f = a.snap()
        axes = list(a.axes)
        axes[p] = const_axis(n) if isinstance(n, int) else Axis(sym.idx(n))
        return NdArray(axes, lambda ix: f(ix[:p] + [K.num(0)] + ix[p + 1:]), a._dt)
    raise Unsupported("repeat")


def broadcast_to(a, shape):
    a = _nd(a)
    axes = _shape_axes(shape)
    off = len(axes) - len(a.axes)
    f = a.snap()
    one = []
    out = list(axes)
    for j, x in enumerate(a.axes):
        if x.const == 1:
            one.append(True)
        else:
            if not same_axis(x, axes[off + j]):
                raise ValueError("broadcast")
            one.append(False)
            out[off + j] = x
    return NdArray(out, lambda ix: f([K.num(0) if o else i for i, o in zip(ix[off:], one)]), a._dt)


def broadcast_arrays(*arrs):
    nds = [_nd(a) for a in arrs]
    axes = broadcast_axes([n.axes for n in nds])
    z = NdArray(axes, lambda ix: Num(K.num(0)), "int64")
    return PList(ew(lambda a, b: a, n, z) for n in nds)


def stack(arrs, axis=0):
    r = _array(list(arrs) if sym.seq_of(arrs) is None else arrs)
    return moveaxis(r, 0, axis) if axis != 0 else r


def concatenate(arrs, axis=0):
    nds = [_nd(a) for a in arrs]
    n = len(nds[0].axes)
    p = axis % n
    fs = [a.snap() for a in nds]
    sizes = [a.axes[p].size for a in nds]
    total = K.add(*sizes)
    axes = list(nds[0].axes)
    axes[p] = Axis(total)
    offs = [K.num(0)]
    for s in sizes:
        offs.append(K.add(offs[-1], s))

    def el(ix):
        i = ix[p]

        def at(k):
            return fs[k](ix[:p] + [K.sub(i, offs[k])] + ix[p + 1:])

        if K.isconst(i) and all(K.isconst(o) for o in offs):
            for k in range(len(fs)):
                if K.cval(i) < K.cval(offs[k + 1]):
                    return at(k)
        r = at(len(fs) - 1)
        for k in range(len(fs) - 2, -1, -1):
            r = v_ite(K.lt(i, offs[k + 1]), at(k), r)
        return r

    return NdArray(axes, el, promote(*[a._dt for a in nds]))


def hstack(arrs):
    nds = [_nd(a) for a in arrs]
    return concatenate(nds, 0 if len(nds[0].axes) == 1 else 1)


def vstack(arrs):
    nds = [_nd(a) for a in arrs]
    return concatenate([a[None] if len(a.axes) == 1 else a for a in nds], 0)


def column_stack(arrs):
    nds = [_nd(a) for a in arrs]
    return concatenate([a[:, None] if len(a.axes) == 1 else a for a in nds], 1)


def append(a, b, axis=None):
    return concatenate([_nd(a), _nd(b)], 0 if axis is None else axis)


def atleast_1d(a):
    a = _nd(a)
    return a if a.axes else a[None]


def flip(a, axis=None):
    raise Unsupported("flip")


def roll(a, *k, **kw):
    raise Unsupported("roll")


def outer(a, b):
    a, b = _nd(a), _nd(b)
    return a[:, None] * b[None, :]


def einsum(subs, *ops, **k):
    if not isinstance(subs, str) or k.get("optimize") not in (None, False, True) or set(k) - {"optimize"}:
        raise Unsupported("einsum")
    lhs, arrow, out = subs.replace(" ", "").partition("->")
    ins = lhs.split(",")
    if "." in subs or len(ins) != len(ops):
        raise Unsupported("einsum")
    if not arrow:
        allc = "".join(ins)
        out = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
    arrs = [_nd(o) for o in ops]
    ax = {}
    for t, a in zip(ins, arrs):
        if len(t) != len(a.axes):
            raise ValueError("einstein sum subscripts string does not match the operands")
        for c, x in zip(t, a.axes):
            if c in ax and not same_axis(ax[c], x):
                if 1 in (ax[c].const, x.const):
                    raise Unsupported("einsum broadcasting")
                raise ValueError("operands could not be broadcast together")
            ax.setdefault(c, x)
    if len(set(out)) != len(out) or set(out) - set(ax):
        raise ValueError("einstein sum output subscripts")
    fs = [a.snap() for a in arrs]
    red = [c for c in ax if c not in out]

    def el(ix):
        env = dict(zip(out, ix))

        def fn(j):
            e = {**env, **dict(zip(red, j))}
            v = None
            for f, t in zip(fs, ins):
                w = num(f([e[c] for c in t]))
                v = w if v is None else v * w
            return v

        return red_sum([ax[c] for c in red], fn, False) if red else fn([])

    return NdArray([ax[c] for c in out], el, "float64") if out else el([])


def unique(*a, **k):
    raise Unsupported("unique")


def sort(*a, **k):
    raise Unsupported("sort")


def argsort(*a, **k):
    raise Unsupported("argsort")


def argmin(*a, **k):
    raise Unsupported("argmin")


def vectorize(f, **k):
    return lambda *a: ew(f, *a)


def apply_along_axis(func, axis, arr, *args, **kw):
    arr = _nd(arr)
    n = len(arr.axes)
    p = axis % n
    f = arr.snap()
    others = [i for i in range(n) if i != p]

    def run(ox):
        def el(ix):
            full_ = [None] * n
            for j, i in enumerate(others):
                full_[i] = ox[j]
            full_[p] = ix[0]
            return f(full_)

        return func(NdArray([arr.axes[p]], el, arr._dt), *args, **kw)

    vs = [K.fresh("ap", "I") for _ in others]
    c = ctx()
    lp = [sym.begin_loop(SymSeq(arr.axes[i], lambda j: None)) for i in others]
    vs = [l.var for l in lp]
    try:
        r = run(vs)
    except BaseException:
        if lp:
            sym.abort_loop(lp[0])
        raise
    for l in reversed(lp):
        sym.end_loop(l)
    rn = _as_nd(r)
    if rn is None:
        return NdArray(
            [arr.axes[i] for i in others],
            lambda ix: sym.subst_val(r, dict(zip(vs, ix))),
            val_kind(r),
        )
    if len(rn.axes) != 1:
        raise Unsupported("apply_along_axis result rank")
    axes = [arr.axes[i] for i in range(n)]
    axes[p] = rn.axes[0]
    fr = rn.snap()

    def el(ix):
        m = dict(zip(vs, [ix[i] for i in others]))
        return sym.subst_val(fr([ix[p]]), m)

    return NdArray(axes, el, rn._dt)


# ------------------------------------------------------------------ ufuncs
def _uf(fn, dtype=None):
    def u(*args, where=True, out=None, dtype=None, **k):
        if out is not None or where is not True or k:
            raise Unsupported("ufunc keyword")
        for a in args:
            if hasattr(a, "__vc_ufunc__"):
                return a.__vc_ufunc__(fn, args, True)
        return ew(fn, *args)

    return u


def _f1(f):
    return lambda a: f(num(a))


sin = _uf(_f1(sym.n_sin))
cos = _uf(_f1(sym.n_cos))
tan = _uf(_f1(lambda a: sym.n_sin(a) / sym.n_cos(a)))
sqrt = _uf(_f1(sym.n_sqrt))
log = _uf(_f1(sym.n_log))
exp = _uf(_f1(lambda a: sym.n_app("exp", a)))
arctan = _uf(_f1(lambda a: sym.n_odd("arctan", a)))
arcsin = _uf(_f1(lambda a: sym.n_odd("arcsin", a)))
arccos = _uf(_f1(lambda a: sym.n_app("arccos", a)))
arctan2 = _uf(lambda a, b: sym.n_app("arctan2", num(a), num(b)))
log10 = _uf(_f1(lambda a: sym.n_app("log10", a)))
log1p = _uf(_f1(lambda a: sym.n_log(a + Num(K.num(1)))))
log2 = _uf(_f1(lambda a: sym.n_app("log2", a)))
expm1 = _uf(_f1(lambda a: sym.n_app("exp", a) - Num(K.num(1))))
sinh = _uf(_f1(lambda a: sym.n_app("sinh", a)))
cosh = _uf(_f1(lambda a: sym.n_app("cosh", a)))
tanh = _uf(_f1(lambda a: sym.n_app("tanh", a)))
cbrt = _uf(_f1(lambda a: sym.n_app("cbrt", a)))
hypot = _uf(lambda a, b: sym.n_sqrt(num(a) * num(a) + num(b) * num(b)))
degrees = _uf(_f1(lambda a: a * Num(K.num(180)) / sym.PI))
rad2deg = degrees
radians = _uf(_f1(lambda a: a * sym.PI / Num(K.num(180))))
deg2rad = radians
absolute = _uf(_f1(lambda a: Num(K.abs_(a.t), a.nan)))
abs_ = absolute
fabs = absolute
negative = _uf(lambda a: -a)
positive = _uf(lambda a: a)
square = _uf(_f1(lambda a: a * a))
reciprocal = _uf(_f1(lambda a: Num(K.num(1, "R")) / a))
add = _uf(b_add)
subtract = _uf(b_sub)
multiply = _uf(b_mul)
divide = _uf(b_div)
true_divide = divide
floor_divide = _uf(b_fdiv)
mod = _uf(b_mod)
remainder = mod
power = _uf(b_pow)
float_power = power
minimum = _uf(lambda a, b: sym.n_min(num(a), num(b)))
maximum = _uf(lambda a, b: sym.n_max(num(a), num(b)))
fmin = _uf(lambda a, b: sym.n_fmin(num(a), num(b)))
fmax = _uf(lambda a, b: sym.n_fmax(num(a), num(b)))
isnan = _uf(lambda a: sb(is_nan(num(a))))
isfinite = _uf(lambda a: sb(K.not_(is_nan(num(a)))))
isinf = _uf(lambda a: False)
logical_and = _uf(lambda a, b: sb(K.and_(_tb(a), _tb(b))))
logical_or = _uf(lambda a, b: sb(K.or_(_tb(a), _tb(b))))
logical_not = _uf(lambda a: sb(K.not_(_tb(a))))
logical_xor = _uf(lambda a, b: sb(K.not_(K.iff(_tb(a), _tb(b)))))
invert = _uf(v_not)
bitwise_and = _uf(b_and)
bitwise_or = _uf(b_or)
less = _uf(b_lt)
less_equal = _uf(b_le)
greater = _uf(b_gt)
greater_equal = _uf(b_ge)
equal = _uf(b_eq)
not_equal = _uf(b_ne)
floor = _uf(_f1(lambda a: Num(K.toreal(K.floor(a.t)), a.nan)))
ceil = _uf(_f1(lambda a: Num(K.toreal(K.neg(K.floor(K.neg(a.t)))), a.nan)))
trunc = _uf(_f1(lambda a: Num(K.toreal(trunc_t(a.t)), a.nan)))
sign = _uf(_f1(lambda a: Num(K.ite(K.lt0(a.t), K.num(-1, a.t.sort), K.ite(K.lt0(K.neg(a.t)), K.num(1, a.t.sort), K.num(0, a.t.sort))), a.nan)))
isnull = isnan


def _tb(a):
    b = tobool(a)
    if b is None:
        n = num(a)
        b = K.or_(n.nan, K.not_(K.eq(n.t, K.num(0, n.t.sort))))
    return b


def nan_to_num(a, nan=0.0, **k):
    return _uf(_f1(lambda x: v_ite(x.nan, num(nan), Num(x.t))))(a)


def clip(a, lo=None, hi=None, **k):
    lo = k.get("a_min", lo)
    hi = k.get("a_max", hi)
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def where(c, *xy):
    if len(xy) != 2:
        raise Unsupported("np.where with one argument")
    x, y = xy
    for a in (c, x, y):
        if hasattr(a, "__vc_ufunc__"):
            raise Unsupported("np.where of DataArray")
    return ew(lambda c, x, y: v_ite(_tb(c), *_common(x, y)), c, x, y)


def _common(x, y):
    """numpy result-type promotion for a two-way select"""
    if isinstance(x, (bool, SymBool)) and isinstance(y, (bool, SymBool)):
        return x, y
    a, b = tonum(x), tonum(y)
    if a is None or b is None:
        return x, y
    return a, b


def select(*a, **k):
    raise Unsupported("np.select")


def piecewise(*a, **k):
    raise Unsupported("np.piecewise")


def array_equal(a, b):
    a, b = _nd(a), _nd(b)
    if len(a.axes) != len(b.axes):
        return False
    for x, y in zip(a.axes, b.axes):
        if not same_axis(x, y):
            if x.member is None and y.member is None and ctx().decide(K.eq(x.size, y.size)):
                continue
            return False
    return reduce_np(ew(b_eq, a, b), "all", None)


def isclose(*a, **k):
    raise Unsupported("np.isclose")


allclose = isclose


def shape(a):
    return _nd(a).shape


def ndim(a):
    return len(_nd(a).axes)


def size(a):
    return _nd(a).size


def isscalar(a):
    return tonum(a) is not None and not isinstance(a, NdArray)


def issubdtype(a, b):
    k = DType(a).kind
    n = b.dtname if isinstance(b, ScalarType) else DType(b).name
    if n == "floating":
        return k == "f"
    if n == "integer":
        return k in "iu"
    if n == "number":
        return k in "fiu"
    if n in ("datetime64",):
        return k == "M"
    if n in ("timedelta64",):
        return k == "m"
    return DType(a).name == n


def gradient(f, *x, axis=None, edge_order=1):
    """assumed: opaque finite-difference operator along one axis"""
    f = _nd(f)
    if len(f.axes) == 1 and axis is None:
        axis = 0
    if axis is None or len(x) != 1:
        raise Unsupported("np.gradient form")
    p = axis % len(f.axes)
    xa = _nd(x[0])
    if len(xa.axes) != 1:
        raise Unsupported("np.gradient spacing")
    ff, fx = f.snap(), xa.snap()
    return NdArray(
        f.axes,
        lambda ix: grad_elem(lambda k: ff(ix[:p] + [k] + ix[p + 1:]), lambda k: fx([k]), f.axes[p], ix[p], edge_order),
        "float64",
    )


def grad_elem(f, x, ax, i, edge_order):
    """finite-difference derivative at index i of f over coordinate x (np.gradient contract)"""
    if ax.member is not None:
        raise Unsupported("gradient along filtered axis")
    n = ax.size
    one = K.num(1)

    def at(k):
        return num(f(k))

    def xx(k):
        return num(x(k))

    im, ip = K.sub(i, one), K.add(i, one)
    hd = xx(i) - xx(im)
    hs = xx(ip) - xx(i)
    inner_ = (hd * hd * at(ip) + (hs * hs - hd * hd) * at(i) - hs * hs * at(im)) / (hd * hs * (hd + hs))
    if edge_order == 1:
        z, o = K.num(0), K.num(1)
        first = (at(o) - at(z)) / (xx(o) - xx(z))
        l1, l2 = K.sub(n, K.num(1)), K.sub(n, K.num(2))
        last = (at(l1) - at(l2)) / (xx(l1) - xx(l2))
    elif edge_order == 2:
        k0, k1, k2 = K.num(0), K.num(1), K.num(2)
        d1, d2 = xx(k1) - xx(k0), xx(k2) - xx(k1)
        first = (
            at(k0) * (-(Num(K.num(2)) * d1 + d2) / (d1 * (d1 + d2)))
            + at(k1) * ((d1 + d2) / (d1 * d2))
            + at(k2) * (-d1 / (d2 * (d1 + d2)))
        )
        l1, l2, l3 = K.sub(n, K.num(1)), K.sub(n, K.num(2)), K.sub(n, K.num(3))
        d1, d2 = xx(l2) - xx(l3), xx(l1) - xx(l2)
        last = (
            at(l3) * (d2 / (d1 * (d1 + d2)))
            + at(l2) * (-(d2 + d1) / (d1 * d2))
            + at(l1) * ((Num(K.num(2)) * d2 + d1) / (d2 * (d1 + d2)))
        )
    else:
        raise Unsupported("edge_order")
    return v_ite(K.eq(i, K.num(0)), first, v_ite(K.eq(i, K.sub(n, one)), last, inner_))


def polyfit(x, y, deg, **k):
    raise Unsupported("np.polyfit")


def lstsq(*a, **k):
    raise Unsupported("lstsq")


def pinv(m, *a, **k):
    """assumed: Moore-Penrose pseudo-inverse, an opaque function of the matrix"""
    m = _nd(m)
    if a or k or len(m.axes) != 2:
        raise Unsupported("pinv arguments")
    f = m.snap()
    r, c = m.axes
    if r.const is None or c.member is not None:
        raise Unsupported("pinv of a matrix with symbolic row count")

    def el(ix):
        return pinv_elem(lambda j, k: f([K.num(j), k]), r.const, c, ix[0], ix[1])

    return NdArray([c, r], el, "float64")


def pinv_elem(rows, nrow, cax, t, c):
    """element (t, c) of the pseudo-inverse of the nrow x n matrix rows(j, k)"""
    def bodies(ix):
        return [K.toreal(num(rows(j, ix[0])).t) for j in range(nrow)] + [K.toreal(t), K.toreal(c)]

    return Num(K.agg_op("pinv", [cax.size], bodies))


def _norm(*a, **k):
    raise Unsupported("norm")


def _dask_blocks(a, func, chunks, kw):
    """dask block-wise application: func sees one block at a time.  Supported
    when the core (last) axis is one chunk: a generic block covers a slab of the
    leading axes, and the result is required not to depend on the block bounds."""
    ch = a.chunks_
    if ch is None:
        raise AttributeError("map_overlap")
    n = len(a.axes)
    f = a.snap()
    c = ctx()
    if isinstance(ch[-1], tuple):
        whole = len(ch[-1]) == 1
    else:
        nch = num(ch[-1].__vc_len__()).t
        whole = c.entails(K.eq(nch, K.num(1)))
    # generic block: start and size along every leading axis
    # (and along the last axis, when that is cut too)
    starts, sizes = [], []
    facts = []
    for i in range(n):
        if i == n - 1 and whole:
            starts.append(K.num(0))
            sizes.append(a.axes[-1].size)
            continue
        s, z = K.fresh("bs", "I"), K.fresh("bz", "I")
        starts.append(s)
        sizes.append(z)
        facts += [K.ge(s, K.num(0)), K.ge(z, K.num(1)), K.le(K.add(s, z), a.axes[i].size)]
    for x in facts:
        c.assume(x)
    baxes = [Axis(z) for z in sizes[:-1]] + [a.axes[-1] if whole else Axis(sizes[-1])]
    block = NdArray(baxes, lambda ix: f([K.add(i, s) for i, s in zip(ix, starts)]), a._dt)
    r = func(block, **kw)
    r = _nd(r)
    if len(r.axes) != n:
        raise Unsupported("block result rank")
    for x, y in zip(r.axes[:-1], baxes[:-1]):
        if not same_axis(x, y):
            raise Unsupported("block result shape")
    fr = r.snap()
    last = r.axes[-1]
    if not whole:
        if not same_axis(last, baxes[-1]):
            raise Unsupported("block result shape along the cut axis")
        last = a.axes[-1]
    free = set(starts[:-1] + sizes[:-1])

    def el(ix):
        # the block containing index i, at local position i - start
        v = fr([K.sub(i, s) for i, s in zip(ix, starts)])
        for t in _val_terms(v):
            if K.subterms([t]) & free:
                raise Unsupported("block result depends on the chunking")
        return v

    out = NdArray(list(a.axes[:-1]) + [last], el, a._dt)
    out.chunks_ = tuple(ch[:-1]) + ((last.length(),),)
    return out


def _val_terms(v):
    if isinstance(v, Num):
        return [v.t, v.nan]
    if isinstance(v, SymBool):
        return [v.t]
    return []


class _Rng:
    """assumed: a deterministic pseudo-random stream, a function of the seed and
    the sequence of draws"""

    def __init__(self, seed):
        self.seed = num(seed)
        self.n = 0

    def _draw(self, kind, params, size):
        axes = [] if size is None else _shape_axes(size)
        k = self.n
        self.n += 1
        ps = tuple(K.toreal(num(p).t) for p in params)
        # NB positions in a draw depend only on the flat index
        seed = K.toreal(self.seed.t)

        def el(ix):
            return Num(K.app(f"rng_{kind}_{k}_{len(ix)}", (seed,) + ps + tuple(ix), "R"))

        if not axes:
            return el([])
        return NdArray(axes, el, "float64")

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._draw("normal", (loc, scale), size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._draw("uniform", (low, high), size)

    def random(self, size=None):
        return self._draw("uniform", (0, 1), size)

    def __getattr__(self, k):
        raise Unsupported(f"rng.{k}")


def build():
    """the module object seen by the code under verification"""
    m = _types.ModuleType("numpy")
    g = globals()
    skip = {"K", "sym", "ctx", "num", "tonum", "tobool", "sb", "v_ite", "is_nan", "const_axis",
            "same_axis", "Unsupported", "build"}
    for k, v in g.items():
        if k.startswith("_") or k in skip:
            continue
        setattr(m, k, v)
    m.ndarray = NdArray
    m.dtype = DType
    m.pi = sym.PI
    m.nan = NAN
    m.NaN = NAN
    m.e = sym.n_app("exp", Num(K.num(1)))
    m.newaxis = None
    m.abs = absolute
    m.sum, m.max, m.min, m.all, m.any = sum_n, max_n, min_n, all_n, any_n
    m.reshape = reshape_
    m.round = m.around = lambda a, decimals=0, **k: round_(a, decimals)
    m.float_ = float64
    m.bool_ = bool_
    m.generic = number
    m.linalg = _types.SimpleNamespace(pinv=pinv, lstsq=lstsq, norm=_norm)
    m.random = _types.SimpleNamespace(default_rng=lambda seed=None: _Rng(seed))
    m.ma = _Missing("numpy.ma")
    m.testing = _Missing("numpy.testing")
    m.errstate = lambda **k: _NullCtx()
    m.seterr = lambda **k: {}
    m.vc_missing = True
    m.__getattr__ = _missing_attr
    m.datetime64 = ScalarType("datetime64")
    m.timedelta64 = ScalarType("timedelta64")

    class _Inf:
        pass

    return m


def _missing_attr(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise Unsupported(f"numpy.{name}")


class _NullCtx:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _Missing:
    def __init__(self, n):
        self.n = n

    def __getattr__(self, k):
        raise Unsupported(f"{self.n}.{k}")


