"""Shadow pandas tables, the sklearn BallTree contract and the small file-system
surface the tide-gauge code uses."""
from . import terms as K
from . import sym, snp, sxr
from .sym import Unsupported, Num, num, tonum, tobool, sb, ctx, Axis, SymSeq, PList, SymBool
from .snp import NdArray, const_axis
from .sxr import _NS


def _depends(v, t):
    """does the value mention the term t?"""
    w = K.fresh("dp", t.sort)
    a, b = v, sym.subst_val(v, {t: w})
    return not _same(a, b)


def _same(a, b):
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, Num):
        return isinstance(b, Num) and a.t is b.t and a.nan is b.nan
    if isinstance(a, SymBool):
        return isinstance(b, SymBool) and a.t is b.t
    if isinstance(a, (sym.DtVal, sym.TdVal)):
        return a.t is b.t
    return type(a) is type(b) and a == b


def raveled(axes):
    """row axis of a table made from a multi-dimensional array"""
    if len(axes) == 1:
        return axes[0]
    a = Axis(K.mul(*[x.size for x in axes]))
    a.src = tuple(axes)
    return a


def src_axes(ax):
    return ax.src if getattr(ax, "src", None) else (ax,)


def filtered(ax, pred):
    base = ax.member
    r = Axis(ax.size, (lambda i: pred(i)) if base is None else (lambda i: K.and_(base(i), pred(i))))
    r.src = getattr(ax, "src", None)
    return r


def same_rows(a, b):
    if a is b:
        return True
    if src_axes(a) != (a,) or src_axes(b) != (b,):
        sa, sb_ = src_axes(a), src_axes(b)
        if len(sa) != len(sb_) or not all(sym.same_axis(x, y) for x, y in zip(sa, sb_)):
            return False
        if a.member is None and b.member is None:
            return True
        if a.member is None or b.member is None:
            return False
        vs = [K.fresh("ax", "I") for _ in sa]
        r = snp.ravel_t(vs, sa)
        x, y = a.member(r), b.member(r)
        if x is y:
            return True
        c = ctx()
        g = [K.and_(K.ge(v, K.num(0)), K.lt(v, s.size)) for v, s in zip(vs, sa)]
        return bool(c.prover.prove(c.all_facts() + g, K.iff(x, y), quick=True))
    return sym.same_axis(a, b)


class Columns:
    __vc_shadow__ = True

    def __init__(self, names):
        self.names = list(names)

    def __iter__(self):
        return iter(self.names)

    def __len__(self):
        return len(self.names)

    def __contains__(self, k):
        return k in self.names

    def __getitem__(self, k):
        return self.names[k]

    def tolist(self):
        return PList(self.names)

    to_list = tolist

    @property
    def values(self):
        return self.tolist()

    def duplicated(self, keep="first"):
        n = self.names
        if keep == "first":
            return ColMask([n.index(x) < i for i, x in enumerate(n)])
        if keep == "last":
            return ColMask([x in n[i + 1:] for i, x in enumerate(n)])
        if keep is False:
            return ColMask([n.count(x) > 1 for x in n])
        raise Unsupported("duplicated(keep)")

    def isin(self, xs):
        return ColMask([x in list(xs) for x in self.names])

    @property
    def is_unique(self):
        return len(set(self.names)) == len(self.names)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"DataFrame.columns.{k}")


class ColMask:
    __vc_shadow__ = True

    def __init__(self, m):
        self.m = list(m)

    def __invert__(self):
        return ColMask([not x for x in self.m])

    def __iter__(self):
        return iter(self.m)

    def any(self):
        return any(self.m)

    def all(self):
        return all(self.m)

    def __bool__(self):
        raise ValueError("The truth value of an array is ambiguous")


class RowIndex:
    __vc_shadow__ = True

    def __init__(self, axis, fn, names):
        self._axis, self._fn, self._names = axis, fn, tuple(names)

    @property
    def names(self):
        return PList(self._names)

    @property
    def name(self):
        return self._names[0] if len(self._names) == 1 else None

    @property
    def values(self):
        return NdArray([self._axis], lambda ix: self._fn(ix[0]), "object" if len(self._names) > 1 else _kind(self._axis, self._fn))

    def to_numpy(self):
        return self.values

    def tolist(self):
        r = PList()
        r.sym = self.__vc_seq__()
        return r

    to_list = tolist

    def __getitem__(self, k):
        if isinstance(k, (Series, NdArray)):
            p = _positions(k, self._axis)
            return RowIndex(p[0], lambda i: self._fn(p[1](i)), self._names)
        raise Unsupported("index subscript")

    def take(self, k):
        return self[snp.asarray(k)]

    def __vc_array__(self):
        return self.values

    def __vc_len__(self):
        return self._axis.length()

    def __vc_seq__(self):
        return SymSeq(self._axis, self._fn)

    def __iter__(self):
        return iter(self.__vc_seq__())

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"pandas Index.{k}")


def _kind(axis, fn):
    try:
        return snp.val_kind(fn(K.fresh("p", "I")))
    except Unsupported:
        raise
    except Exception:
        return "object"


POS = []  # trees' row axes, for decoding positions


def _positions(k, axis):
    """(new row axis, base-row function) of positional selection in a table with this row axis"""
    nd = k.__vc_array__() if isinstance(k, (Series, RowIndex)) else snp._nd(k)
    if len(nd.axes) == 2 and nd.axes[1].const == 1:
        f0 = nd.snap()
        nd = NdArray([nd.axes[0]], lambda ix: f0([ix[0], K.num(0)]), nd._dt)
    if len(nd.axes) != 1:
        raise Unsupported("positional selection")
    f = nd.snap()
    base = {}

    def at(i):
        p = num(f([i]))
        if not p.isint:
            raise Unsupported("non-integer position")
        t = p.t
        if t.op == "app" and t.args[0].startswith("nnpos:"):
            ax = POS[int(t.args[0][6:])]
            key = t.args[0]
            if key not in base:
                base[key] = same_rows(ax, axis)
            if base[key]:
                return t.args[1]
        if axis.member is not None:
            if t.op == "app" and t.args[0].startswith("rank:"):
                return t.args[1]
            raise Unsupported("position in a filtered table")
        return t

    # every selected position must exist
    if axis.member is None:
        v = K.fresh("ps", "I")
        c = ctx()
        n0 = len(c.path)
        c.path.append(nd.axes[0].guard(v))
        try:
            t = at(v)
            ok = c.entails(K.and_(K.ge(t, K.num(0)), K.lt(t, axis.size)))
        finally:
            del c.path[n0:]
        if not ok and not (t.op == "app" and t.args[0].startswith(("nnpos:", "ravel:"))):
            raise Unsupported("position may be out of range")
    return nd.axes[0], at


class Series:
    __vc_shadow__ = True
    __hash__ = None

    def __init__(self, axis, fn, name=None, index=None, names=(None,)):
        self._axis, self._fn, self.name = axis, fn, name
        self._index = index if index is not None else (lambda i: Num(i))
        self._inames = tuple(names)

    def _like(self, fn, name=0):
        return Series(self._axis, fn, self.name if name == 0 else name, self._index, self._inames)

    @property
    def values(self):
        f = self._fn
        return NdArray([self._axis], lambda ix: f(ix[0]), _kind(self._axis, f))

    def to_numpy(self, *a, **k):
        if a or k:
            raise Unsupported("to_numpy options")
        return self.values

    def __vc_array__(self):
        return self.values

    @property
    def index(self):
        return RowIndex(self._axis, self._index, self._inames)

    @property
    def dtype(self):
        return snp.DType(_kind(self._axis, self._fn))

    @property
    def size(self):
        return self._axis.length()

    @property
    def shape(self):
        return (self._axis.length(),)

    @property
    def iloc(self):
        return _ILoc(self)

    @property
    def loc(self):
        return _SLoc(self)

    def tolist(self):
        r = PList()
        r.sym = self.__vc_seq__()
        return r

    to_list = tolist

    def copy(self, deep=True):
        return self._like(self._fn)

    def astype(self, dt, **k):
        f = self._fn
        d = snp.DType(dt).name if not isinstance(dt, str) else dt
        return self._like(lambda i: snp.cast_val(f(i), d))

    def rename(self, name=None):
        return self._like(self._fn, name)

    def isnull(self):
        f = self._fn
        return self._like(lambda i: sb(sym.is_nan(f(i))))

    isna = isnull

    def notnull(self):
        f = self._fn
        return self._like(lambda i: sb(K.not_(sym.is_nan(f(i)))))

    notna = notnull

    def fillna(self, v):
        f = self._fn
        return self._like(lambda i: sym.v_ite(sym.is_nan(f(i)), num(v), f(i)))

    def between(self, lo, hi, inclusive="both"):
        if inclusive != "both":
            raise Unsupported("between(inclusive)")
        return (self >= lo) & (self <= hi)

    def map(self, f, **k):
        g = self._fn
        if k or isinstance(f, dict):
            raise Unsupported("Series.map")
        s = sym.sym_map(f, SymSeq(self._axis, g))
        return self._like(s.item)

    apply = map

    def sum(self):
        return snp.red_sum([self._axis], lambda ix: num(self._fn(ix[0])), True)

    def min(self):
        return snp.red_ext("min", [self._axis], lambda ix: num(self._fn(ix[0])), True)

    def max(self):
        return snp.red_ext("max", [self._axis], lambda ix: num(self._fn(ix[0])), True)

    def any(self):
        return snp.red_bool("any", [self._axis], lambda ix: self._fn(ix[0]))

    def all(self):
        return snp.red_bool("all", [self._axis], lambda ix: self._fn(ix[0]))

    def __getitem__(self, k):
        if isinstance(k, Series):
            return self.loc[k]
        raise Unsupported("Series subscript")

    def __vc_len__(self):
        return self._axis.length()

    def __len__(self):
        n = self._axis.length()
        if isinstance(n, int):
            return n
        raise Unsupported("len of symbolic Series")

    def __vc_seq__(self):
        return SymSeq(self._axis, self._fn)

    def __iter__(self):
        return iter(self.__vc_seq__())

    def __bool__(self):
        raise ValueError("The truth value of a Series is ambiguous.")

    def __vc_ufunc__(self, fn, args, keep):
        parts = []
        for a in args:
            if isinstance(a, Series):
                if not same_rows(a._axis, self._axis):
                    raise Unsupported("Series of different rows")
                parts.append(lambda i, a=a: a._fn(i))
            elif snp._as_nd(a) is not None:
                nd = snp._as_nd(a)
                if not nd.axes:
                    parts.append(lambda i, nd=nd: nd.elem([]))
                elif len(nd.axes) == 1 and same_rows(nd.axes[0], self._axis):
                    parts.append(lambda i, nd=nd: nd.elem([i]))
                else:
                    raise Unsupported("Series with array of other length")
            else:
                v = snp.scalar(a)
                parts.append(lambda i, v=v: v)
        return self._like(lambda i: fn(*[p(i) for p in parts]))

    def __invert__(self):
        f = self._fn
        return self._like(lambda i: snp.v_not(f(i)))

    def __neg__(self):
        f = self._fn
        return self._like(lambda i: -f(i))

    def __abs__(self):
        f = self._fn
        return self._like(lambda i: abs(f(i)))

    def abs(self):
        return abs(self)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"Series.{k}")


def _sop(fn, sw=False):
    def op(self, o):
        if isinstance(o, str):
            if fn is snp.b_eq or fn is snp.b_ne:
                raise Unsupported("string comparison in a table")
        if isinstance(o, (DataFrame, dict)) or o is None:
            raise Unsupported("Series operand")
        return self.__vc_ufunc__((lambda a, b: fn(b, a)) if sw else fn, [self, o], True)

    return op


for _n, _f in (("add", snp.b_add), ("sub", snp.b_sub), ("mul", snp.b_mul), ("truediv", snp.b_div), ("pow", snp.b_pow),
               ("floordiv", snp.b_fdiv), ("mod", snp.b_mod), ("and", snp.b_and), ("or", snp.b_or), ("xor", snp.b_xor)):
    setattr(Series, f"__{_n}__", _sop(_f))
    setattr(Series, f"__r{_n}__", _sop(_f, True))
for _n, _f in (("lt", snp.b_lt), ("le", snp.b_le), ("gt", snp.b_gt), ("ge", snp.b_ge), ("eq", snp.b_eq), ("ne", snp.b_ne)):
    setattr(Series, f"__{_n}__", _sop(_f))
    setattr(Series, _n, _sop(_f))


class Row:
    """one row of iterrows()"""

    __vc_shadow__ = True

    def __init__(self, items, name):
        self._i = list(items)
        self.name = name

    def __getitem__(self, k):
        for n, v in self._i:
            if n == k:
                return v
        raise KeyError(k)

    def get(self, k, d=None):
        return self[k] if k in self.keys() else d

    def keys(self):
        return [n for n, _ in self._i]

    @property
    def index(self):
        return self.keys()

    def items(self):
        return PList(self._i)

    def to_dict(self):
        return sym.PDict(self._i)

    def __contains__(self, k):
        return k in self.keys()

    def __iter__(self):
        return iter([v for _, v in self._i])

    def drop(self, names, errors="raise"):
        names = [names] if isinstance(names, str) else list(names)
        return Row([(n, v) for n, v in self._i if n not in names], self.name)

    def __vc_rowdict__(self):
        return dict(self._i)

    def __vc_subst__(self, m):
        return Row([(n, sym.subst_val(v, m)) for n, v in self._i], sym.subst_val(self.name, m))

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        for n, v in self._i:
            if n == k:
                return v
        raise AttributeError(k)


class _Loc:
    __vc_shadow__ = True

    def __init__(self, df):
        self.df = df

    def __getitem__(self, k):
        rows, cols = k if isinstance(k, tuple) else (k, slice(None))
        d = self.df
        if not (isinstance(rows, slice) and rows == slice(None)):
            if isinstance(rows, (Series, NdArray)):
                d = d._filter(rows)
            else:
                raise Unsupported("loc rows")
        if isinstance(cols, slice) and cols == slice(None):
            return d if d is not self.df else d.copy()
        if isinstance(cols, ColMask):
            if len(cols.m) != len(d._cols):
                raise IndexError("Boolean index has wrong length")
            return d._with([c for c, m in zip(d._cols, cols.m) if m])
        return d[cols if isinstance(cols, str) else list(cols)]

    def __setitem__(self, k, v):
        rows, cols = k if isinstance(k, tuple) else (None, None)
        if isinstance(rows, slice) and rows == slice(None) and isinstance(cols, str):
            self.df[cols] = v
            return
        raise Unsupported("loc assignment")


class _ILoc:
    __vc_shadow__ = True

    def __init__(self, df):
        self.df = df

    def __getitem__(self, k):
        d = self.df
        if isinstance(k, (Series, NdArray, RowIndex, SymSeq)) or isinstance(k, list):
            ax, at = _positions(k if not isinstance(k, (list, SymSeq)) else snp.asarray(k), d._axis)
            if isinstance(d, Series):
                return Series(ax, lambda i: d._fn(at(i)), d.name, lambda i: d._index(at(i)), d._inames)
            return DataFrame._mk(ax, [[n, (lambda i, f=f: f(at(i)))] for n, f in d._cols], lambda i: d._index(at(i)), d._inames)
        if isinstance(k, slice) and d._axis.member is None:
            at, ax = sym.slice_axis(d._axis, k)
            if isinstance(d, Series):
                return Series(ax, lambda i: d._fn(at(i)), d.name, lambda i: d._index(at(i)), d._inames)
            return DataFrame._mk(ax, [[n, (lambda i, f=f: f(at(i)))] for n, f in d._cols], lambda i: d._index(at(i)), d._inames)
        raise Unsupported("iloc")


class _SLoc:
    __vc_shadow__ = True

    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        s = self.s
        if isinstance(k, Series):
            ax = _filter_axis(s._axis, k)
            return Series(ax, s._fn, s.name, s._index, s._inames)
        raise Unsupported("Series.loc")


def _filter_axis(axis, mask):
    if isinstance(mask, Series):
        max_, fm = mask._axis, mask._fn
    else:
        if len(mask.axes) != 1:
            raise Unsupported("mask of a table")
        max_, f = mask.axes[0], mask.snap()
        fm = lambda i: f([i])
    if not same_rows(max_, axis):
        raise Unsupported("boolean selection with another index")
    probe = fm(K.fresh("p", "I"))
    if tobool(probe) is None:
        raise Unsupported("boolean selection by non-booleans")
    return filtered(axis, lambda i: tobool(fm(i)))


class DataFrame:
    __vc_shadow__ = True
    __hash__ = None

    def __init__(self, data=None, index=None, columns=None, **k):
        if k or index is not None:
            raise Unsupported("DataFrame options")
        if not isinstance(data, dict) or not data:
            raise Unsupported("DataFrame constructor")
        self.__dict__["_at"] = sym.PDict()
        ax = None
        cols = []
        for n, v in data.items():
            if isinstance(v, Series):
                a, f = v._axis, v._fn
            else:
                nd = snp._nd(v)
                if len(nd.axes) != 1:
                    raise Unsupported("DataFrame column")
                a, g = nd.axes[0], nd.snap()
                f = lambda i, g=g: g([i])
            if ax is None:
                ax = a
            elif not same_rows(a, ax):
                raise Unsupported("columns of different length")
            cols.append([n, f])
        if ax.member is not None:
            raise Unsupported("DataFrame of filtered data")
        s0 = next((v for v in data.values() if isinstance(v, Series)), None)
        d = self.__dict__
        d["_axis"], d["_cols"] = ax, cols
        d["_index"], d["_inames"] = (s0._index, s0._inames) if s0 is not None else ((lambda i: Num(i)), (None,))
        d["_birth"] = len(sym.CTX.loops) if sym.CTX is not None else 0
        if columns is not None:
            d["_cols"] = [[c, dict(map(tuple, cols))[c]] for c in columns]

    @classmethod
    def _mk(cls, axis, cols, index, inames):
        o = object.__new__(cls)
        o.__dict__.update(_axis=axis, _cols=[list(c) for c in cols], _index=index, _inames=tuple(inames), _at=sym.PDict(),
                          _birth=len(sym.CTX.loops) if sym.CTX is not None else 0)
        return o

    def _with(self, cols):
        return DataFrame._mk(self._axis, cols, self._index, self._inames)

    def _filter(self, mask):
        return DataFrame._mk(_filter_axis(self._axis, mask), self._cols, self._index, self._inames)

    def copy(self, deep=True):
        return self._with(self._cols)

    @property
    def columns(self):
        return Columns([n for n, _ in self._cols])

    @property
    def index(self):
        return RowIndex(self._axis, self._index, self._inames)

    @property
    def loc(self):
        return _Loc(self)

    @property
    def iloc(self):
        return _ILoc(self)

    @property
    def attrs(self):
        return self._at

    @property
    def shape(self):
        return (self._axis.length(), len(self._cols))

    @property
    def empty(self):
        n = self._axis.length()
        return n == 0

    @property
    def values(self):
        fs = [f for _, f in self._cols]
        dt = snp.promote(*[_kind(self._axis, f) for f in fs])
        if dt == "int64":
            pass
        return NdArray([self._axis, const_axis(len(fs))], lambda ix: snp.cast_val(sym.pick_val([f(ix[0]) for f in fs], ix[1]), dt) if dt != "object" else sym.pick_val([f(ix[0]) for f in fs], ix[1]), dt)

    def to_numpy(self, *a, **k):
        if a or k:
            raise Unsupported("to_numpy options")
        return self.values

    def __vc_array__(self):
        return self.values

    def __vc_len__(self):
        return self._axis.length()

    def __len__(self):
        n = self._axis.length()
        if isinstance(n, int):
            return n
        raise Unsupported("len of symbolic table")

    def __contains__(self, k):
        return k in self.columns

    def keys(self):
        return self.columns

    def __iter__(self):
        return iter(self.columns)

    def __bool__(self):
        raise ValueError("The truth value of a DataFrame is ambiguous.")

    def __getitem__(self, k):
        if isinstance(k, str):
            m = [c for c in self._cols if c[0] == k]
            if not m:
                raise KeyError(k)
            if len(m) > 1:
                return self._with(m)
            return Series(self._axis, m[0][1], k, self._index, self._inames)
        if isinstance(k, Series) or (isinstance(k, NdArray) and k._dt == "bool"):
            return self._filter(k)
        if isinstance(k, (list, Columns)):
            out = []
            for n in k:
                m = [c for c in self._cols if c[0] == n]
                if not m:
                    raise KeyError(f"{n!r} not in index")
                out += m
            return self._with(out)
        raise Unsupported("table subscript")

    def _column(self, v):
        ax = self._axis
        if isinstance(v, Series):
            if same_rows(v._axis, ax):
                # equal labels row by row: alignment is the identity
                return v._fn
            raise Unsupported("column from a Series of other rows")
        nd = snp._as_nd(v)
        if nd is not None:
            f = nd.snap()
            if not nd.axes:
                return lambda i: f([])
            if len(nd.axes) == 2 and nd.axes[1].const == 1:
                g = f
                f = lambda ix: g([ix[0], K.num(0)])
            elif len(nd.axes) != 1:
                raise Unsupported("column of this shape")
            if same_rows(nd.axes[0], ax):
                return lambda i: f([i])
            raise Unsupported("column of other length")
        s = sym.seq_of(v)
        if s is not None:
            if same_rows(s.axis, ax):
                return s.item
            if s.axis.member is None:
                p = K.fresh("p", "I")
                x = s.item(p)
                if not _depends(x, p):
                    n = ax.count()
                    if n is s.axis.size or ctx().entails(K.eq(n, s.axis.size)):
                        return lambda i: x
            raise Unsupported("column of other length")
        if isinstance(v, (list, tuple)):
            if ax.const is not None and len(v) == ax.const:
                xs = list(v)
                return lambda i: sym.pick_val(xs, i)
            raise Unsupported("column from a list")
        if isinstance(v, (str, Num, bool, int, float, SymBool)) or v is None:
            x = v if isinstance(v, str) or v is None else snp.scalar(v)
            return lambda i: x
        raise Unsupported("column value")

    def __setitem__(self, k, v):
        if sym.CTX is not None and len(sym.CTX.loops) > self._birth:
            raise Unsupported("table mutation in generic loop")
        if isinstance(k, list) and isinstance(v, DataFrame) and len(k) == len(v._cols):
            for n, (_, f) in zip(k, v._cols):
                self[n] = Series(v._axis, f)
            return
        if not isinstance(k, str):
            raise Unsupported("table assignment")
        f = self._column(v)
        hit = [c for c in self._cols if c[0] == k]
        if len(hit) > 1:
            raise Unsupported("assignment to duplicate columns")
        if hit:
            hit[0][1] = f
        else:
            self._cols.append([k, f])

    def __delitem__(self, k):
        if k not in self.columns:
            raise KeyError(k)
        self.__dict__["_cols"] = [c for c in self._cols if c[0] != k]

    def pop(self, k):
        r = self[k]
        del self[k]
        return r

    def insert(self, pos, name, v):
        if name in self.columns:
            raise ValueError(f"cannot insert {name}, already exists")
        self._cols.insert(pos, [name, self._column(v)])

    def assign(self, **k):
        d = self.copy()
        for n, v in k.items():
            d[n] = v(d) if callable(v) and not isinstance(v, Series) else v
        return d

    def drop(self, labels=None, axis=0, columns=None, index=None, inplace=False, errors="raise"):
        if index is not None:
            raise Unsupported("drop rows")
        if columns is None:
            if axis not in (1, "columns"):
                raise Unsupported("drop rows")
            columns = labels
        columns = [columns] if isinstance(columns, str) else list(columns)
        for c in columns:
            if c not in self.columns and errors == "raise":
                raise KeyError(f"{c!r} not found in axis")
        cols = [c for c in self._cols if c[0] not in columns]
        if inplace:
            self.__dict__["_cols"] = cols
            return None
        return self._with(cols)

    def rename(self, mapper=None, columns=None, index=None, axis=None, inplace=False, **k):
        if k or index is not None:
            raise Unsupported("rename options")
        if columns is None:
            if axis not in (1, "columns"):
                raise Unsupported("rename rows")
            columns = mapper
        f = columns if callable(columns) and not isinstance(columns, dict) else (lambda n: columns.get(n, n))
        cols = [[f(n), g] for n, g in self._cols]
        if inplace:
            self.__dict__["_cols"] = cols
            return None
        return self._with(cols)

    def filter(self, items=None, **k):
        if k or items is None:
            raise Unsupported("filter")
        return self._with([c for n in items for c in self._cols if c[0] == n])

    def reindex(self, *a, **k):
        raise Unsupported("reindex")

    def iterrows(self):
        return SymSeqRows(self)

    def itertuples(self, index=True, name="Pandas"):
        cols, ix = [list(c) for c in self._cols], self._index
        return SymSeq(self._axis, lambda i: Row(([("Index", ix(i))] if index else []) + [(n, f(i)) for n, f in cols], None))

    def apply(self, f, axis=0, **k):
        if axis not in (1, "columns") or k:
            raise Unsupported("apply")
        s = sym.sym_map(lambda p: f(p[1]), self.iterrows())
        return Series(self._axis, s.item, None, self._index, self._inames)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if k in [n for n, _ in self.__dict__["_cols"]]:
            return self[k]
        raise Unsupported(f"DataFrame.{k}")

    def __setattr__(self, k, v):
        if k in [n for n, _ in self._cols]:
            self[k] = v
            return
        if k == "columns":
            v = list(v)
            if len(v) != len(self._cols):
                raise ValueError("Length mismatch")
            self.__dict__["_cols"] = [[n, f] for n, (_, f) in zip(v, self._cols)]
            return
        raise Unsupported(f"DataFrame.{k} assignment")


def SymSeqRows(df):
    cols, ix = [list(c) for c in df._cols], df._index
    return SymSeq(df._axis, lambda i: (ix(i), Row([(n, f(i)) for n, f in cols], ix(i))))


def concat(objs, axis=0, join="outer", **k):
    if k or axis not in (1, "columns"):
        raise Unsupported("pd.concat options")
    objs = list(objs)
    a = objs[0]
    for o in objs[1:]:
        if not same_rows(o._axis, a._axis):
            raise Unsupported("concat of tables with other rows")
        src = src_axes(a._axis)
        vs = [K.fresh("cr", "I") for _ in src]
        r = vs[0] if len(src) == 1 else snp.ravel_t(vs, src)
        x, y = a._index(r), o._index(r)
        x, y = (x if isinstance(x, tuple) else (x,)), (y if isinstance(y, tuple) else (y,))
        g = [s.guard(v) for s, v in zip(src, vs)]
        if len(x) != len(y) or not all(sxr.vals_equal(p, q, g) for p, q in zip(x, y)):
            raise Unsupported("concat of tables with other labels")
    cols = []
    for o in objs:
        cols += o._cols if isinstance(o, DataFrame) else [[o.name, o._fn]]
    return DataFrame._mk(a._axis, cols, a._index, a._inames)


def merge(*a, **k):
    raise Unsupported("pd.merge")


def frame_of(da, name=None, dim_order=None):
    """DataArray.to_dataframe"""
    name = da.name if name is None else name
    if name is None:
        raise ValueError("cannot convert an unnamed DataArray to a DataFrame: use the ``name`` parameter")
    if not da.dims:
        raise ValueError("no valid index for a 0-dimensional object")
    dims = list(dim_order) if dim_order is not None else list(da.dims)
    if set(dims) != set(da.dims):
        raise ValueError("dim_order")
    axes = [da.variable.axis(d) for d in dims]
    if any(a.member is not None for a in axes):
        raise Unsupported("table of a filtered array")
    rows = raveled(axes)

    def un(i):
        return [i] if len(axes) == 1 else snp.unravel(i, axes)

    cols = []
    for n, v in list(da._coords.items()) + [(name, da.variable)]:
        if n in dims and n != name:
            continue
        f = v.fn()
        cols.append([n, lambda i, f=f: f(dict(zip(dims, un(i))))])
    lab = []
    for d in dims:
        if d in da._coords:
            nd = da._coords[d].nd
            lab.append(lambda k, nd=nd: nd.elem([k]))
        else:
            lab.append(lambda k: Num(k))

    def index(i):
        ks = un(i)
        r = tuple(l(k) for l, k in zip(lab, ks))
        return r if len(r) > 1 else r[0]

    return DataFrame._mk(rows, cols, index, dims)


# ------------------------------------------------------------------ files
def read_csv(path, *a, **k):
    if a or k:
        raise Unsupported("read_csv options")
    t = getattr(ctx(), "tables", {}).get(str(path))
    if t is None:
        raise Unsupported(f"read_csv of {path!r}")
    return t.copy()


class Res:
    __vc_shadow__ = True

    def __init__(self, p):
        self.p = p

    def __truediv__(self, o):
        return Res(self.p + "/" + o)

    def joinpath(self, *o):
        return Res("/".join((self.p,) + o))

    def __str__(self):
        return self.p

    __fspath__ = __str__

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"path.{k}")


def files(pkg):
    return Res("vc-resource:" + pkg.replace(".", "/"))


def path_exists(p):
    return str(p) in getattr(ctx(), "tables", {})


# ------------------------------------------------------------------ nearest neighbour
def _turns(t):
    """the angle t (radians) without whole turns: 2 pi times integer-valued summands"""
    pi = sym.PI.t
    if t.op == "ite":
        a, b = _turns(t.args[1]), _turns(t.args[2])
        return a if a is b else K.ite(t.args[0], a, b)
    if t.op != "mul" or pi not in t.args:
        return t
    rest = [f for f in t.args if f is not pi]
    two = K.num(2, "R")
    ites = [f for f in rest if f.op == "ite"]
    if len(ites) == 1:
        o = [f for f in rest if f is not ites[0]]
        c, x, y = ites[0].args
        x, y = _turns(K.mul(pi, *o, x)), _turns(K.mul(pi, *o, y))
        return x if x is y else K.ite(c, x, y)
    q = K.mul(K.inv(two), *rest)
    parts = list(q.args) if q.op == "add" else [q]
    keep = [p for p in parts if p.sort != "I" and K._unreal(p) is None]
    if len(keep) == len(parts):
        return t
    return K.mul(two, pi, K.add(K.num(0, "R"), *keep))


def hav(lat1, lon1, lat2, lon2):
    """great-circle distance on the unit sphere of two points given in radians (longitudes modulo whole turns)"""
    a = [num(x) for x in (lat1, lon1, lat2, lon2)]
    ts = [K.toreal(x.t) for x in a]
    ts[1], ts[3] = _turns(ts[1]), _turns(ts[3])
    return Num(K.app("hav", tuple(ts), "R"), K.or_(*[x.nan for x in a]))


def nearest(axes, member, dist):
    """(smallest distance, indices of a closest element) over the elements for which member holds"""
    sizes = [a.size for a in axes]

    def body(ix):
        return [member(ix), K.toreal(num(dist(ix)).t)]

    d = Num(K.agg_op("min", sizes, body))
    return d, [K.agg_op(f"argmin:{j}", sizes, body, "I") for j in range(len(axes))]


class BallTree:
    """sklearn.neighbors.BallTree, haversine metric, one nearest neighbour"""

    __vc_shadow__ = True

    def __init__(self, X, leaf_size=40, metric="minkowski", **k):
        if k or metric != "haversine":
            raise Unsupported("BallTree options")
        nd = snp._nd(X)
        if len(nd.axes) != 2 or nd.axes[1].const != 2:
            raise Unsupported("BallTree data")
        self.ax = nd.axes[0]
        self.f = nd.snap()
        self._finite(self.ax, self.f)
        POS.append(self.ax)
        self.k = len(POS) - 1

    @staticmethod
    def _finite(ax, f):
        src = src_axes(ax)
        sz = [s.size for s in src]
        rw = lambda ix: ix[0] if len(src) == 1 else snp.ravel_t(ix, src)
        c = ctx()
        some = K.agg_bool("any", sz, lambda ix: ax.inside(rw(ix)))
        if ax.member is None and len(src) == 1:
            some = K.gt(ax.size, K.num(0))
        if not c.decide(some):
            raise ValueError("Found array with 0 sample(s) while a minimum of 1 is required.")
        bad = K.agg_bool("any", sz, lambda ix: K.and_(ax.inside(rw(ix)), K.or_(*[num(f([rw(ix), K.num(j)])).nan for j in (0, 1)])))
        if c.decide(bad):
            raise ValueError("Input contains NaN.")

    def query(self, X, k=1, return_distance=True, dualtree=False, breadth_first=False, sort_results=True):
        if k != 1 or (hasattr(k, "const") and k.const() != 1):
            raise Unsupported("several neighbours")
        q = snp._nd(X)
        if len(q.axes) != 2 or q.axes[1].const != 2:
            raise Unsupported("BallTree query")
        g = q.snap()
        self._finite(q.axes[0], g)
        ax, f = self.ax, self.f
        src = src_axes(ax)
        rw = lambda ix: ix[0] if len(src) == 1 else snp.ravel_t(ix, src)

        def near(i):
            la, lo = g([i, K.num(0)]), g([i, K.num(1)])
            return nearest(src, lambda ix: ax.inside(rw(ix)), lambda ix: hav(f([rw(ix), K.num(0)]), f([rw(ix), K.num(1)]), la, lo))

        def pos(i):
            r = rw(near(i)[1])
            if ax.member is None and len(src) == 1:
                return Num(r)
            return Num(K.app(f"nnpos:{self.k}", (r,), "I"))

        axes = [q.axes[0], const_axis(1)]
        d = NdArray(axes, lambda ix: near(ix[0])[0], "float64")
        p = NdArray(axes, lambda ix: pos(ix[0]), "int64")
        return (d, p) if return_distance else p

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"BallTree.{k}")


def modules():
    pd = _NS("pandas", DataFrame=DataFrame, Series=Series, concat=concat, merge=merge, read_csv=read_csv, DatetimeIndex=sxr.DatetimeIndex)
    nb = _NS("sklearn.neighbors", BallTree=BallTree)
    op = _NS("os.path", exists=path_exists, isfile=path_exists)
    ir = _NS("importlib_resources", files=files)
    return {"pandas": pd, "sklearn": _NS("sklearn", neighbors=nb), "sklearn.neighbors": nb, "os": _NS("os", path=op, fspath=str),
            "os.path": op, "importlib_resources": ir, "importlib.resources": ir}
