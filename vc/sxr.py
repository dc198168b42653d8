"""Shadow xarray: the assumed contracts of the xarray operations the code calls,
over symbolic arrays (vc.snp.NdArray).  Variables are shared or copied where
xarray shares or copies them, so that attribute mutation of inputs is visible."""
import types
import re
from . import terms as K
from . import sym
from .sym import (
    Unsupported, Num, SymBool, DtVal, TdVal, Axis, SymSeq, PList, PDict, const_axis, same_axis,
    num, tonum, tobool, sb, is_nan, v_ite, ctx,
)
from . import snp
from .snp import NdArray


class Attrs(PDict):
    """attributes; those of an input may hold further entries (arbitrary strings), so that
    looking one up while the code runs splits the path on whether it is there"""

    src = None  # (name of the input, keys that are there only when given)

    def __init__(self, *a, **k):
        PDict.__init__(self, *a, **k)
        if a and isinstance(a[0], Attrs) and a[0].src is not None:
            self.src = a[0].src

    def copy(self):
        return Attrs(self)

    def _maybe(self, k):
        if self.src is None or not sym.RUNNING[0] or not isinstance(k, str) or isinstance(k, sym.SymStr) or dict.__contains__(self, k) or k in self.src[1]:
            return False
        return bool(sb(K.app(f"has:{self.src[0]}.{k}", (), "B")))

    def _extra(self, k):
        return sym.SymStr(f"attr:{self.src[0]}.{k}", excl=set())

    def __contains__(self, k):
        return PDict.__contains__(self, k) or self._maybe(k)

    def __getitem__(self, k):
        if self._maybe(k):
            return self._extra(k)
        return PDict.__getitem__(self, k)

    def get(self, k, d=None):
        if self._maybe(k):
            return self._extra(k)
        return PDict.get(self, k, d)

    def setdefault(self, k, d=None):
        if self._maybe(k):
            return self._extra(k)
        if not dict.__contains__(self, k):
            self[k] = d
        return dict.__getitem__(self, k)

    def pop(self, k, *d):
        if self._maybe(k):
            dict.__setitem__(self, k, "<removed>")  # visible to the frame
            return self._extra(k)
        return dict.pop(self, k, *d)

    def keys(self):
        return AttrKeys(self)


class AttrKeys:
    __vc_shadow__ = True

    def __init__(self, d):
        self.d = d

    def __contains__(self, k):
        return k in self.d

    def __iter__(self):
        return dict.__iter__(self.d)

    def __len__(self):
        return len(self.d)

    def _set(self):
        return set(dict.keys(self.d))

    def __or__(self, o):
        return self._set() | set(o)

    def __and__(self, o):
        return self._set() & set(o)

    def __sub__(self, o):
        return self._set() - set(o)

    def __eq__(self, o):
        return self._set() == (o._set() if isinstance(o, AttrKeys) else o)

    __hash__ = None


def opened(attrs, name, closed=()):
    r = Attrs(attrs)
    r.src = (name, frozenset(closed))
    return r


def nd0(v):
    return NdArray([], lambda ix: v, snp.val_kind(v))


def to_nd(x):
    if isinstance(x, DataArray):
        return x.variable.nd
    if isinstance(x, Variable):
        return x.nd
    if isinstance(x, (Index,)):
        return x.nd
    if isinstance(x, NdArray):
        return x
    if isinstance(x, (list, tuple, SymSeq)):
        return snp.array(x)
    return nd0(snp.scalar(x))


class Variable:
    __vc_shadow__ = True

    def __init__(self, dims, nd, attrs=None, encoding=None):
        self.dims = tuple(dims)
        if not isinstance(nd, NdArray):
            nd = nd0(nd)
        if len(self.dims) != len(nd.axes):
            raise ValueError("dimensions must have the same length as the number of data dimensions")
        self.nd = nd
        self._attrs = Attrs(attrs if attrs is not None else {})
        self.encoding = PDict(encoding or {})

    @property
    def attrs(self):
        return self._attrs

    @attrs.setter
    def attrs(self, v):
        self._attrs = Attrs(v)

    def copy(self):
        return Variable(self.dims, self.nd, self._attrs, self.encoding)

    def axis(self, d):
        return self.nd.axes[self.dims.index(d)]

    def at(self, env):
        """element for a dim -> index-term mapping"""
        return self.nd.elem([env[d] for d in self.dims])

    def fn(self):
        f = self.nd.snap()
        dims = self.dims
        return lambda env: f([env[d] for d in dims])

    @property
    def data(self):
        return self.nd

    @property
    def values(self):
        return self.nd

    @property
    def shape(self):
        return self.nd.shape

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def dtype(self):
        return self.nd.dtype

    def transpose(self, dims):
        if tuple(dims) == self.dims:
            return Variable(self.dims, self.nd, self._attrs, self.encoding)
        f = self.fn()
        pos = [self.dims.index(d) for d in dims]
        nd = NdArray([self.nd.axes[p] for p in pos], lambda ix: f(dict(zip(dims, ix))), self.nd._dt)
        ch = self.nd.chunks_
        if ch is not None:
            nd.chunks_ = tuple(ch[p] for p in pos)
        return Variable(dims, nd, self._attrs, self.encoding)

    def isel(self, ind):
        key = tuple(ind.get(d, slice(None)) for d in self.dims)
        out = []
        for d, k in zip(self.dims, key):
            if isinstance(k, slice):
                out.append(d)
            elif isinstance(k, (DataArray, Variable)):
                kd = k.dims
                if len(kd) > 1:
                    raise Unsupported("multi-dimensional vectorised indexing")
                out += [x for x in kd]
            elif isinstance(k, (NdArray, list, SymSeq)):
                n = to_nd(k)
                if len(n.axes) == 1:
                    out.append(d)
                elif len(n.axes) > 1:
                    raise Unsupported("multi-dimensional index")
        key = tuple(to_nd(k) if isinstance(k, (DataArray, Variable, list, SymSeq)) else k for k in key)
        key = tuple(k.elem([]) if isinstance(k, NdArray) and not k.axes else k for k in key)
        if not self.dims:
            return self.copy()
        r = snp.getitem(self.nd, key)
        if not isinstance(r, NdArray):
            r = nd0(r)
        r.base = self.nd
        return Variable(out, r, self._attrs, self.encoding)

    def __vc_subst__(self, m):
        return Variable(self.dims, sym.subst_val(self.nd, m), sym.subst_val(dict(self._attrs), m), self.encoding)


class Index:
    """pandas-like index of a dimension coordinate"""

    __vc_shadow__ = True

    def __init__(self, var):
        self.nd = var.nd
        self.name = var.dims[0]

    @property
    def values(self):
        return self.nd

    def __getitem__(self, k):
        return self.nd[k]

    def __vc_len__(self):
        return self.nd.axes[0].length()

    def __vc_seq__(self):
        return self.nd.__vc_seq__()

    def __iter__(self):
        return iter(self.nd)


class CFTimeIndex(Index):
    @property
    def calendar(self):
        return self.nd.elem([K.num(0)]).cal


class DatetimeIndex(Index):
    pass


def make_index(var):
    if not is_time(var):
        return Index(var)
    return DatetimeIndex(var) if var.nd._dt == "datetime64[ns]" else CFTimeIndex(var)


def is_time(var):
    if var.nd._dt not in ("object", "datetime64[ns]") or not var.dims:
        return False
    v = var.nd.elem([K.fresh("q", "I")] * len(var.dims))
    return isinstance(v, DtVal)


# ------------------------------------------------------------------ helpers
def same_values(a, b):
    """are two coordinate variables provably identical?"""
    if a is b or a.nd is b.nd:
        return True
    if set(a.dims) != set(b.dims):
        return False
    for d in a.dims:
        if not same_axis(a.axis(d), b.axis(d)):
            return False
    env = {d: K.fresh("e", "I") for d in a.dims}
    x, y = a.at(env), b.at(env)
    return vals_equal(x, y, [a.axis(d).guard(env[d]) for d in a.dims])


def vals_equal(x, y, guards=()):
    if x is y:
        return True
    if isinstance(x, str) or isinstance(y, str):
        return x == y
    if isinstance(x, DtVal) and isinstance(y, DtVal):
        if x.cal != y.cal:
            return False
        g = K.eq(x.t, y.t)
    else:
        p, q = tonum(x), tonum(y)
        if p is None or q is None:
            return False
        g = K.and_(K.iff(p.nan, q.nan), K.or_(p.nan, K.eq(p.t, q.t)))
    if g is K.TRUE:
        return True
    if g is K.FALSE:
        return False
    c = ctx()
    return bool(c.prover.prove(c.all_facts() + list(guards), g, quick=True))


def merge_coords(objs, dims):
    """coordinates of a computed result"""
    out = {}
    dropped = set()
    for o in objs:
        for n, v in o._coords.items():
            if not set(v.dims) <= set(dims):
                if n in dims:
                    pass
                continue
            if n in out:
                w = out[n]
                if w is v:
                    continue
                if n in dims and (w.dims != v.dims):
                    # index coordinate takes priority over a scalar one
                    if v.dims == (n,):
                        out[n] = v
                    continue
                if not same_values(w, v):
                    if n in dims:
                        raise Unsupported(f"arithmetic on coordinate '{n}' not known to be aligned")
                    if w.dims == () and v.dims == ():
                        dropped.add(n)
                        continue
                    raise Unsupported(f"conflicting coordinate '{n}'")
            else:
                out[n] = v
    for n in dropped:
        out.pop(n, None)
    for n in list(out):
        if n in dims and out[n].dims != (n,):
            del out[n]
    return out


def drop_merged_attrs(das, coords, keep_attrs):
    """apply_ufunc and where over several arrays without keep_attrs empty the
    attributes of the merged coordinates in place, and those coordinates are the
    variables of the first array that has them (xarray 2023.12, merge_collected)"""
    if keep_attrs or len(das) < 2:
        return
    for n, v in coords.items():
        if v.dims == (n,) or sum(n in a._coords for a in das) == 1:
            v.attrs = {}


def union_dims(vs):
    out = []
    for v in vs:
        for d in v.dims:
            if d not in out:
                out.append(d)
    return out


def align_axes(vs, dims):
    axes = []
    for d in dims:
        pick = None
        for v in vs:
            if d in v.dims:
                x = v.axis(d)
                if pick is None:
                    pick = x
                elif not same_axis(pick, x):
                    if x.member is not None or pick.member is not None:
                        raise Unsupported(f"alignment of subsets along '{d}'")
                    if ctx().decide(K.eq(x.size, pick.size)):
                        continue
                    raise ValueError(f"arguments without labels along dimension '{d}' cannot be aligned")
        axes.append(pick)
    return axes


def result_name(objs):
    names = {o.name for o in objs if isinstance(o, DataArray)}
    return names.pop() if len(names) == 1 else None


def wrap_arg(a):
    """Variable view of an operand"""
    if isinstance(a, DataArray):
        return a.variable
    if isinstance(a, Variable):
        return a
    return None


def ew_named(fn, args, keep_attrs, share=False):
    """elementwise function with broadcasting by dimension name"""
    args = [a if not isinstance(a, NdArray) or a.axes else a.elem([]) for a in args]
    das = [a for a in args if isinstance(a, DataArray)]
    if any(isinstance(a, Dataset) for a in args):
        raise Unsupported("Dataset arithmetic")
    vs = [wrap_arg(a) for a in args]
    dvs = [v for v in vs if v is not None]
    dims = union_dims(dvs)
    axes = align_axes(dvs, dims)
    parts = []
    for a, v in zip(args, vs):
        if v is not None:
            parts.append(v.fn())
        elif isinstance(a, (NdArray, list, SymSeq)):
            n = to_nd(a)
            if len(n.axes) != len(dims):
                raise Unsupported("mixing named and positional arrays of different rank")
            f = n.snap()
            for x, y in zip(axes, n.axes):
                if not same_axis(x, y):
                    if y.const == 1:
                        raise Unsupported("positional broadcast against named array")
                    if ctx().decide(K.eq(x.count(), y.count())):
                        continue
                    raise ValueError("operands could not be broadcast together")
            parts.append(lambda env, f=f: f([env[d] for d in dims]))
        else:
            s = snp.scalar(a)
            parts.append(lambda env, s=s: s)
    probe = fn(*[p({d: K.fresh("p", "I") for d in dims}) for p in parts])
    dt = snp.val_kind(probe)
    nd = NdArray(axes, lambda ix: fn(*[p(dict(zip(dims, ix))) for p in parts]), dt)
    coords = merge_coords(das, dims)
    if len(das) > 1 and not share:
        coords = {n: c.copy() for n, c in coords.items()}
    attrs = Attrs(das[0].attrs) if keep_attrs and das else {}
    return DataArray._mk(Variable(dims, nd, attrs), coords, result_name(das))


def dimlist(dim, dims):
    if dim is None or dim is Ellipsis:
        return list(dims)
    if isinstance(dim, str):
        dim = [dim]
    dim = list(dim)
    for d in dim:
        if d not in dims:
            raise ValueError(f"{d!r} not found in array dimensions {tuple(dims)!r}")
    return dim


def order_dims(args, dims):
    if len(args) == 1 and isinstance(args[0], (list, tuple)):
        args = tuple(args[0])
    if not args:
        return tuple(reversed(dims))
    if Ellipsis in args:
        rest = [d for d in dims if d not in args]
        out = []
        for a in args:
            if a is Ellipsis:
                out += rest
            else:
                out.append(a)
    else:
        out = list(args)
    for a in out:
        if a not in dims:
            raise ValueError(f"Dimensions {{{a!r}}} do not exist")
    if set(out) != set(dims) or len(out) != len(dims):
        raise ValueError(f"{tuple(out)} must be a permuted list of {tuple(dims)}, unless `...` is included")
    return tuple(out)


# ------------------------------------------------------------------ coordinates view
class Coords:
    __vc_shadow__ = True

    def __init__(self, obj):
        self._obj = obj

    @property
    def dims(self):
        return self._obj.dims

    def keys(self):
        return list(self._obj._coord_names())

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.keys())

    def __contains__(self, k):
        return k in self.keys()

    def __getitem__(self, k):
        if k not in self.keys():
            raise KeyError(k)
        return self._obj[k]

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def values(self):
        return [self[k] for k in self.keys()]

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __vc_coords__(self):
        return {k: self._obj._coord_var(k) for k in self.keys()}


class Sizes(dict):
    __vc_shadow__ = True


# ------------------------------------------------------------------ reductions shared
def reduce_da(da, kind, dim=None, skipna=None, keep_attrs=None, ddof=0, axis=None, **kw):
    if kw:
        raise Unsupported(f"reduction argument {sorted(kw)}")
    if axis is not None:
        axs = [axis] if isinstance(axis, int) else list(axis)
        dim = [da.dims[a] for a in axs]
    ds = dimlist(dim, da.dims)
    keep = [d for d in da.dims if d not in ds]
    v = da.variable
    f = v.fn()
    axs = [v.axis(d) for d in ds]
    isf = v.nd._dt in ("float64", "float32", "object")
    sk = (isf if skipna is None else bool(skipna))
    if kind in ("all", "any"):
        sk = False
    if kind == "count":
        sk = True
    if v.nd._dt == "object":
        raise Unsupported("reduction of object array")

    def el(ix):
        env = dict(zip(keep, ix))
        if not ds:
            x = f(env)
            if kind in ("sum",) and sk:
                n = num(x)
                return Num(K.ite(n.nan, K.num(0, n.t.sort), n.t))
            return x
        return snp.reduce(kind, axs, lambda rx: f({**env, **dict(zip(ds, rx))}), sk, ddof)

    dt = "bool" if kind in ("all", "any") else ("int64" if kind == "count" else ("float64" if kind in ("mean", "std", "var") else (v.nd._dt if v.nd._dt != "bool" else "int64")))
    nd = NdArray([v.axis(d) for d in keep], el, dt)
    coords = {n: c for n, c in da._coords.items() if not set(c.dims) & set(ds)}
    return DataArray._mk(Variable(keep, nd, Attrs(da.attrs) if keep_attrs else {}), coords, da.name)


def _mk_red(kind):
    def m(self, dim=None, *, skipna=None, keep_attrs=None, ddof=0, axis=None, min_count=None, **k):
        if min_count is not None:
            raise Unsupported("min_count")
        if isinstance(self, Dataset):
            return self._map(lambda a: reduce_da(a, kind, [d for d in dimlist(dim, self._dimset()) if d in a.dims], skipna, keep_attrs, ddof))
        return reduce_da(self, kind, dim, skipna, keep_attrs, ddof, axis, **k)

    return m


# ------------------------------------------------------------------ DataArray
class DataArray:
    __vc_shadow__ = True
    __slots__ = ("variable", "_coords", "_name")
    __hash__ = None

    def __init__(self, data=None, coords=None, dims=None, name=None, attrs=None, **kw):
        if kw:
            raise Unsupported(f"DataArray({sorted(kw)})")
        if data is None:
            raise Unsupported("DataArray without data")
        if coords is None and isinstance(data, DataArray):
            coords = data.coords
        if dims is None:
            dims = data.dims if isinstance(data, (DataArray, Variable)) else (coords.dims if isinstance(coords, Coords) else None)
        if name is None:
            name = getattr(data, "name", None) if isinstance(data, DataArray) else None
        if attrs is None and isinstance(data, (DataArray, Variable)):
            attrs = data.attrs
        nd = to_nd(data)
        items = []
        if coords is not None:
            if isinstance(coords, Coords):
                items = list(coords.__vc_coords__().items())
            elif isinstance(coords, dict):
                items = list(coords.items())
            elif isinstance(coords, (list, tuple)):
                if dims is None and all(isinstance(c, tuple) for c in coords):
                    dims = [c[0] for c in coords]
                    items = [(c[0], c[1]) for c in coords]
                elif dims is not None:
                    items = list(zip([dims] if isinstance(dims, str) else dims, coords))
                else:
                    raise Unsupported("coords form")
            else:
                raise Unsupported("coords form")
        if isinstance(dims, str):
            dims = (dims,)
        if dims is None:
            dims = [f"dim_{i}" for i in range(len(nd.axes))]
            if coords is not None and len(items) == len(nd.axes):
                dims = [k for k, _ in items]
        dims = tuple(dims)
        if len(dims) != len(nd.axes):
            raise ValueError(f"different number of dimensions on data and dims: {len(nd.axes)} vs {len(dims)}")
        self.variable = Variable(dims, nd, attrs, None)
        if isinstance(data, (DataArray, Variable)):
            self.variable.nd = nd
        self._name = name
        self._coords = {}
        for k, c in items:
            v = as_coord(k, c).copy()
            if not set(v.dims) <= set(dims):
                raise ValueError(f"coordinate {k} has dimensions {v.dims}, but these are not a subset of the DataArray dimensions {dims}")
            for d in v.dims:
                x, y = v.axis(d), self.variable.axis(d)
                if not same_axis(x, y):
                    if x.member is None and y.member is None and not ctx().decide(K.eq(x.size, y.size)):
                        raise ValueError(f"conflicting sizes for dimension {d!r}")
                    if x.member is not None or y.member is not None:
                        raise Unsupported("coordinate over a subset")
            self._coords[k] = v

    @classmethod
    def _mk(cls, var, coords, name):
        o = object.__new__(cls)
        o.variable = var
        o._coords = dict(coords)
        o._name = name
        return o

    def __vc_subst__(self, m):
        return DataArray._mk(
            sym.subst_val(self.variable, m),
            {k: sym.subst_val(v, m) for k, v in self._coords.items()},
            sym.subst_val(self._name, m),
        )

    # ---- attributes
    @property
    def dims(self):
        return self.variable.dims

    @property
    def name(self):
        return self._name

    @name.setter
    def name(self, v):
        self._name = v

    @property
    def attrs(self):
        return self.variable.attrs

    @attrs.setter
    def attrs(self, v):
        self.variable.attrs = v

    @property
    def encoding(self):
        return self.variable.encoding

    @encoding.setter
    def encoding(self, v):
        self.variable.encoding = PDict(v)

    @property
    def coords(self):
        return Coords(self)

    def _coord_names(self):
        return list(self._coords)

    def _coord_var(self, k):
        return self._coords[k]

    @property
    def indexes(self):
        return PDict((d, make_index(self._coords[d])) for d in self.dims if d in self._coords)

    @property
    def shape(self):
        return self.variable.nd.shape

    @property
    def sizes(self):
        return Sizes((d, self.variable.axis(d).length()) for d in self.dims)

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def size(self):
        return self.variable.nd.size

    @property
    def dtype(self):
        return self.variable.nd.dtype

    @property
    def values(self):
        nd = self.variable.nd
        return nd

    @property
    def data(self):
        return self.variable.nd

    @property
    def chunks(self):
        return self.variable.nd.chunks_

    @property
    def T(self):
        return self.transpose()

    @property
    def dt(self):
        return DtAccessor(self)

    @property
    def loc(self):
        return _Loc(self)

    def to_numpy(self):
        return self.variable.nd

    def __vc_array__(self):
        return self.variable.nd

    def __vc_len__(self):
        if not self.dims:
            raise TypeError("len() of unsized object")
        return self.variable.nd.axes[0].length()

    def __len__(self):
        n = self.__vc_len__()
        if isinstance(n, int):
            return n
        raise Unsupported("len of symbolic DataArray")

    def __vc_seq__(self):
        if not self.dims:
            raise TypeError("iteration over a 0-d array")
        return SymSeq(self.variable.nd.axes[0], lambda i: self.isel({self.dims[0]: Num(i)}))

    def __iter__(self):
        s = self.__vc_seq__()
        return iter(s)

    def __bool__(self):
        if self.dims and not all(a.const == 1 for a in self.variable.nd.axes):
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        v = self.variable.nd.elem([K.num(0)] * len(self.dims))
        return bool(v)

    def _scalar(self):
        if self.dims and not all(a.const == 1 for a in self.variable.nd.axes):
            raise TypeError("only size-1 arrays can be converted")
        return self.variable.nd.elem([K.num(0)] * len(self.dims))

    def __vc_tofloat__(self):
        return self._scalar()

    def __float__(self):
        raise Unsupported("float(DataArray)")

    def __int__(self):
        raise Unsupported("int(DataArray)")

    def item(self):
        return self._scalar()

    def __contains__(self, x):
        raise Unsupported("membership in DataArray")

    def __getattr__(self, k):
        if k.startswith("_") or k in ("sym", "frac", "name", "columns"):
            raise AttributeError(k)
        co = object.__getattribute__(self, "_coords")
        if k in co:
            return self[k]
        if k in self.dims:
            return self[k]
        if dict.__contains__(self.attrs, k):
            return self.attrs[k]
        raise Unsupported(f"DataArray.{k}")

    def __setattr__(self, k, v):
        try:
            object.__setattr__(self, k, v)
        except AttributeError:
            raise Unsupported(f"setting DataArray.{k}")

    # ---- indexing
    def __getitem__(self, k):
        if isinstance(k, str):
            if k in self._coords:
                v = self._coords[k]
            elif k in self.dims:
                ax = self.variable.axis(k)
                if ax.member is not None:
                    raise Unsupported("default index of a subset")
                v = Variable((k,), NdArray([ax], lambda ix: Num(ix[0]), "int64"))
                return DataArray._mk(v, {}, k)
            else:
                raise KeyError(k)
            return DataArray._mk(v, {n: c for n, c in self._coords.items() if set(c.dims) <= set(v.dims)}, k)
        if isinstance(k, dict):
            return self.isel(k)
        if not isinstance(k, tuple):
            k = (k,)
        if any(x is None for x in k):
            raise Unsupported("newaxis on DataArray")
        k = snp._expand_key(k, len(self.dims))
        if len(k) > len(self.dims):
            raise IndexError("too many indices")
        return self.isel(dict(zip(self.dims, k)))

    def isel(self, indexers=None, drop=False, missing_dims="raise", **kw):
        ind = {**(indexers or {}), **kw}
        for d in list(ind):
            if d not in self.dims:
                if missing_dims == "ignore":
                    ind.pop(d)
                    continue
                raise ValueError(f"Dimensions {{{d!r}}} do not exist. Expected one or more of {self.dims}")
        ind = {d: (k if not isinstance(k, DataArray) or k.dims else k._scalar()) for d, k in ind.items()}
        v = self.variable.isel(ind)
        coords = {}
        for n, c in self._coords.items():
            ci = {d: k for d, k in ind.items() if d in c.dims}
            if ci:
                c2 = c.isel(ci)
                if drop and not c2.dims:
                    continue
                coords[n] = c2
            else:
                coords[n] = c
        return DataArray._mk(v, coords, self.name)

    def sel(self, indexers=None, method=None, drop=False, **kw):
        if method is not None:
            raise Unsupported("sel(method)")
        ind = {**(indexers or {}), **kw}
        pos = {}
        for d, lab in ind.items():
            if d not in self.dims:
                raise KeyError(f"{d!r} is not a valid dimension or coordinate")
            pos[d] = self._find(d, lab)
        return self.isel(pos, drop=drop)

    def _find(self, d, lab):
        ax = self.variable.axis(d)
        if isinstance(lab, DataArray) and not lab.dims:
            lab = lab._scalar()
        if isinstance(lab, (slice, list, NdArray, DataArray, str)):
            raise Unsupported("sel with this kind of label")
        if d not in self._coords:
            return lab
        c = self._coords[d]
        if ax.const is not None and ax.const <= 16:
            for i in range(ax.const):
                e = c.nd.elem([K.num(i)])
                r = e == lab
                if r is True:
                    return i
                if r is not False:
                    raise Unsupported("symbolic label lookup")
            raise KeyError(lab)
        v = K.fresh("lk", "I")
        e = c.nd.elem([v])
        et = e.t
        lt = lab.t if isinstance(lab, (Num, DtVal)) else None
        if lt is None:
            raise Unsupported("label lookup")
        i = match_index(et, lt, v)
        if i is None:
            raise Unsupported("label lookup")
        return Num(i)

    def __setitem__(self, k, val):
        if isinstance(k, str):
            self._coords[k] = as_coord(k, val)
            return
        if isinstance(k, dict):
            key = tuple(k.get(d, slice(None)) for d in self.dims)
        else:
            key = tuple(snp._expand_key(k, len(self.dims)))
        nd = self.variable.nd
        if any(isinstance(x, (DataArray, Variable)) for x in key):
            if len(self.dims) == 1 and len(key) == 1:
                key = (to_nd(key[0]),)
            else:
                raise Unsupported("named index in assignment")
        if isinstance(val, (DataArray, Variable)):
            od = [d for d, x in zip(self.dims, key) if isinstance(x, slice)]
            v = val.variable if isinstance(val, DataArray) else val
            if not set(v.dims) <= set(od):
                raise ValueError("dimensions of value do not match")
            miss = [d for d in od if d not in v.dims]
            if miss:
                f = v.fn()
                axes = [self.variable.axis(d) for d in od]
                val = NdArray(axes, lambda ix: f(dict(zip(od, ix))), v.nd._dt)
            else:
                val = v.transpose(od).nd
            if not val.axes:
                val = val.elem([])
        snp.setitem(nd, key if len(key) != 1 else key[0], val)

    # ---- shape
    def transpose(self, *dims, transpose_coords=True, missing_dims="raise"):
        if missing_dims == "ignore":
            dims = tuple(d for d in dims if d is Ellipsis or d in self.dims)
        elif missing_dims != "raise":
            raise Unsupported("missing_dims")
        od = order_dims(dims, self.dims)
        coords = {}
        for n, c in self._coords.items():
            coords[n] = c.transpose([d for d in od if d in c.dims])
        return DataArray._mk(self.variable.transpose(od), coords, self.name)

    def squeeze(self, dim=None, drop=False, axis=None):
        if dim is None:
            ds = []
            for d in self.dims:
                ax = self.variable.axis(d)
                if ax.const is not None:
                    if ax.const == 1:
                        ds.append(d)
                elif ctx().decide(K.eq(ax.count(), K.num(1))):
                    ds.append(d)
        else:
            ds = [dim] if isinstance(dim, str) else list(dim)
        if not ds:
            return DataArray._mk(self.variable.copy(), self._coords, self.name)
        return self.isel({d: 0 for d in ds}, drop=drop)

    def rename(self, new=None, **kw):
        if kw or isinstance(new, dict):
            m = {**(new or {}), **kw}
            return self._rename_dims(m)
        return DataArray._mk(self.variable.copy(), self._coords, new)

    def _rename_dims(self, m):
        for k in m:
            if k not in self.dims and k not in self._coords:
                raise ValueError(f"cannot rename {k!r} because it is not a variable or dimension")
        r = lambda d: m.get(d, d)
        v = Variable([r(d) for d in self.dims], self.variable.nd, self.attrs, self.encoding)
        coords = {r(n): Variable([r(d) for d in c.dims], c.nd, c.attrs, c.encoding) for n, c in self._coords.items()}
        return DataArray._mk(v, coords, self.name)

    def expand_dims(self, dim=None, axis=None, **kw):
        if axis not in (None, 0):
            raise Unsupported("expand_dims(axis)")
        if isinstance(dim, str):
            dim = {dim: 1}
        elif isinstance(dim, (list, tuple)):
            dim = {d: 1 for d in dim}
        dim = {**(dim or {}), **kw}
        nd, coords, names, axes = self.variable.nd, dict(self._coords), [], []
        for k, val in dim.items():
            if k in self.dims:
                raise ValueError(f"Dimension {k} already exists.")
            if isinstance(val, int) or isinstance(val, Num):
                names.append(k)
                axes.append(Axis(sym.idx(val)))
                if k in coords and not coords[k].dims:
                    e = coords[k].nd.elem([])
                    coords[k] = Variable((k,), NdArray([axes[-1]], lambda ix, e=e: e, coords[k].nd._dt), coords[k].attrs)
            else:
                c = as_coord(k, val)
                names.append(k)
                axes.append(c.nd.axes[0])
                coords[k] = c
        f = self.variable.fn()
        od = names + list(self.dims)
        n2 = NdArray(axes + list(nd.axes), lambda ix: f(dict(zip(od, ix))), nd._dt)
        return DataArray._mk(Variable(od, n2, self.attrs, self.encoding), coords, self.name)

    def broadcast_like(self, other, exclude=None):
        if exclude:
            raise Unsupported("broadcast_like(exclude)")
        od = union_dims([other.variable if isinstance(other, DataArray) else other, self.variable])
        return _broadcast_to(self, od, [self, other])

    def reset_coords(self, names=None, drop=False):
        if not drop:
            raise Unsupported("reset_coords(drop=False)")
        if names is None:
            keep = [n for n in self._coords if n in self.dims]
        else:
            nm = [names] if isinstance(names, str) else list(names)
            keep = [n for n in self._coords if n not in nm]
        return DataArray._mk(self.variable.copy(), {n: self._coords[n].copy() for n in keep}, self.name)

    def drop_vars(self, names, errors="raise"):
        nm = [names] if isinstance(names, str) else list(names)
        for n in nm:
            if n not in self._coords and errors == "raise":
                raise ValueError(f"{n} not found")
        return DataArray._mk(self.variable.copy(), {n: c for n, c in self._coords.items() if n not in nm}, self.name)

    drop = drop_vars

    def assign_coords(self, coords=None, **kw):
        items = dict(coords.__vc_coords__()) if isinstance(coords, Coords) else dict(coords or {})
        items.update(kw)
        co = {n: c.copy() for n, c in self._coords.items()}
        for k, c in items.items():
            if callable(c):
                c = c(self)
            v = as_coord(k, c)
            for d in v.dims:
                if d not in self.dims:
                    raise ValueError(f"cannot add coordinates with new dimensions to a DataArray: {d}")
                x, y = v.axis(d), self.variable.axis(d)
                if not same_axis(x, y):
                    if x.member is not None or y.member is not None:
                        raise Unsupported("coordinate over a subset")
                    if not ctx().decide(K.eq(x.size, y.size)):
                        raise ValueError(f"conflicting sizes for dimension {d!r}")
            co[k] = v
        return DataArray._mk(self.variable.copy(), co, self.name)

    def assign_attrs(self, *a, **kw):
        d = Attrs(self.attrs)
        for x in a:
            d.update(x)
        d.update(kw)
        v = self.variable.copy()
        v.attrs = d
        return DataArray._mk(v, {n: c.copy() for n, c in self._coords.items()}, self.name)

    def drop_attrs(self):
        raise Unsupported("drop_attrs")

    def copy(self, deep=True, data=None):
        v = self.variable
        nd = v.nd
        if data is not None:
            nd = to_nd(data)
        elif deep:
            nd = NdArray(nd.axes, nd.snap(), nd._dt)
            nd.chunks_ = v.nd.chunks_
        return DataArray._mk(Variable(v.dims, nd, v.attrs, v.encoding), {n: c.copy() for n, c in self._coords.items()}, self.name)

    def __copy__(self):
        return self.copy(deep=False)

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, **k):
        nd = self.variable.nd.astype(dt)
        return DataArray._mk(Variable(self.dims, nd, self.attrs), self._coords, self.name)._detach()

    def _detach(self):
        """the same array with coordinate variables of its own"""
        self._coords = {n: c.copy() for n, c in self._coords.items()}
        return self

    def chunk(self, chunks=None, **kw):
        ch = {**(chunks if isinstance(chunks, dict) else {}), **kw}
        old = self.variable.nd.chunks_
        new = []
        for i, d in enumerate(self.dims):
            n = self.variable.axis(d).length()
            if d in ch:
                c = ch[d]
                whole = c == -1 if isinstance(c, int) else False
                if isinstance(c, (int, Num)) and not whole:
                    r = (num(c) == num(n)) if not (isinstance(c, int) and isinstance(n, int)) else c >= n
                    whole = r is True or (isinstance(r, SymBool) and ctx().entails(r.t))
                new.append((n,) if whole else ("?", "?"))
            elif old is not None:
                new.append(old[i])
            else:
                new.append((n,))
        nd = NdArray(self.variable.nd.axes, self.variable.nd.snap(), self.variable.nd._dt)
        nd.chunks_ = tuple(new)
        return DataArray._mk(Variable(self.dims, nd, self.attrs, self.encoding), self._coords, self.name)._detach()

    def load(self):
        self.variable.nd.chunks_ = None
        return self

    def compute(self):
        return self.copy(deep=False).load_copy()

    def load_copy(self):
        nd = self.variable.nd
        self.variable.nd = NdArray(nd.axes, nd.snap(), nd._dt)
        return self

    persist = compute

    def to_dataset(self, name=None, **k):
        return Dataset({name or self.name: self})

    def get_axis_num(self, d):
        return self.dims.index(d)

    def pipe(self, f, *a, **k):
        return f(self, *a, **k)

    def equals(self, o):
        raise Unsupported("equals")

    identical = equals

    # ---- missing values, selection
    def isnull(self, keep_attrs=None):
        return ew_named(lambda a: sb(is_nan(a)), [self], bool(keep_attrs))

    def notnull(self, keep_attrs=None):
        return ew_named(lambda a: sb(K.not_(is_nan(a))), [self], bool(keep_attrs))

    def fillna(self, value):
        r = ew_named(lambda a, b: v_ite(is_nan(a), num(b), Num(num(a).t)) if isinstance(num(b), Num) and num(b).nan is K.FALSE else v_ite(is_nan(a), num(b), a), [self, value], True)
        r._name = self.name
        return r._detach()

    def where(self, cond, other=None, drop=False):
        if drop:
            raise Unsupported("where(drop=True)")
        if callable(cond) and not isinstance(cond, DataArray):
            cond = cond(self)
        o = sym.NAN if other is None else other
        if isinstance(cond, DataArray):
            args = [self, cond, o]
        elif isinstance(cond, (bool, SymBool, NdArray)):
            args = [self, cond, o]
        else:
            raise TypeError("cond argument is not a DataArray")
        r = ew_named(lambda a, c, b: v_ite(snp._tb(c), *snp._common(a, b)), args, True)
        r._name = self.name
        return r._detach()

    def ffill(self, dim, limit=None):
        return _fill(self, dim, limit, True)._detach()

    def bfill(self, dim, limit=None):
        return _fill(self, dim, limit, False)._detach()

    def clip(self, min=None, max=None, keep_attrs=None):
        r = self
        if min is not None:
            r = snp.maximum(r, min)
        if max is not None:
            r = snp.minimum(r, max)
        return r

    def dropna(self, *a, **k):
        raise Unsupported("dropna")

    def shift(self, shifts=None, fill_value=None, **kw):
        sh = {**(shifts or {}), **kw}
        if fill_value is not None and not (isinstance(fill_value, float) and fill_value != fill_value):
            fv = num(fill_value)
        else:
            fv = sym.NAN
        f = self.variable.fn()
        dims = self.dims
        v = self.variable

        def el(ix):
            env = dict(zip(dims, ix))
            g = []
            for d, n in sh.items():
                i = K.sub(env[d], sym.idx(n))
                g += [K.ge(i, K.num(0)), K.lt(i, v.axis(d).size)]
                env[d] = i
            return v_ite(K.and_(*g), f(env), fv)

        return DataArray._mk(Variable(dims, NdArray(v.nd.axes, el, "float64"), self.attrs), self._coords, self.name)

    def diff(self, dim, n=1, label="upper"):
        if n != 1:
            raise Unsupported("diff(n)")
        a = self.isel({dim: slice(1, None)})
        b = self.isel({dim: slice(None, -1)})
        b2 = b.drop_vars([c for c in b._coords if dim in b._coords[c].dims])
        r = a - b2
        if label == "lower":
            r = r.drop_vars([c for c in r._coords if dim in r._coords[c].dims])
            r._coords.update({c: b._coords[c] for c in b._coords if dim in b._coords[c].dims})
        r._name = self.name
        return r

    def cumsum(self, dim=None, skipna=None, **k):
        raise Unsupported("cumsum")

    # ---- reductions
    sum = _mk_red("sum")
    mean = _mk_red("mean")
    min = _mk_red("min")
    max = _mk_red("max")
    std = _mk_red("std")
    var = _mk_red("var")
    all = _mk_red("all")
    any = _mk_red("any")
    count = _mk_red("count")

    def differentiate(self, coord, edge_order=1, datetime_unit=None):
        if coord not in self._coords and coord not in self.dims:
            raise ValueError(f"Coordinate {coord} does not exist.")
        if coord not in self._coords:
            cv = self[coord].variable
        else:
            cv = self._coords[coord]
        if len(cv.dims) != 1:
            raise ValueError("Coordinate must be 1 dimensional")
        dim = cv.dims[0]
        f, fx = self.variable.fn(), cv.fn()
        ax = self.variable.axis(dim)
        # np.gradient needs edge_order + 1 points
        need = K.ge(ax.size, K.num(edge_order + 1))
        if not ctx().entails(need) and not ctx().decide(need):
            raise ValueError("Shape of array too small to calculate a numerical gradient")
        dims = self.dims

        def el(ix):
            env = dict(zip(dims, ix))
            return snp.grad_elem(lambda k: f({**env, dim: k}), lambda k: fx({dim: k}), ax, env[dim], edge_order)

        return DataArray._mk(Variable(dims, NdArray(self.variable.nd.axes, el, "float64")), self._coords, self.name)

    def integrate(self, *a, **k):
        raise Unsupported("integrate")

    def interp(self, *a, **k):
        raise Unsupported("interp")

    def polyfit(self, dim, deg, skipna=None, rcond=None, w=None, full=False, cov=False):
        if deg != 1 or rcond is not None or w is not None or full or cov or skipna not in (None, True):
            raise Unsupported("polyfit form")
        x = get_clean_interp_index(self, dim)
        fx = x.snap()
        f = self.variable.fn()
        keep = [d for d in self.dims if d != dim]
        ax = self.variable.axis(dim)

        def el(ix):
            env = dict(zip(keep, ix[1:]))
            s, b = polyfit_elem(ax, lambda k: fx([k]), lambda k: f({**env, dim: k}))
            return sym.pick_val([s, b], ix[0])

        nd = NdArray([const_axis(2)] + [self.variable.axis(d) for d in keep], el, "float64")
        deg_v = Variable(("degree",), snp.array(PList([1, 0])))
        coords = {n: c for n, c in self._coords.items() if dim not in c.dims}
        coords["degree"] = deg_v
        name = "polyfit_coefficients"
        return Dataset({name: DataArray._mk(Variable(["degree"] + keep, nd), {k: v for k, v in coords.items() if set(v.dims) <= set(["degree"] + keep) and (k in keep or k == "degree")}, name)})

    def dot(self, other, dims=None, dim=None):
        return dot(self, other, dims=dims if dims is not None else dim)

    def __matmul__(self, o):
        return dot(self, o)

    def groupby(self, group, squeeze=True, restore_coord_dims=False):
        return GroupBy(self, group)

    def weighted(self, w):
        return Weighted(self, w)

    def resample(self, *a, **k):
        raise Unsupported("resample")

    def rolling(self, *a, **k):
        raise Unsupported("rolling")

    def coarsen(self, *a, **k):
        raise Unsupported("coarsen")

    def to_dataframe(self, name=None, dim_order=None):
        from . import spd

        return spd.frame_of(self, name, dim_order)

    # ---- arithmetic
    def __vc_ufunc__(self, fn, args, keep_attrs):
        return ew_named(fn, list(args), keep_attrs)

    def __neg__(self):
        return ew_named(lambda a: -a, [self], True)

    def __pos__(self):
        return self

    def __abs__(self):
        return snp.absolute(self)

    def __invert__(self):
        return ew_named(snp.v_not, [self], True)

    def round(self, decimals=0, **k):
        return snp.round_(self, decimals)


def match_index(et, lt, v):
    """t with et[v := t] == lt, by first-order matching"""
    if et is v:
        return lt
    if et.op != lt.op or et.sort != lt.sort:
        return None
    ke, kl = K.kids(et), K.kids(lt)
    if len(ke) != len(kl):
        return None
    if et.op == "app" and et.args[0] != lt.args[0]:
        return None
    if et.op == "agg":
        return None
    r = None
    for a, b in zip(ke, kl):
        if a is b:
            continue
        i = match_index(a, b, v)
        if i is None or (r is not None and r is not i):
            return None
        r = i
    if r is not None and K.subst(et, {v: r}) is lt:
        return r
    return None


def _da_op(fn, sw=False):
    def op(self, o):
        if o is None or isinstance(o, (str, dict)):
            return NotImplemented
        if isinstance(o, (Dataset,)):
            return NotImplemented
        if sw:
            return ew_named(lambda a, b: fn(b, a), [self, o], False)
        return ew_named(fn, [self, o], False)

    return op


for _n, _f in {
    "add": snp.b_add, "sub": snp.b_sub, "mul": snp.b_mul, "truediv": snp.b_div, "pow": snp.b_pow,
    "floordiv": snp.b_fdiv, "mod": snp.b_mod, "and": snp.b_and, "or": snp.b_or, "xor": snp.b_xor,
}.items():
    setattr(DataArray, f"__{_n}__", _da_op(_f))
    setattr(DataArray, f"__r{_n}__", _da_op(_f, True))

    def _iop(self, o, _f=_f):
        r = ew_named(_f, [self, o], False)
        if r.dims != self.dims:
            raise ValueError("in-place operation changes dimensions")
        nd = self.variable.nd
        if nd.chunks_ is not None:
            self.variable.nd = r.variable.nd
            return self
        snp.inplace_dtype(r.variable.nd._dt, nd._dt)
        f = r.variable.nd.snap()
        dt = nd._dt
        nd.set_elem(lambda ix: snp.store(f(ix), r.variable.nd._dt, dt))
        return self

    setattr(DataArray, f"__i{_n}__", _iop)
for _n, _f in {"lt": snp.b_lt, "le": snp.b_le, "gt": snp.b_gt, "ge": snp.b_ge, "eq": snp.b_eq, "ne": snp.b_ne}.items():
    setattr(DataArray, f"__{_n}__", _da_op(_f))


class _Loc:
    def __init__(self, da):
        self.da = da

    def __getitem__(self, k):
        if isinstance(k, dict):
            return self.da.sel(k)
        raise Unsupported(".loc")

    def __setitem__(self, k, v):
        raise Unsupported(".loc assignment")


def _fill(da, dim, limit, forward):
    if limit is not None:
        raise Unsupported("fill limit")
    if dim not in da.dims:
        raise ValueError(f"{dim} not in dims")
    v = da.variable
    f = v.fn()
    ax = v.axis(dim)
    if ax.member is not None:
        raise Unsupported("fill along subset")
    dims = da.dims

    def el(ix):
        env = dict(zip(dims, ix))
        return fill_elem(lambda k: f({**env, dim: k}), ax.size, env[dim], forward)

    return DataArray._mk(Variable(dims, NdArray(v.nd.axes, el, "float64"), da.attrs), da._coords, da.name)


def fill_elem(f, n, i, forward=True):
    """last (first) valid value at or before (after) i"""
    cur = num(f(i))
    if cur.nan is K.FALSE:
        return cur

    def g(k):
        return K.and_(K.le(k, i) if forward else K.ge(k, i), K.not_(num(f(k)).nan))

    j = K.agg_op("max" if forward else "min", [n], lambda ix: [g(ix[0]), ix[0]], "I")
    none = K.not_(K.agg_bool("any", [n], lambda ix: g(ix[0])))
    return Num(num(f(j)).t, none)


def polyfit_elem(ax, x, y):
    """(slope, intercept) of the least-squares line over the valid points, by the normal equations"""
    if ax.member is not None:
        raise Unsupported("polyfit along subset")

    def parts(k):
        v = num(y(k))
        ok = K.not_(v.nan)
        return ok, K.toreal(num(x(k)).t), K.toreal(v.t)

    def tot(f):
        def one(ix):
            ok, a, b = parts(ix[0])
            return Num(K.ite(ok, f(a, b), K.num(0, "R")))

        return snp.red_sum([ax], one, False)

    n = tot(lambda a, b: K.num(1, "R"))
    sx, sy, sxx, sxy = (tot(f) for f in (lambda a, b: a, lambda a, b: b, lambda a, b: K.mul(a, a), lambda a, b: K.mul(a, b)))
    nan = K.agg_bool("all", [ax.size], lambda ix: num(y(ix[0])).nan)
    slope = (n * sxy - sx * sy) / (n * sxx - sx * sx)
    icept = (sxx * sy - sx * sxy) / (n * sxx - sx * sx)
    return Num(slope.t, nan), Num(icept.t, nan)


def as_coord(name, c):
    if isinstance(c, Variable):
        return c
    if isinstance(c, DataArray):
        return Variable(c.dims, c.variable.nd, c.attrs, c.encoding)
    if isinstance(c, tuple) and len(c) >= 2 and (isinstance(c[0], str) or (isinstance(c[0], (tuple, list)) and all(isinstance(q, str) for q in c[0]))) and not isinstance(c[1], str):
        d = (c[0],) if isinstance(c[0], str) else tuple(c[0])
        return Variable(d, to_nd(c[1]), c[2] if len(c) > 2 else None)
    if isinstance(c, Index):
        return Variable((name,), c.nd)
    nd = to_nd(c)
    if not nd.axes:
        return Variable((), nd)
    if len(nd.axes) != 1:
        raise ValueError("coordinate must be 1-dimensional")
    return Variable((name,), nd)


# ------------------------------------------------------------------ time accessor
class DtAccessor:
    __vc_shadow__ = True

    def __init__(self, da):
        if not is_time(da.variable):
            raise AttributeError("'.dt' accessor only available for DataArray with datetime64 timedelta64 dtype or for arrays containing cftime datetime objects.")
        self.da = da

    @property
    def calendar(self):
        return self.da.variable.nd.elem([K.num(0)]).cal

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        nm = {"days_in_month": "days_in_month", "daysinmonth": "days_in_month", "year": "year", "month": "month", "day": "day",
              "hour": "hour", "minute": "minute", "second": "second", "dayofyear": "dayofyear"}.get(k)
        if nm is None:
            raise Unsupported(f".dt.{k}")
        r = ew_named(lambda a: a.field(nm), [self.da], False)
        r._name = k
        r.variable.nd._dt = "int64"
        return r


# ------------------------------------------------------------------ Dataset
class _FamVars:
    """variables of a Dataset of symbolic size"""

    def __init__(self, keys, vals):
        self.axis, self.key, self.val = keys.axis, keys.item, vals.item

    def _no(self, *a, **k):
        raise Unsupported("access to a Dataset of symbolic size")

    __getitem__ = __setitem__ = __iter__ = __contains__ = __len__ = items = keys = values = get = _no


class Dataset:
    __vc_shadow__ = True
    __hash__ = None

    def __init__(self, data_vars=None, coords=None, attrs=None):
        object.__setattr__(self, "_vars", {})
        object.__setattr__(self, "_cn", [])
        object.__setattr__(self, "_at", Attrs(attrs if attrs is not None else {}))
        object.__setattr__(self, "_enc", PDict())
        object.__setattr__(self, "_birth", len(sym.CTX.loops) if sym.CTX is not None else 0)
        if coords is not None:
            items = coords.__vc_coords__() if isinstance(coords, Coords) else coords
            for k, c in items.items():
                self._vars[k] = as_coord(k, c)
                self._cn.append(k)
        if isinstance(data_vars, Dataset):
            for k in data_vars._vars:
                self._vars[k] = data_vars._vars[k].copy()
            object.__setattr__(self, "_cn", list(data_vars._cn))
            data_vars = None
        if isinstance(data_vars, SymSeq) or getattr(data_vars, "sym_items", None) is not None:
            self._family(data_vars)
            return
        for k, v in (data_vars or {}).items():
            self[k] = v

    def __vc_filled__(self, keys, vals):
        self._family(types.SimpleNamespace(sym_items=(keys, vals)))

    def _family(self, d):
        """a variable for every entry of a symbolic mapping (keys distinct: assumed)"""
        if isinstance(d, SymSeq) or d.sym_items[1] is None:
            raise Unsupported("Dataset of symbolic size")
        keys, vals = d.sym_items
        v = K.fresh("fam", "I")
        c = ctx()
        n0 = len(c.path)
        c.path.append(keys.axis.guard(v))
        try:
            x = vals.item(v)
            if not isinstance(x, DataArray) or not isinstance(keys.item(v), str):
                raise Unsupported("Dataset of symbolic size")
            for co in x._coords.values():
                y = sym.subst_val(co, {v: K.fresh("fam", "I")})
                if not same_values(co, y):
                    raise Unsupported("variables on different coordinates")
            for a in x.variable.nd.axes:
                if v in K.subterms([a.size]) or a.member is not None:
                    raise Unsupported("variables of different shape")
        finally:
            del c.path[n0:]
        object.__setattr__(self, "_vars", _FamVars(keys, vals))

    # ---- bookkeeping
    def _coord_names(self):
        return list(self._cn)

    def _coord_var(self, k):
        return self._vars[k]

    def _dimset(self):
        return list(self._dims())

    def _dims(self):
        out = {}
        for v in self._vars.values():
            for d in v.dims:
                out.setdefault(d, v.axis(d))
        return out

    def __vc_subst__(self, m):
        r = Dataset()
        for k, v in self._vars.items():
            r._vars[k] = sym.subst_val(v, m)
        r._cn.extend(self._cn)
        r._at.update(self._at)
        return r

    @property
    def attrs(self):
        return self._at

    @attrs.setter
    def attrs(self, v):
        object.__setattr__(self, "_at", Attrs(v))

    @property
    def encoding(self):
        return self._enc

    @property
    def dims(self):
        return Sizes((d, a.length()) for d, a in self._dims().items())

    sizes = dims

    @property
    def coords(self):
        return Coords(self)

    @property
    def variables(self):
        return PDict(self._vars)

    @property
    def data_vars(self):
        return PDict((k, self[k]) for k in self._vars if k not in self._cn)

    @property
    def indexes(self):
        return PDict((d, make_index(self._vars[d])) for d in self._dims() if d in self._vars)

    @property
    def chunks(self):
        raise Unsupported("Dataset.chunks")

    def keys(self):
        return [k for k in self._vars if k not in self._cn]

    def values(self):
        return [self[k] for k in self.keys()]

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.keys())

    def __contains__(self, k):
        return k in self._vars

    def __bool__(self):
        return bool(self.keys())

    def __getattr__(self, k):
        if k.startswith("_") or k in ("sym", "frac", "sym_items", "name", "columns"):
            raise AttributeError(k)
        if k in self._vars or k in self._dims():
            return self[k]
        if dict.__contains__(self._at, k):
            return self._at[k]
        raise Unsupported(f"Dataset.{k}") if k in XR_DS else AttributeError(f"'Dataset' object has no attribute {k!r}")

    def __setattr__(self, k, v):
        if k in ("attrs",):
            object.__setattr__(self, "_at", Attrs(v))
            return
        if k == "encoding":
            object.__setattr__(self, "_enc", PDict(v))
            return
        raise AttributeError(f"cannot set attribute {k!r} on a 'Dataset' object")

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self._vars:
                if k in self._dims():
                    ax = self._dims()[k]
                    if ax.member is not None:
                        raise Unsupported("default index of subset")
                    return DataArray._mk(Variable((k,), NdArray([ax], lambda ix: Num(ix[0]), "int64")), {}, k)
                raise KeyError(f"No variable named {k!r}.")
            v = self._vars[k]
            co = {n: self._vars[n] for n in self._cn if set(self._vars[n].dims) <= set(v.dims)}
            return DataArray._mk(v, co, k)
        if isinstance(k, (list, tuple)):
            r = Dataset()
            for n in k:
                if n not in self._vars:
                    raise KeyError(n)
                r._vars[n] = self._vars[n]
                if n in self._cn:
                    r._cn.append(n)
            need = set(d for n in k for d in self._vars[n].dims)
            for n in self._cn:
                if n not in r._vars and set(self._vars[n].dims) <= need:
                    r._vars[n] = self._vars[n]
                    r._cn.append(n)
            object.__setattr__(r, "_at", Attrs(self._at))
            object.__setattr__(r, "_enc", PDict(self._enc))
            return r
        if isinstance(k, dict):
            return self.isel(k)
        raise Unsupported("Dataset indexing")

    def __setitem__(self, k, val):
        if sym.CTX is not None and len(sym.CTX.loops) > self._birth:
            lp = sym.CTX.loops[-1]
            if len(sym.CTX.loops) != self._birth + 1 or len(self._vars) or self in lp.filled_ids():
                raise Unsupported("Dataset mutation in generic loop")
            lp.filled.append((self, (k, val)))
            return
        if isinstance(val, DataArray):
            co = val._coords
            v = val.variable.copy()
        elif isinstance(val, Variable):
            co, v = {}, val.copy()
        elif isinstance(val, tuple):
            co, v = {}, as_coord(k, val)
        elif isinstance(val, Dataset):
            raise Unsupported("assign Dataset")
        else:
            nd = to_nd(val)
            if nd.axes and len(nd.axes) > 1:
                raise ValueError("Could not convert tuple")
            co, v = {}, Variable((k,) if nd.axes else (), nd)
        have = self._dims()
        for d in v.dims:
            if d in have and not same_axis(have[d], v.axis(d)):
                x, y = have[d], v.axis(d)
                if d in self._vars and d in co:
                    raise Unsupported("alignment of different indexes")
                if x.member is not None or y.member is not None:
                    raise Unsupported("alignment of subsets")
                if not ctx().decide(K.eq(x.size, y.size)):
                    raise ValueError("conflicting sizes")
        for n, c in co.items():
            if n == k and n not in v.dims:
                continue
            if n in self._vars and n in self._cn:
                w = self._vars[n]
                if w is c:
                    continue
                if w.dims != c.dims or not same_values(w, c):
                    if c.dims == () or w.dims == ():
                        # xarray: priority to the index / MergeError otherwise
                        if n in have:
                            continue
                    raise Unsupported(f"merge of coordinate {n}")
            else:
                if n in self._vars:
                    raise Unsupported("coordinate conflicts with a variable")
                c2 = c.copy()
                self._vars[n] = c2
                self._cn.append(n)
        if k in v.dims and v.dims == (k,):
            if k not in self._cn:
                self._cn.append(k)
        self._vars[k] = v

    def __delitem__(self, k):
        if k not in self._vars:
            raise KeyError(k)
        del self._vars[k]
        if k in self._cn:
            self._cn.remove(k)

    def _new(self, vars_, cn, attrs=None):
        r = Dataset()
        r._vars.update(vars_)
        r._cn.extend([c for c in cn if c in vars_])
        object.__setattr__(r, "_at", Attrs(attrs if attrs is not None else {}))
        object.__setattr__(r, "_enc", PDict(self._enc))
        return r

    def _map(self, f, attrs=None, own=False):
        """apply f to every data variable, merging coordinates"""
        r = Dataset()
        for k in self.keys():
            a = f(self[k])
            for n, c in a._coords.items():
                if n not in r._vars:
                    r._vars[n] = c.copy() if own else c
                    r._cn.append(n)
            r._vars[k] = a.variable.copy() if own else a.variable
        if not self.keys():
            for n in self._cn:
                r._vars[n] = self._vars[n].copy() if own else self._vars[n]
                r._cn.append(n)
        object.__setattr__(r, "_at", Attrs(attrs if attrs is not None else {}))
        return r

    def map(self, func, keep_attrs=None, args=(), **kw):
        return self._map(lambda a: func(a, *args, **kw), own=True)

    apply = map

    def copy(self, deep=False, data=None):
        if data is not None:
            raise Unsupported("Dataset.copy(data)")
        vs = {}
        for k, v in self._vars.items():
            nd = NdArray(v.nd.axes, v.nd.snap(), v.nd._dt) if deep else v.nd
            if deep:
                nd.chunks_ = v.nd.chunks_
            vs[k] = Variable(v.dims, nd, v.attrs, v.encoding)
        return self._new(vs, self._cn, self._at)

    def __copy__(self):
        return self.copy()

    def load(self):
        for v in self._vars.values():
            v.nd.chunks_ = None
        return self

    def compute(self):
        return self.copy(deep=True).load()

    def rename(self, name_dict=None, **names):
        m = {**(name_dict or {}), **names}
        for k in m:
            if k not in self._vars and k not in self._dims():
                raise ValueError(f"cannot rename {k!r} because it is not a variable or dimension in this dataset")
        r = lambda d: m.get(d, d)
        vs = {}
        for k, v in self._vars.items():
            if r(k) in vs:
                raise ValueError(f"the new name {r(k)!r} conflicts")
            vs[r(k)] = Variable([r(d) for d in v.dims], v.nd, v.attrs, v.encoding)
        cn = [r(k) for k in self._cn]
        for k, v in vs.items():
            if v.dims == (k,) and k not in cn:
                cn.append(k)
        return self._new(vs, cn, self._at)

    def rename_vars(self, name_dict=None, **names):
        m = {**(name_dict or {}), **names}
        for k in m:
            if k not in self._vars:
                raise ValueError(f"cannot rename {k!r}")
            if k in self._dims():
                raise Unsupported("rename_vars of a dimension")
        return self.rename(m)

    rename_dims = None

    def transpose(self, *dims, missing_dims="raise"):
        if len(dims) == 1 and isinstance(dims[0], (list, tuple)):
            dims = tuple(dims[0])
        have = self._dimset()
        for d in dims:
            if d is not Ellipsis and d not in have:
                if missing_dims == "ignore":
                    continue
                raise ValueError(f"Dimensions {{{d!r}}} do not exist")
        if dims and Ellipsis not in dims and set(dims) != set(have):
            raise ValueError("arguments to transpose are not permuted dataset dimensions")
        vs = {}
        for k, v in self._vars.items():
            a = tuple(d for d in dims if d is Ellipsis or d in v.dims)
            vs[k] = v.transpose(order_dims(a, v.dims)) if v.dims else v.copy()
        return self._new(vs, self._cn, self._at)

    def isel(self, indexers=None, drop=False, missing_dims="raise", **kw):
        ind = {**(indexers or {}), **kw}
        for d in ind:
            if d not in self._dims():
                raise ValueError(f"Dimensions {{{d!r}}} do not exist.")
        vs = {}
        for k, v in self._vars.items():
            ci = {d: i for d, i in ind.items() if d in v.dims}
            v2 = v.isel(ci) if ci else v
            if drop and ci and not v2.dims and k in self._cn:
                continue
            vs[k] = v2
        return self._new(vs, self._cn, self._at)

    def sel(self, indexers=None, method=None, drop=False, **kw):
        if method is not None:
            raise Unsupported("sel(method)")
        ind = {**(indexers or {}), **kw}
        pos = {}
        for d, lab in ind.items():
            if d not in self._vars:
                raise KeyError(d)
            pos[d] = self[d]._find(d, lab)
        return self.isel(pos, drop=drop)

    def squeeze(self, dim=None, drop=False):
        if dim is None:
            ds = [d for d, a in self._dims().items() if (a.const == 1 if a.const is not None else ctx().decide(K.eq(a.count(), K.num(1))))]
        else:
            ds = [dim] if isinstance(dim, str) else list(dim)
        if not ds:
            return self._new(self._vars, self._cn, self._at)
        return self.isel({d: 0 for d in ds}, drop=drop)

    def drop_vars(self, names, errors="raise"):
        nm = [names] if isinstance(names, str) else list(names)
        for n in nm:
            if n not in self._vars and errors == "raise":
                raise ValueError(f"{n} not found")
        return self._new({k: v for k, v in self._vars.items() if k not in nm}, self._cn, self._at)

    drop = drop_vars

    def drop_dims(self, dims):
        ds = [dims] if isinstance(dims, str) else list(dims)
        return self._new({k: v for k, v in self._vars.items() if not set(v.dims) & set(ds)}, self._cn, self._at)

    def reset_coords(self, names=None, drop=False):
        dims = self._dims()
        nm = [n for n in self._cn if n not in dims] if names is None else ([names] if isinstance(names, str) else list(names))
        if drop:
            return self.drop_vars(nm)
        return self._new({k: v.copy() for k, v in self._vars.items()}, [c for c in self._cn if c not in nm], self._at)

    def set_coords(self, names):
        nm = [names] if isinstance(names, str) else list(names)
        return self._new({k: v.copy() for k, v in self._vars.items()}, self._cn + [n for n in nm if n not in self._cn], self._at)

    def assign_coords(self, coords=None, **kw):
        items = dict(coords.__vc_coords__()) if isinstance(coords, Coords) else dict(coords or {})
        items.update(kw)
        r = self.copy()
        have = self._dims()
        for k, c in items.items():
            v = as_coord(k, c)
            for d in v.dims:
                if d in have and not same_axis(have[d], v.axis(d)):
                    x, y = have[d], v.axis(d)
                    if x.member is not None or y.member is not None:
                        raise Unsupported("coordinate over a subset")
                    if not ctx().decide(K.eq(x.size, y.size)):
                        raise ValueError(f"conflicting sizes for dimension {d!r}")
            r._vars[k] = v
            if k not in r._cn:
                r._cn.append(k)
        return r

    def assign(self, variables=None, **kw):
        r = self.copy()
        for k, v in {**(variables or {}), **kw}.items():
            r[k] = v(r) if callable(v) and not isinstance(v, DataArray) else v
        return r

    def assign_attrs(self, *a, **kw):
        r = self.copy()
        for x in a:
            r._at.update(x)
        r._at.update(kw)
        return r

    def update(self, other):
        for k, v in other.items():
            self[k] = v
        return self

    def merge(self, other, **k):
        r = self.copy()
        for n, v in other.items():
            r[n] = v
        return r

    def where(self, cond, other=None, drop=False):
        return self._map(lambda a: a.where(cond, other, drop), self._at, own=True)

    def fillna(self, value):
        return self._map(lambda a: a.fillna(value), self._at, own=True)

    def chunk(self, *a, **k):
        return self._map(lambda a_: a_.chunk(*a, **k), self._at, own=True)

    sum = _mk_red("sum")
    mean = _mk_red("mean")
    min = _mk_red("min")
    max = _mk_red("max")
    std = _mk_red("std")
    all = _mk_red("all")
    any = _mk_red("any")
    count = _mk_red("count")

    def groupby(self, group, squeeze=True, restore_coord_dims=False):
        return GroupBy(self, group)

    def weighted(self, w):
        return Weighted(self, w)

    def resample(self, *a, **k):
        raise Unsupported("resample")

    def __vc_binop__(self, *a):
        raise Unsupported("Dataset arithmetic")

    __add__ = __sub__ = __mul__ = __truediv__ = __radd__ = __rmul__ = __rsub__ = __vc_binop__


XR_DS = set(
    "nbytes to_dataframe to_array interp differentiate integrate stack unstack sortby pipe swap_dims expand_dims broadcast_like "
    "broadcast_equals equals identical polyfit quantile median cumsum diff shift roll rolling coarsen dropna ffill bfill "
    "head tail thin info to_netcdf to_dict persist reindex reindex_like set_index reset_index filter_by_attrs isin argmin".split()
)


# ------------------------------------------------------------------ weighted
class Weighted:
    __vc_shadow__ = True

    def __init__(self, obj, w):
        if not isinstance(w, DataArray):
            raise ValueError("`weights` must be a DataArray")
        self.obj, self.w = obj, w
        wf = w.variable
        env = {d: K.fresh("w", "I") for d in wf.dims}
        nan = is_nan(wf.at(env))
        if nan is not K.FALSE:
            f = wf.fn()
            anynan = K.agg_bool("any", [a.size for a in wf.nd.axes], lambda ix: K.and_(*[a.inside(i) for a, i in zip(wf.nd.axes, ix)], is_nan(f(dict(zip(wf.dims, ix))))))
            if ctx().decide(anynan):
                raise ValueError("`weights` cannot contain missing values.")

    def _agg(self, kind, dim, skipna=None, keep_attrs=None):
        def one(a):
            w = self.w
            ds = dimlist(dim, union_dims([a.variable, w.variable]) if not isinstance(self.obj, Dataset) else self.obj._dimset())
            ds = [d for d in ds if d in a.dims or d in w.dims]
            # weights are broadcast against the array
            both = union_dims([a.variable, w.variable])
            keep = [d for d in both if d not in ds]
            axes = align_axes([a.variable, w.variable], both)
            axm = dict(zip(both, axes))
            fa, fw = a.variable.fn(), w.variable.fn()

            def el(ix):
                env = dict(zip(keep, ix))
                return wavg(kind, [axm[d] for d in ds], lambda rx: fa({**env, **dict(zip(ds, rx))}), lambda rx: fw({**env, **dict(zip(ds, rx))}))

            nd = NdArray([axm[d] for d in keep], el, "float64")
            coords = {n: c for n, c in a._coords.items() if not set(c.dims) & set(ds)}
            return DataArray._mk(Variable(keep, nd, Attrs(a.attrs) if keep_attrs else {}), coords, a.name)

        if isinstance(self.obj, Dataset):
            return self.obj._map(one)
        return one(self.obj)

    def mean(self, dim=None, skipna=None, keep_attrs=None):
        return self._agg("mean", dim, skipna, keep_attrs)

    def sum(self, dim=None, skipna=None, keep_attrs=None):
        return self._agg("sum", dim, skipna, keep_attrs)

    def sum_of_weights(self, dim=None, keep_attrs=None):
        return self._agg("sow", dim, None, keep_attrs)


def wavg(kind, axes, fa, fw):
    s = snp.red_sum(axes, lambda rx: num(fa(rx)) * num(fw(rx)), True)
    if kind == "sum":
        return s
    w = snp.red_sum(axes, lambda rx: v_ite(num(fa(rx)).nan, num(0), num(fw(rx))), True)
    zero = K.eq(w.t, K.num(0, w.t.sort))
    if kind == "sow":
        return Num(w.t, zero)
    return Num(K.div(s.t, w.t), zero)


# ------------------------------------------------------------------ groupby
class Groups:
    """the distinct sorted values of a key over an axis"""

    def __init__(self, ax, key, component):
        self.ax, self.key, self.component = ax, key, component
        c = ctx()
        self.const = None
        if component == "month":
            if not getattr(c, "months_complete", False):
                raise Unsupported("month groups without the completeness precondition")
            self.const = 12
            self.axis = const_axis(12)
        else:
            def bodies(ix):
                return [K.ite(ax.inside(ix[0]), K.num(1), K.num(0)), num(key(ix[0])).t]

            sig = K.agg_op("grp", [ax.size], bodies, "I")
            self.sig = sig
            self.ng = K.app(f"ngroups:{sig.id}", (), "I")
            self.axis = Axis(self.ng)
            inp = c.prover.inputs
            nm = f"gkey:{sig.id}"
            self.nm = nm
            if nm not in inp.un:
                inp.fact(K.ge(self.ng, K.num(1)))
                inp.fact(K.le(self.ng, ax.size))
                ng = self.ng

                def occurs(g):
                    k = K.app(nm, (g,), "I")
                    inr = K.and_(K.ge(g, K.num(0)), K.lt(g, ng))
                    lo = getattr(c, "key_bounds", {}).get(component)
                    fs = [K.TRUE]
                    if lo:
                        fs = [K.ge(k, K.num(lo[0])), K.le(k, K.num(lo[1]))]
                    return K.implies(inr, K.and_(*fs))

                inp.unary(nm, occurs)
                inp.binary(nm, lambda a, b: K.implies(
                    K.and_(K.ge(a[0], K.num(0)), K.lt(b[0], ng), K.lt(a[0], b[0])),
                    K.lt(K.app(nm, (a[0],), "I"), K.app(nm, (b[0],), "I"))))

    def label(self, g):
        if self.const is not None:
            return Num(K.add(g, K.num(1)))
        return Num(K.app(self.nm, (g,), "I"))

    def member(self, lab):
        ax, key = self.ax, self.key

        def mem(i):
            return K.and_(ax.inside(i), K.eq(num(key(i)).t, lab.t))

        return Axis(ax.size, mem)


class GroupBy:
    __vc_shadow__ = True

    def __init__(self, obj, group):
        self.obj = obj
        if isinstance(group, str):
            if "." in group and group not in (obj._vars if isinstance(obj, Dataset) else obj._coords):
                nm, comp = group.split(".", 1)
                if isinstance(obj, Dataset):
                    if nm not in obj._vars:
                        raise KeyError(nm)
                elif nm not in obj._coords:
                    raise KeyError(nm)
                key = getattr(obj[nm].dt, comp)
            else:
                comp = group
                key = obj[group]
        elif isinstance(group, DataArray):
            key = group
            comp = group.name
        else:
            raise Unsupported("groupby argument")
        if len(key.dims) != 1:
            raise Unsupported("multi-dimensional group")
        self.dim = key.dims[0]
        self.name = comp
        kf = key.variable.nd.snap()
        if key.variable.nd._dt != "int64":
            raise Unsupported("group key type")
        self.g = Groups(key.variable.nd.axes[0], lambda i: kf([i]), comp)

    # mapping interface
    def __vc_dictkeys__(self):
        return SymSeq(self.g.axis, lambda g: self.g.label(g), True, True)

    @property
    def groups(self):
        raise Unsupported("GroupBy.groups")

    def __vc_len__(self):
        return self.g.axis.length()

    def __vc_seq__(self):
        return SymSeq(self.g.axis, lambda g: (self.g.label(g), self[self.g.label(g)]), True, True)

    def __iter__(self):
        return iter(self.__vc_seq__())

    def __getitem__(self, lab):
        n = tonum(lab)
        if n is None:
            raise KeyError(lab)
        ax = self.g.member(n)
        return subset(self.obj, self.dim, ax)

    def _reduce(self, kind, dim=None, skipna=None, keep_attrs=None, ddof=0, **k):
        if k:
            raise Unsupported("groupby reduction argument")
        d0 = self.dim
        ds = [d0] if dim is None else ([dim] if isinstance(dim, str) else (None if dim is Ellipsis else list(dim)))
        if ds is None or ds != [d0]:
            if ds is not None and d0 not in ds and all(isinstance(x, str) for x in ds):
                raise ValueError(f"cannot reduce over dimensions {ds!r}. expected either '...' or one or more of ({d0!r},).")
            raise Unsupported("groupby reduction over other dimensions")
        lab = Variable((self.name,), NdArray([self.g.axis], lambda ix: self.g.label(ix[0]), "int64"))
        isds = isinstance(self.obj, Dataset)

        def one(a):
            v = a.variable
            f = v.fn()
            if d0 not in v.dims:
                if not isds:
                    raise Unsupported("group dimension missing")
                od = [self.name] + list(v.dims)
                nd = NdArray([self.g.axis] + list(v.nd.axes), lambda ix: f(dict(zip(v.dims, ix[1:]))), v.nd._dt)
                return DataArray._mk(Variable(od, nd, a.attrs), {**{n: c for n, c in a._coords.items()}, self.name: lab}, a.name)
            rest = [d for d in v.dims if d != d0]
            if isds:
                od = [self.name] + rest
            else:
                od = [self.name if d == d0 else d for d in v.dims]
            isf = v.nd._dt in ("float64", "float32")
            sk = isf if skipna is None else bool(skipna)
            if v.nd._dt == "object":
                raise Unsupported("groupby reduction of objects")

            def el(ix):
                env = dict(zip(od, ix))
                ax = self.g.member(self.g.label(env[self.name]))
                return snp.reduce(kind, [ax], lambda rx: f({**{d: env[d] for d in rest}, d0: rx[0]}), sk, ddof)

            nd = NdArray([self.g.axis if d == self.name else v.axis(d) for d in od], el, "float64")
            coords = {n: c for n, c in a._coords.items() if d0 not in c.dims}
            coords[self.name] = lab
            ka = True if keep_attrs is None else keep_attrs
            return DataArray._mk(Variable(od, nd, Attrs(a.attrs) if ka else {}), coords, a.name)

        if isds:
            return self.obj._map(one, dict(self.obj.attrs) if keep_attrs else None)
        return one(self.obj)

    def mean(self, dim=None, **k):
        return self._reduce("mean", dim, **k)

    def sum(self, dim=None, **k):
        return self._reduce("sum", dim, **k)

    def min(self, dim=None, **k):
        return self._reduce("min", dim, **k)

    def max(self, dim=None, **k):
        return self._reduce("max", dim, **k)

    def std(self, dim=None, **k):
        return self._reduce("std", dim, **k)

    def count(self, dim=None, **k):
        return self._reduce("count", dim, **k)

    def map(self, *a, **k):
        raise Unsupported("groupby.map")

    apply = reduce = map

    def __getattr__(self, k):
        if k.startswith("_") or k == "sym":
            raise AttributeError(k)
        raise Unsupported(f"groupby.{k}")


def subset(obj, dim, ax):
    def sv(v):
        if dim not in v.dims:
            return v
        axes = [ax if d == dim else a for d, a in zip(v.dims, v.nd.axes)]
        return Variable(v.dims, NdArray(axes, v.nd.snap(), v.nd._dt), v.attrs, v.encoding)

    if isinstance(obj, Dataset):
        return obj._new({k: sv(v) for k, v in obj._vars.items()}, obj._cn, obj._at)
    return DataArray._mk(sv(obj.variable), {n: sv(c) for n, c in obj._coords.items()}, obj.name)


# ------------------------------------------------------------------ module functions
def where(cond, x, y, keep_attrs=None):
    if keep_attrs not in (None, False, "override", "drop"):
        raise Unsupported(f"xr.where(keep_attrs={keep_attrs!r})")
    if not any(isinstance(a, (DataArray, Variable, Dataset)) for a in (cond, x, y)):
        return snp.where(cond, x, y)
    keep = keep_attrs == "override"
    r = ew_named(lambda c, a, b: v_ite(snp._tb(c), *snp._common(a, b)), [cond, x, y], keep, share=True)
    drop_merged_attrs([a for a in (cond, x, y) if isinstance(a, DataArray)], r._coords, keep)
    return r


def _broadcast_to(da, od, objs):
    axes = align_axes([o.variable for o in objs], od)
    f = da.variable.fn()
    nd = NdArray(axes, lambda ix: f(dict(zip(od, ix))), da.variable.nd._dt)
    coords = merge_coords(objs, od)
    # only indexes are taken from the other objects
    coords = {n: c.copy() for n, c in coords.items() if n in da._coords or n in od}
    return DataArray._mk(Variable(od, nd, da.attrs, da.encoding), coords, da.name)


def broadcast(*args, exclude=None):
    if exclude:
        raise Unsupported("broadcast(exclude)")
    if not all(isinstance(a, DataArray) for a in args):
        raise Unsupported("broadcast of Dataset")
    od = union_dims([a.variable for a in args])
    return tuple(_broadcast_to(a, od, args) for a in args)


def align(*objs, **k):
    for d in union_dims([o.variable for o in objs]):
        cs = [o._coords[d] for o in objs if d in o._coords]
        for c in cs[1:]:
            if not same_values(cs[0], c):
                raise Unsupported("align of different indexes")
    return tuple(o.copy(deep=False) for o in objs)


def _like(da, v, dtype=None):
    if isinstance(da, Dataset):
        return da._map(lambda a: _like(a, v, dtype), da._at)
    nd = snp._like(da.variable.nd, v, dtype)
    if not isinstance(nd, NdArray):
        nd = nd0(nd)
    return DataArray._mk(Variable(da.dims, nd, da.attrs), da._coords, da.name)._detach()


def ones_like(da, dtype=None):
    return _like(da, 1, dtype)


def zeros_like(da, dtype=None):
    return _like(da, 0, dtype)


def full_like(da, fill_value, dtype=None):
    return _like(da, fill_value, dtype)


def dot(*arrays, dims=None, dim=None):
    if dims is None:
        dims = dim
    vs = [a.variable for a in arrays]
    alld = union_dims(vs)
    if isinstance(dims, str):
        dims = [dims]
    elif dims is Ellipsis:
        dims = list(alld)
    elif dims is None:
        dims = [d for d in alld if sum(d in v.dims for v in vs) > 1]
    else:
        dims = list(dims)
    common = [d for d in alld if all(d in v.dims for v in vs) and d not in dims]
    rest = [d for d in alld if d not in dims and d not in common]
    od = common + rest
    axm = dict(zip(alld, align_axes(vs, alld)))
    fs = [v.fn() for v in vs]
    dd = [d for d in dims if d in alld]

    def el(ix):
        env = dict(zip(od, ix))

        def body(rx):
            e = {**env, **dict(zip(dd, rx))}
            r = num(fs[0](e))
            for f in fs[1:]:
                r = r * num(f(e))
            return r

        return snp.red_sum([axm[d] for d in dd], body, False)

    nd = NdArray([axm[d] for d in od], el, "float64")
    coords = merge_coords(arrays, od)
    return DataArray._mk(Variable(od, nd), coords, result_name(arrays))


def apply_ufunc(func, *args, input_core_dims=None, output_core_dims=((),), exclude_dims=frozenset(), vectorize=False,
                join="exact", dataset_join="exact", dataset_fill_value=None, keep_attrs=None, kwargs=None, dask="forbidden",
                output_dtypes=None, output_sizes=None, meta=None, dask_gufunc_kwargs=None, on_missing_core_dim="raise"):
    if exclude_dims or vectorize or any(isinstance(a, Dataset) for a in args):
        raise Unsupported("apply_ufunc form")
    if keep_attrs not in (None, False, True, "override", "drop"):
        raise Unsupported(f"apply_ufunc(keep_attrs={keep_attrs!r})")
    keep_attrs = keep_attrs in (True, "override")
    if input_core_dims is None:
        input_core_dims = [()] * len(args)
    if len(input_core_dims) != len(args):
        raise ValueError("input_core_dims must be same length as args")
    das = [a for a in args if isinstance(a, DataArray)]
    allcore = [d for c in input_core_dims for d in c]
    vs = [wrap_arg(a) for a in args]
    bdims = []
    for v, core in zip(vs, input_core_dims):
        if v is None:
            continue
        for c in core:
            if c not in v.dims:
                raise ValueError(f"operand to apply_ufunc has required core dimensions {list(core)}, but some of them are missing")
        for d in v.dims:
            if d not in core and d not in bdims:
                bdims.append(d)
    dvs = [v for v in vs if v is not None]
    full = bdims + [d for d in allcore if d not in bdims]
    axm = dict(zip(full, align_axes(dvs, full)))
    pos = []
    for a, v, core in zip(args, vs, input_core_dims):
        if v is None:
            pos.append(a)
            continue
        core = list(core)
        mine = [d for d in bdims if d in v.dims]
        order = mine + core
        w = v.transpose(order)
        if [d for d in bdims if d in v.dims] != bdims:
            # insert broadcast axes after the first present dimension
            lead = True
            axes, src = [], []
            for d in bdims:
                if d in v.dims:
                    lead = False
                    axes.append(axm[d])
                    src.append(d)
                elif not lead or core:
                    axes.append(const_axis(1))
                    src.append(None)
            axes += [axm[c] for c in core]
            src += core
            f = w.fn()
            nd = NdArray(axes, lambda ix, f=f, src=src: f({d: i for d, i in zip(src, ix) if d is not None}), v.nd._dt)
            pos.append(nd)
        else:
            nd = w.nd
            if nd is v.nd:
                pass
            pos.append(nd)
    if any(getattr(p, "chunks_", None) is not None for p in pos) and dask == "forbidden":
        raise ValueError("apply_ufunc encountered a dask array on an argument, but handling for dask arrays has not been enabled.")
    if dask == "parallelized" and any(getattr(p, "chunks_", None) is not None for p in pos):
        raise Unsupported("dask=parallelized")
    pos = [p.elem([]) if isinstance(p, NdArray) and not p.axes else p for p in pos]
    r = func(*pos, **(kwargs or {}))
    outs = list(output_core_dims)
    multi = len(outs) > 1
    rs = list(r) if multi else [r]
    if len(rs) != len(outs):
        raise ValueError("applied function returned unexpected number of outputs")
    if not dvs:
        return r
    built = []
    allout = [d for o in outs for d in o]
    dropped = set(allcore) - set(allout)
    coords = merge_coords(das, [d for d in full] + [d for d in allout])
    if len(das) == 1:
        coords = dict(das[0]._coords)
    drop_merged_attrs(das, coords, keep_attrs)
    coords = {n: c for n, c in coords.items() if not set(c.dims) & dropped}
    for x, od in zip(rs, outs):
        nd = to_nd(x)
        dims = bdims + list(od)
        if len(nd.axes) != len(dims):
            raise ValueError(f"applied function returned data with unexpected number of dimensions. Received {len(nd.axes)} dimension(s) but expected {len(dims)}")
        axes = list(nd.axes)
        for j, d in enumerate(dims):
            if d in axm and not same_axis(axm[d], axes[j]):
                if axes[j].member is not None or axm[d].member is not None:
                    raise Unsupported("apply_ufunc over subsets")
                if not ctx().decide(K.eq(axm[d].size, axes[j].size)):
                    raise ValueError(f"size of dimension {d!r} on inputs was unexpectedly changed by applied function")
        attrs = Attrs(das[0].attrs) if keep_attrs and das else {}
        built.append(DataArray._mk(Variable(dims, nd, attrs), coords, result_name(das)))
    return tuple(built) if multi else built[0]


def concat(objs, dim, data_vars="all", coords="different", compat="equals", **k):
    if k:
        raise Unsupported(f"concat({sorted(k)})")
    if not isinstance(dim, str):
        raise Unsupported("concat along a non-name")
    seq = sym.seq_of(objs)
    if seq is None:
        items = list(objs)
        if not items:
            raise ValueError("must supply at least one object to concatenate")
        seq = SymSeq(const_axis(len(items)), lambda i: _pick_obj(items, i))
    n = seq.axis
    if n.member is not None:
        raise Unsupported("concat of filtered list")
    probe = seq.item(K.fresh("cc", "I")) if n.const is None else seq.item(K.num(0))
    if isinstance(probe, Dataset):
        r = Dataset()
        for v in probe.keys():
            a = concat(SymSeq(n, lambda i, v=v: seq.item(i)[v]), dim)
            for c, cv in a._coords.items():
                if c not in r._vars:
                    r._vars[c] = cv
                    r._cn.append(c)
            r._vars[v] = a.variable
        object.__setattr__(r, "_at", Attrs(probe._at))
        return r
    v0 = probe.variable
    if dim not in v0.dims:
        od = [dim] + list(v0.dims)
        nd = NdArray([n] + list(v0.nd.axes), lambda ix: seq.item(ix[0]).variable.nd.elem(ix[1:]), v0.nd._dt)
        coords = {}
        for c, cv in probe._coords.items():
            # coordinates equal in every item are kept as they are
            if K.subterms(_terms_of(cv)) & _loopvars(probe, n):
                continue
            coords[c] = cv
        if dim in probe._coords:
            raise Unsupported("concat over a scalar coordinate")
        return DataArray._mk(Variable(od, nd, v0.attrs), coords, probe.name)
    ax = v0.axis(dim)
    if ax.const is None:
        raise Unsupported("concat of symbolic-length pieces")
    L = ax.const
    p = v0.dims.index(dim)
    tot = Axis(K.mul(n.size, K.num(L)))

    def split(i):
        return K.idiv(i, K.num(L)), K.imod(i, K.num(L))

    def el(ix):
        q, r = split(ix[p])
        return seq.item(q).variable.nd.elem(ix[:p] + [r] + ix[p + 1:])

    nd = NdArray([tot if j == p else a for j, a in enumerate(v0.nd.axes)], el, v0.nd._dt)
    coords = {}
    for c, cv in probe._coords.items():
        if dim in cv.dims:
            if cv.dims != (dim,):
                raise Unsupported("concat of multi-dimensional coordinate")

            def ce(ix, c=c):
                q, r = split(ix[0])
                return seq.item(q)._coords[c].nd.elem([r])

            coords[c] = Variable((dim,), NdArray([tot], ce, cv.nd._dt), cv.attrs)
        else:
            coords[c] = cv
    return DataArray._mk(Variable(v0.dims, nd, v0.attrs), coords, probe.name)


def _pick_obj(items, i):
    if K.isconst(i):
        return items[int(K.cval(i))]
    first = items[0]
    if not all(isinstance(x, DataArray) and x.dims == first.dims for x in items):
        raise Unsupported("concat of unlike objects")
    v = first.variable

    def el(ix):
        return sym.pick_val([x.variable.nd.elem(ix) for x in items], i)

    for x in items[1:]:
        for d in v.dims:
            if not same_axis(v.axis(d), x.variable.axis(d)):
                raise Unsupported("concat of unequal pieces")
    co = {}
    for n, c in first._coords.items():
        co[n] = Variable(c.dims, NdArray(c.nd.axes, lambda ix, n=n: sym.pick_val([x._coords[n].nd.elem(ix) for x in items], i), c.nd._dt), c.attrs)
    return DataArray._mk(Variable(v.dims, NdArray(v.nd.axes, el, v.nd._dt), v.attrs), co, first.name)


def _terms_of(v):
    e = v.nd.elem([K.fresh("z", "I")] * len(v.dims))
    if isinstance(e, Num):
        return [e.t, e.nan]
    if isinstance(e, (DtVal, TdVal)):
        return [e.t]
    return []


def _loopvars(probe, n):
    return set()


def merge(objs, **k):
    r = Dataset()
    for o in objs:
        if isinstance(o, DataArray):
            r[o.name] = o
        else:
            for n, v in o.items():
                r[n] = v
    return r


_YMD = re.compile(r"(.+)-(\d\d)-(\d\d)$")


def cftime_range(start=None, end=None, periods=None, freq="D", normalize=False, name=None, closed=None, inclusive=None, calendar="standard"):
    if end is not None or closed or inclusive or periods is None or start is None:
        raise Unsupported("cftime_range form")
    n = sym.idx_const(periods)
    nsym = None
    if n is None:
        nsym = sym.idx(periods)
    if isinstance(start, DtVal):
        raise Unsupported("cftime_range from a datetime")
    y, m, d = parse_date(start)
    cal = calendar
    if freq in ("YS", "AS", "YS-JAN", "AS-JAN"):
        if not (m == 1 and d == 1):
            raise Unsupported("cftime_range start")
        item = lambda i: DtVal(sym.ymd(cal, K.add(y, i), K.num(1), K.num(1)), cal)
    elif freq == "MS":
        if d != 1:
            raise Unsupported("cftime_range start")

        def item(i):
            k = K.add(i, K.num(m - 1))
            return DtVal(sym.ymd(cal, K.add(y, K.idiv(k, K.num(12))), K.add(K.imod(k, K.num(12)), K.num(1)), K.num(1)), cal)
    elif freq in ("D", "1D"):
        item = lambda i: DtVal(K.add(sym.ymd(cal, y, K.num(m), K.num(d)), K.toreal(i)), cal)
    else:
        raise Unsupported(f"cftime_range freq {freq}")
    ax = const_axis(n) if n is not None else Axis(nsym)
    nd = NdArray([ax], lambda ix: item(ix[0]), "object")
    r = CFTimeIndex(Variable(("time",), nd))
    return r


def parse_date(s):
    """(year term, month, day) of an ISO date string with possibly symbolic year"""
    if not isinstance(s, str):
        raise Unsupported("date argument")
    m = _YMD.match(s)
    if not m:
        raise Unsupported(f"date string {s!r}")
    ys, mo, da = m.group(1), int(m.group(2)), int(m.group(3))
    t = sym.TOK.fullmatch(ys)
    if t:
        n = sym.token_value(t.group(1))
        fmt = t.group(2)
        lo = 0 if fmt == "z4" else 1000
        if fmt not in (None, "z4", ""):
            raise Unsupported("date format")
        ok = K.and_(K.ge(n.t, K.num(lo)), K.le(n.t, K.num(9999)))
        if not ctx().decide(ok):
            raise ValueError("no ISO-8601 or cftime-string-like match for string")
        return n.t, mo, da
    if re.fullmatch(r"\d{4}", ys):
        return K.num(int(ys)), mo, da
    if re.fullmatch(r"\d+", ys):
        raise ValueError("no ISO-8601 or cftime-string-like match for string")
    raise Unsupported(f"date string {s!r}")


def get_clean_interp_index(arr, dim, use_datetime=True, strict=True):
    if dim not in arr._coords:
        ax = arr.variable.axis(dim)
        return NdArray([ax], lambda ix: Num(K.toreal(ix[0])), "float64")
    c = arr._coords[dim]
    f = c.nd.snap()
    if is_time(c):
        def el(ix):
            return ns_since_1970(f(ix))
    else:
        def el(ix):
            n = num(f(ix))
            return Num(K.toreal(n.t), n.nan)
    return NdArray(c.nd.axes, el, "float64")


def ns_since_1970(v):
    off = sym.ymd(v.cal, K.num(1970), K.num(1), K.num(1))
    return Num(K.mul(K.sub(v.t, off), K.num(86400 * 10**9)))


class _NS:
    def __init__(self, name, **k):
        self.__dict__["_name"] = name
        self.__dict__.update(k)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"{self._name}.{k}")


def build():
    dsmod = _NS("xarray.core.dataset", Dataset=Dataset)
    damod = _NS("xarray.core.dataarray", DataArray=DataArray)
    missing = _NS("xarray.core.missing", get_clean_interp_index=get_clean_interp_index)
    cfi = _NS("xarray.coding.cftimeindex", CFTimeIndex=CFTimeIndex)
    core = _NS("xarray.core", dataset=dsmod, dataarray=damod, missing=missing)
    coding = _NS("xarray.coding", cftimeindex=cfi)
    m = _NS(
        "xarray", DataArray=DataArray, Dataset=Dataset, Variable=Variable, where=where, broadcast=broadcast, align=align,
        ones_like=ones_like, zeros_like=zeros_like, full_like=full_like, dot=dot, apply_ufunc=apply_ufunc, concat=concat,
        merge=merge, cftime_range=cftime_range, core=core, coding=coding, CFTimeIndex=CFTimeIndex,
    )
    return {
        "xarray": m, "xarray.core": core, "xarray.core.dataset": dsmod, "xarray.core.dataarray": damod,
        "xarray.core.missing": missing, "xarray.coding": coding, "xarray.coding.cftimeindex": cfi,
    }
