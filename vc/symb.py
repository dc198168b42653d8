"""Symbolic back end of the contract vocabulary: inputs are uninterpreted
functions of their index (every value, every size), aggregates are terms."""
from fractions import Fraction
from . import terms as K
from . import sym, snp, sxr, spd
from .sym import Num, SymBool, DtVal, Axis, Unsupported, num, tonum, tobool, sb, NAN, RealLit


class Ax:
    def __init__(self, name, axis):
        self.name = name
        self.axis = axis

    @property
    def n(self):
        return Num(self.axis.size)


def ix_t(i):
    if isinstance(i, K.T):
        return i
    return sym.idx(i)


class Handle:
    """an input array"""

    def __init__(self, S, name, dims, elem, dtype="float64"):
        self.S = S
        self.name = name
        self.dims = list(dims)
        self.elem = elem
        self.dtype = dtype

    def __call__(self, *ix):
        return self.elem([ix_t(i) for i in ix])

    def np(self):
        r = snp.NdArray([a.axis for a in self.dims], lambda ix: self.elem(ix), self.dtype)
        self.S.objs.append((self.name, r))
        return r

    def da(self, coords=(), attrs=None, name=None, scalar_coords=None, chunks=None, encoding=None):
        nd = snp.NdArray([a.axis for a in self.dims], lambda ix: self.elem(ix), self.dtype)
        chunks = chunks or self.S.lazy and bool(self.dims)
        if chunks:
            nd.chunks_ = tuple((Num(a.axis.size),) for a in self.dims)
        if isinstance(chunks, dict):
            # any number of chunks along the named dimensions
            def cut(a):
                q = K.var(f"nchunks_{a.name}", "I")
                self.S.inputs.fact(K.and_(K.ge(q, K.num(1)), K.le(q, a.axis.size)))
                return sym.SymSeq(Axis(q), lambda i: Num(K.app(f"chunk_{a.name}", (i,), "I")))

            nd.chunks_ = tuple(cut(a) if a.name in chunks else (Num(a.axis.size),) for a in self.dims)
        cs = {}
        for c in coords:
            cs[c.name] = c._coordvar()
        for k, v in (scalar_coords or {}).items():
            cs[k] = sxr.Variable((), sxr.nd0(num(v)))
        r = sxr.DataArray._mk(sxr.Variable([a.name for a in self.dims], nd, self.S.opened({"vc_note": self.name} if attrs is None else attrs, self.name), {"vc_enc": self.name} if encoding is None else encoding), cs, name)
        self.S.objs.append((self.name, r))
        return r

    def _coordvar(self):
        nd = snp.NdArray([a.axis for a in self.dims], lambda ix: self.elem(ix), self.dtype)
        at = getattr(self, "attrs", None)
        en = getattr(self, "encoding", None)
        return sxr.Variable([a.name for a in self.dims], nd, self.S.opened({"vc_note": self.name} if at is None else at, self.name), {"vc_enc": self.name} if en is None else en)


def contract_elem(name, args):
    """value promised by a callee's contract: a specification function of the
    arguments, missing exactly where an argument is missing"""
    return Num(K.app("c_" + name, tuple(K.toreal(a.t) for a in args), "R"), K.or_(*[a.nan for a in args]))


# callees replaced by their contracts when a caller is verified (proved in C01 / C02)
CONTRACTS = {f"momlevel.eos.wright:{f}": (f"wright.{f}", 3) for f in ("density", "drho_dtemp", "drho_dsal", "alpha", "beta")}
CONTRACTS.update({f"momlevel.eos.linear:{f}": (f"linear.{f}", 2) for f in ("density", "alpha", "beta")})


def c_adjust(q, a, k):
    """contract of adjust_negative_n2 (proved in C18)"""
    from specs import strat

    if sym.CTX.target == q or not a or not isinstance(a[0], sxr.DataArray) or set(k) - {"zcoord"} or len(a) > 2:
        return NotImplemented
    n2 = a[0]
    z = a[1] if len(a) > 1 else k.get("zcoord", "z_l")
    if not isinstance(z, str) or z not in n2.dims or n2.dtype != "float64":
        return NotImplemented
    v = n2.variable.nd
    kz = n2.dims.index(z)
    S = SymBackend.__new__(SymBackend)
    S.nan = NAN
    S.sym = True
    fn = strat.adjusted(S, Ax(z, v.axes[kz]), lambda *ix: num(v.elem([ix_t(i) for i in ix])), ["z" if d == z else "." for d in n2.dims])
    if kz:
        # recorded defect (known_findings.txt): either value, chosen arbitrarily at each element
        both = fn

        def fn(*ix):
            right, recorded = both(*ix).vals
            return sym.v_ite(K.eq(K.app("choice", tuple(ix_t(i) for i in ix), "I"), K.num(0)), num(right), num(recorded))

    sym.CTX.used_contracts[q] = sym.CTX.used_contracts.get(q, 0) + 1
    nd = snp.NdArray(v.axes, lambda ix: num(fn(*[Num(i) for i in ix])), "float64")
    return sxr.DataArray._mk(sxr.Variable(list(n2.dims), nd, {**n2.attrs, "comment": "adjustment applied for negative values"}), dict(n2._coords), n2.name)


ARRAY_CONTRACTS = {"momlevel.derived:adjust_negative_n2": c_adjust}


def hook(q, f, a, k):
    if q in ARRAY_CONTRACTS:
        return ARRAY_CONTRACTS[q](q, a, k)
    c = CONTRACTS.get(q)
    if c is None or k or len(a) != 3:
        return NotImplemented
    name, n = c
    xs = list(a[:n])
    if not all(isinstance(x, snp.NdArray) or tonum(x) is not None for x in xs) or any(isinstance(x, (sxr.DataArray, sxr.Variable)) for x in xs):
        return NotImplemented
    cx = sym.CTX
    cx.used_contracts[q] = cx.used_contracts.get(q, 0) + 1
    return snp.ew(lambda *v: contract_elem(name, [num(x) for x in v]), *xs)


class SymBackend:
    sym = True
    contracts = False

    def __init__(self, ctx):
        self.ctx = ctx
        self.inputs = ctx.prover.inputs
        self.pre = []
        self.reg = {}  # name -> ("arr"/"axis"/"scalar"/"time", info) for counter-model replay
        self.objs = []
        self.pi = sym.PI
        self.nan = NAN

    # ---- inputs
    def axis(self, name, lo=1, n=None, hi=None, id=None, gen=None):
        """a dimension of arbitrary length >= lo"""
        if n is not None:
            return Ax(name, Axis(num(n).t))
        v = K.var(f"n_{id or name}", "I")
        self.inputs.fact(K.ge(v, K.num(lo)))
        if hi is not None:
            self.inputs.fact(K.le(v, K.num(hi)))
        self.reg[f"n_{id or name}"] = ("axis", v, lo)
        return Ax(name, Axis(v))

    def axis_plus(self, ax, name, k):
        return Ax(name, Axis(K.add(ax.axis.size, K.num(k))))

    def axis_of(self, name, n):
        return Ax(name, Axis(num(n).t))

    def _bounds(self, f, lo, hi, gt, lt, sort="R"):
        def cb(*ix):
            t = K.app(f, ix, sort)
            fs = []
            if lo is not None:
                fs.append(K.ge(t, num(lo).t))
            if hi is not None:
                fs.append(K.le(t, num(hi).t))
            if gt is not None:
                fs.append(K.gt(t, num(gt).t))
            if lt is not None:
                fs.append(K.lt(t, num(lt).t))
            return K.and_(*fs)

        if any(x is not None for x in (lo, hi, gt, lt)):
            self.inputs.unary(f, cb)

    def unknown(self, name, words, fold=False):
        """any string that is none of the words (in any casing, when fold), nor starts with two underscores"""
        return sym.SymStr(name, excl={w.lower() if fold else w for w in words}, fold=fold)

    def casing(self, name, word):
        """the word in any mixture of upper and lower case"""
        return sym.SymStr(name, word=word)

    prop = None

    def opened(self, attrs, name):
        """the given attributes and any others; the trend functions read the common ones, so that
        there these are present only when given"""
        return sxr.opened(attrs, name, ("units", "long_name", "standard_name") if self.prop in ("C13", "C14", "C15") else ())

    ints = ()
    f32 = ()
    lazy = False

    def arr(self, name, dims, nan=True, lo=None, hi=None, gt=None, lt=None, integer=False, gen=None, scale=None):
        """array of arbitrary reals (NaN allowed unless nan=False); lo/hi/gt/lt are
        preconditions, gen is only a hint for concrete input generation"""
        f = f"v_{name}"
        g = f"nan_{name}"
        integer = integer or name in self.ints
        self._bounds(f, lo, hi, gt, lt, "I" if integer else "R")
        self.reg[f] = ("arr", name)

        def elem(ix):
            ix = tuple(ix)
            if integer:
                return Num(K.app(f, ix, "I"))
            return Num(K.app(f, ix, "R"), K.app(g, ix, "B") if nan else K.FALSE)

        if nan and not integer:
            self.reg[g] = ("nan", name)
        return Handle(self, name, dims, elem, "int64" if integer else "float32" if self.f32 is True or name in self.f32 else "float64")

    def coord(self, ax, name=None, inc=True, lo=None, hi=None, gt=None, lt=None, gen=None, id=None, attrs=None, step=None):
        """1-d coordinate; strictly increasing when inc (decreasing: dec, any order: distinct)"""
        nm = id or name or ax.name
        f = f"v_{nm}"
        self._bounds(f, lo, hi, gt, lt)
        if inc == "distinct":
            self.inputs.binary(f, lambda a, b: K.implies(K.not_(K.eq(a[0], b[0])), K.not_(K.eq(K.app(f, (a[0],), "R"), K.app(f, (b[0],), "R")))))
        elif inc == "dec":
            self.inputs.binary(f, lambda a, b: K.implies(K.lt(a[0], b[0]), K.lt(K.app(f, (b[0],), "R"), K.app(f, (a[0],), "R"))))
        elif inc:
            self.inputs.binary(f, lambda a, b: K.implies(K.lt(a[0], b[0]), K.lt(K.app(f, (a[0],), "R"), K.app(f, (b[0],), "R"))))
        self.reg[f] = ("arr", nm)
        h = Handle(self, name or ax.name, [ax], lambda ix: Num(K.app(f, tuple(ix), "R")))
        h.attrs = attrs
        return h

    def affine(self, h, x0, d):
        """constrain a 1-d input to origin + index * spacing"""
        f = f"v_{h.name}"
        h.elem = lambda ix: Num(K.add(num(x0).t, K.mul(num(d).t, K.toreal(ix[0]))))
        h.attrs = None
        h.name = h.dims[0].name
        return h

    def time(self, ax, cal="noleap", name=None, id=None, gen="monthly", attrs=None, recent=False):
        nm = id or name or ax.name
        f = f"t_{nm}"
        self.inputs.binary(f, lambda a, b: K.implies(K.lt(a[0], b[0]), K.lt(K.app(f, (a[0],), "R"), K.app(f, (b[0],), "R"))))
        mk, dt = (sym.NpDt, "datetime64[ns]") if cal == "numpy" else (DtVal, "object")
        cal = "proleptic_gregorian" if cal == "numpy" else cal
        self.calendar_axioms(cal)
        self.reg[f] = ("time", nm)
        h = Handle(self, name or ax.name, [ax], lambda ix: mk(K.app(f, tuple(ix), "R"), cal), dt)
        h.attrs = attrs
        h.cal = cal
        return h

    def calendar_axioms(self, cal):
        inp = self.inputs
        if f"month_{cal}" in inp.un:
            return
        n = K.num
        inp.unary(f"month_{cal}", lambda t: K.and_(K.ge(K.app(f"month_{cal}", (t,), "I"), n(1)), K.le(K.app(f"month_{cal}", (t,), "I"), n(12))))
        inp.unary(f"year_{cal}", lambda t: K.and_(K.ge(K.app(f"year_{cal}", (t,), "I"), n(1)), K.le(K.app(f"year_{cal}", (t,), "I"), n(9999))))
        inp.unary(f"dim_{cal}", lambda y, m: K.and_(K.ge(K.app(f"dim_{cal}", (y, m), "I"), n(28)), K.le(K.app(f"dim_{cal}", (y, m), "I"), n(31))))

    def edge(self):
        return None

    def generic(self, name, real=False):
        """an arbitrary but fixed value (bound variable of a lemma)"""
        return Num(K.fresh("g_" + name.replace(" ", "_"), "R" if real else "I"))

    def flip(self, p):
        """a choice of generated inputs: the proof covers all of them"""
        return False

    ix0 = K.num(0)

    def scalar(self, name, lo=None, hi=None, gt=None, lt=None, gen=None, integer=False):
        v = K.var(f"s_{name}", "I" if integer else "R")
        if lo is not None:
            self.inputs.fact(K.ge(v, num(lo).t))
        if hi is not None:
            self.inputs.fact(K.le(v, num(hi).t))
        if gt is not None:
            self.inputs.fact(K.gt(v, num(gt).t))
        if lt is not None:
            self.inputs.fact(K.lt(v, num(lt).t))
        self.reg[f"s_{name}"] = ("scalar", v)
        return Num(v, py=True)

    def dataset(self, vars, attrs=None, coords=None, encoding=None):
        ds = sxr.Dataset({})
        for k, v in vars.items():
            ds[k] = v
        for k, v in (coords or {}).items():
            ds = ds.assign_coords({k: v})
        ds.attrs = self.opened(attrs or {}, "dataset")
        ds.encoding = {"vc_enc": "dataset"} if encoding is None else encoding
        self.objs.append(("dataset", ds))
        return ds

    def assume(self, b):
        t = tobool(b)
        if t is None:
            t = K.boolc(bool(b))
        if t is K.FALSE:
            raise Unsupported("contradictory precondition")
        if t is not K.TRUE:
            self.pre.append(t)

    # ---- operators
    def c(self, s):
        return Num(K.num(Fraction(s), "R"))

    def ite(self, c, a, b):
        t = tobool(c)
        if t is None:
            t = K.boolc(bool(c))
        if t is K.TRUE:
            return a() if callable(a) else a
        if t is K.FALSE:
            return b() if callable(b) else b
        a = a() if callable(a) else a
        b = b() if callable(b) else b
        if isinstance(a, (bool, SymBool)):
            return sym.v_ite(t, a, b)
        return sym.v_ite(t, a if isinstance(a, DtVal) else num(a), b if isinstance(b, DtVal) else num(b))

    def _b(self, x):
        t = tobool(x)
        return K.boolc(bool(x)) if t is None else t

    def and_(self, *xs):
        return sb(K.and_(*[self._b(x) for x in xs]))

    def or_(self, *xs):
        return sb(K.or_(*[self._b(x) for x in xs]))

    def not_(self, x):
        return sb(K.not_(self._b(x)))

    def isnan(self, x):
        return sb(sym.is_nan(x))

    def eq(self, a, b):
        return num(a) == num(b)

    def min(self, a, b):
        return sym.n_min(num(a), num(b))

    def max(self, a, b):
        return sym.n_max(num(a), num(b))

    def abs(self, a):
        return abs(num(a))

    def sqrt(self, a):
        return sym.n_sqrt(num(a))

    def log(self, a):
        return sym.n_log(num(a))

    def sin(self, a):
        return sym.n_sin(num(a))

    def cos(self, a):
        return sym.n_cos(num(a))

    def arctan(self, a):
        return snp.arctan(num(a))

    def arctan2(self, a, b):
        return snp.arctan2(num(a), num(b))

    def real(self, a):
        a = num(a)
        return Num(K.toreal(a.t), a.nan)

    def contract(self, name, args):
        return contract_elem(name, [num(a) for a in args])

    def deriv(self, f, x):
        """d f / d x, by formal differentiation"""
        v = K.fresh("dx", "R")
        y = num(f(Num(v)))
        x = num(x)
        return Num(K.subst(K.diff(y.t, v), {v: K.toreal(x.t)}), x.nan if y.nan is K.FALSE else K.or_(x.nan, y.nan))

    # ---- tables
    def flags(self, name, dims):
        """array of truth values"""
        f = f"b_{name}"
        return Handle(self, name, dims, lambda ix: sb(K.app(f, tuple(ix), "B")), "bool")

    def strings(self, name, ax, prefix=" g'X, (1)/é", distinct=True, suffix="- Yz_. "):
        """distinct strings along an axis"""
        f = f"v_{name}"
        if distinct:
            self.inputs.binary(f, lambda a, b: K.implies(K.not_(K.eq(a[0], b[0])), K.not_(K.eq(K.app(f, (a[0],), "I"), K.app(f, (b[0],), "I")))))
        return Handle(self, name, [ax], lambda ix: sym.TokStr(prefix + sym.token(Num(K.app(f, tuple(ix), "I"))) + suffix), "object")

    def table(self, name, ax, cols, index=None, inames=None):
        """pandas table over the rows of an axis; cols: (name, handle) pairs"""
        cs = [[n, (lambda i, h=h: h.elem([i]))] for n, h in cols]
        if index is None:
            ix, nm = (lambda i: Num(i)), (None,)
        elif isinstance(index, (list, tuple)):
            ix, nm = (lambda i: tuple(h.elem([i]) for h in index)), inames or [h.name for h in index]
        else:
            ix, nm = (lambda i: index.elem([i])), inames or [index.name]
        r = spd.DataFrame._mk(ax.axis, cs, ix, nm)
        self.objs.append((name, r))
        return r

    def csvfile(self, df, name="gauges"):
        p = f"vc-file:{name}.csv"
        self._tables()[p] = df
        return p

    def _tables(self):
        if "tables" not in self.ctx.__dict__ or self.ctx.__dict__.get("tables_of") is not self:
            self.ctx.tables, self.ctx.tables_of = {}, self
        return self.ctx.tables

    def resource(self, fname, ax_name="loc"):
        """a table shipped with the package: (axis, columns) with arbitrary content"""
        ax = self.axis(ax_name, lo=1, id=fname.split(".")[0])
        cols = {}
        for c in ("Country", "PSMSL_site", "NOAA_name", "PSMSLID", "NOAAID", "lat", "lon"):
            nm = f"{fname.split('.')[0]}_{c}"
            if c in ("lat", "lon"):
                cols[c] = self.arr(nm, [ax], nan=False)
            elif c == "PSMSL_site":
                cols[c] = self.strings(nm, ax)
            else:
                cols[c] = self.arr(nm, [ax])
        self._tables()["vc-resource:momlevel/resources/" + fname] = self.table(fname, ax, list(cols.items()))
        self.objs.pop()
        return ax, cols

    def nearest(self, axes, valid, lat, lon, la, lo):
        """(great-circle distance on the unit sphere, indices) of the valid point closest to (la, lo), degrees"""
        axs = self._axes(axes)
        r = lambda x: num(x) * sym.PI / 180

        def member(ix):
            return K.and_(*[a.inside(i) for a, i in zip(axs, ix)], self._b(valid(*[Num(i) for i in ix])))

        d, k = spd.nearest(axs, member, lambda ix: spd.hav(r(lat(*[Num(i) for i in ix])), r(lon(*[Num(i) for i in ix])), r(la), r(lo)))
        return d, [Num(x) for x in k]

    # ---- aggregates
    def _axes(self, axes):
        return [a.axis if isinstance(a, Ax) else a for a in (axes if isinstance(axes, (list, tuple)) else [axes])]

    def sum(self, axes, fn, skipna=False):
        return snp.red_sum(self._axes(axes), lambda ix: num(fn(*[Num(i) for i in ix])), skipna)

    def mean(self, axes, fn, skipna=True):
        return snp.red_mean(self._axes(axes), lambda ix: num(fn(*[Num(i) for i in ix])), skipna)

    def count(self, axes, fn):
        """number of elements for which fn holds"""
        return snp.red_sum(self._axes(axes), lambda ix: self.ite(fn(*[Num(i) for i in ix]), 1, 0), False)

    def std(self, axes, fn, skipna=True):
        return snp.red_std(self._axes(axes), lambda ix: num(fn(*[Num(i) for i in ix])), skipna)

    def amax(self, axes, fn):
        return snp.red_ext("max", self._axes(axes), lambda ix: num(fn(*[Num(i) for i in ix])), True)

    def amin(self, axes, fn):
        return snp.red_ext("min", self._axes(axes), lambda ix: num(fn(*[Num(i) for i in ix])), True)

    def all(self, axes, fn):
        return self._bool("all", axes, fn)

    def any(self, axes, fn):
        return self._bool("any", axes, fn)

    def _bool(self, kind, axes, fn):
        r = snp.red_bool(kind, self._axes(axes), lambda ix: fn(*[Num(i) for i in ix]))
        return r if not isinstance(r, Num) else sb(r.t)

    def sub(self, ax, pred):
        """the subset of an axis"""
        base = ax.axis
        return Ax(ax.name, Axis(base.size, lambda i: K.and_(base.inside(i), self._b(pred(Num(i))))))

    def grad(self, ax, f, x, i, edge_order=1):
        return snp.grad_elem(lambda k: num(f(Num(k))), lambda k: num(x(Num(k))), ax.axis, ix_t(i), edge_order)

    def polyfit1(self, ax, x, y):
        """(slope, intercept) of the least-squares line over non-missing points"""
        return sxr.polyfit_elem(ax.axis, lambda k: num(x(Num(k))), lambda k: num(y(Num(k))))

    def ffill(self, ax, f, i):
        """last non-missing value at or before i"""
        return sxr.fill_elem(lambda k: num(f(Num(k))), ax.axis.size, ix_t(i))

    # ---- calendar
    def year(self, d):
        return d.field("year")

    def month(self, d):
        return d.field("month")

    def days_in_month(self, d):
        return d.daysinmonth

    def year_mid(self, cal, y):
        y = num(y).t
        a, b = DtVal(sym.ymd(cal, y, K.num(1), K.num(1)), cal), DtVal(sym.ymd(cal, K.add(y, K.num(1)), K.num(1), K.num(1)), cal)
        return a + (b - a) / 2

    def month_mid(self, cal, y, m):
        y, m = num(y).t, num(m).t
        a = DtVal(sym.ymd(cal, y, m, K.num(1)), cal)
        b = DtVal(sym.ymd(cal, K.add(y, K.idiv(m, K.num(12))), K.add(K.imod(m, K.num(12)), K.num(1)), K.num(1)), cal)
        return a + (b - a) / 2

    def mid_date(self, a, b):
        return a + (b - a) / 2

    def ns1970(self, d):
        return sxr.ns_since_1970(d)

    def dayofyear(self, d):
        return d.field("dayofyear")

    def hour(self, d):
        return d.field("hour")

    def leap(self, d):
        from . import libs

        return libs.is_leap_year(d.year, d.cal)

    def memo_(self, f):
        return f

    def pinv(self, rows, ax, t, c):
        return snp.pinv_elem(lambda j, k: rows[j](Num(k)), len(rows), ax.axis, ix_t(t), ix_t(c))

    def need_months(self):
        self.ctx.months_complete = True
        self.months_complete = True

    def groups(self, ax, key, component):
        """axis of distinct sorted key values, label(g), and the member subset of group g"""
        g = sxr.Groups(ax.axis, lambda i: key(Num(i)), component)
        return Ax(component, g.axis), (lambda k: g.label(ix_t(k))), (lambda lab: Ax(ax.name, g.member(num(lab))))
