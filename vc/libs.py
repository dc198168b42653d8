"""Shadow versions (assumed contracts) of the remaining dependencies."""
import types
from . import terms as K
from . import sym, snp, sxr, spd
from .sym import Unsupported, Num, num, ctx, sb, Axis, NAN
from .sxr import _NS, DataArray, Variable


# ------------------------------------------------------------------ xgcm
class Grid:
    """xgcm.Grid restricted to diff/interp between center and right/left/outer
    positions with boundary padding"""

    __vc_shadow__ = True

    def __init__(self, ds, coords=None, periodic=True, boundary=None, fill_value=None, autoparse_metadata=True, metrics=None, **kw):
        if kw or metrics:
            raise Unsupported("xgcm.Grid options")
        if coords is None:
            raise Unsupported("xgcm.Grid without coords")
        self.ds = ds
        self.coords = {a: dict(p) for a, p in coords.items()}
        self.boundary = boundary
        self.periodic = periodic
        self.fill = 0 if fill_value is None else fill_value
        for a, p in self.coords.items():
            for pos, d in p.items():
                if pos not in ("center", "right", "left", "outer", "inner"):
                    raise ValueError(f"Axis position {pos} not valid")
                if d not in ds._dimset():
                    raise ValueError(f"Could not find dimension `{d}` (for the `{pos}` position on axis `{a}`) in input dataset.")
                if d not in ds._coord_names():
                    raise ValueError(f"Could not find `{d}` coordinate in dataset")

    def _bc(self, axis, boundary):
        b = boundary.get(axis) if isinstance(boundary, dict) else boundary
        if b is None:
            b = self.boundary.get(axis) if isinstance(self.boundary, dict) else self.boundary
        if b is None:
            p = self.periodic
            if p is True or (isinstance(p, (list, tuple)) and axis in p):
                b = "periodic"
            elif p is False:
                b = "fill"
            else:
                raise Unsupported("xgcm boundary default")
        return b

    def _op1(self, da, axis, to, boundary, fill_value, comb):
        pos = self.coords[axis]
        frm = [p for p, d in pos.items() if d in da.dims]
        if len(frm) != 1:
            raise KeyError(f"None of the DataArray's dims are in axis {axis}")
        frm = frm[0]
        if to is None:
            if frm == "center":
                cand = [p for p in ("left", "right", "outer", "inner") if p in pos]
                to = cand[0]
            else:
                to = "center"
        if isinstance(to, dict):
            to = to.get(axis)
        if to not in pos or to == frm:
            raise Unsupported("xgcm position shift")
        od, nd = pos[frm], pos[to]
        shift = {("center", "right"): 0, ("center", "outer"): -1, ("right", "center"): -1, ("outer", "center"): 0,
                 ("center", "left"): -1, ("left", "center"): 0}.get((frm, to))
        if shift is None:
            raise Unsupported("xgcm position shift")
        b = self._bc(axis, boundary)
        fv = num(self.fill if fill_value is None else fill_value)
        ax = da.variable.axis(od)
        n = ax.size
        nax = self.ds._coord_var(nd).nd.axes[0]
        if ax.member is not None:
            raise Unsupported("xgcm on filtered axis")
        want = K.add(n, K.num({("center", "outer"): 1, ("outer", "center"): -1}.get((frm, to), 0)))
        if not sym.same_axis(Axis(want), nax):
            raise Unsupported("xgcm axis lengths inconsistent")
        f = da.variable.fn()
        dims = da.dims

        def at(env, k):
            def g(kk):
                return num(f({**env, od: kk}))

            lo = K.lt(k, K.num(0))
            hi = K.ge(k, n)
            c = ctx()
            fa = c.all_facts() + [K.ge(env[nd], K.num(0)), K.lt(env[nd], nax.size)]
            may_lo = c.prover.sat(fa, lo)
            may_hi = c.prover.sat(fa, hi)
            if b == "fill":
                v = g(k)
                if may_lo:
                    v = sym.v_ite(lo, fv, v)
                if may_hi:
                    v = sym.v_ite(hi, fv, v)
                return v
            if b == "extend":
                v = g(k)
                if may_lo:
                    v = sym.v_ite(lo, g(K.num(0)), v)
                if may_hi:
                    v = sym.v_ite(hi, g(K.sub(n, K.num(1))), v)
                return v
            if b == "periodic":
                v = g(k)
                if may_lo:
                    v = sym.v_ite(lo, g(K.add(k, n)), v)
                if may_hi:
                    v = sym.v_ite(hi, g(K.sub(k, n)), v)
                return v
            raise Unsupported(f"xgcm boundary {b}")

        ndims = tuple(nd if d == od else d for d in dims)

        def el(ix):
            env = dict(zip(ndims, ix))
            i = env[nd]
            k0 = K.add(i, K.num(shift))
            return comb(at(env, k0), at(env, K.add(k0, K.num(1))))

        axes = [nax if d == od else da.variable.axis(d) for d in dims]
        nda = snp.NdArray(axes, el, "float64")
        coords = {d: self.ds._coord_var(d) for d in ndims if d in self.ds._coord_names()}
        for c in da._coord_names():
            if c in da.dims and c != od and c not in coords:
                coords[c] = da._coord_var(c)
        return DataArray._mk(Variable(ndims, nda), coords, da.name)

    def _op(self, da, axis, to, boundary, fill_value, comb):
        axes = [axis] if isinstance(axis, str) else list(axis)
        for a in axes:
            if a not in self.coords:
                raise KeyError(a)
            da = self._op1(da, a, to, boundary, fill_value, comb)
        return da

    def diff(self, da, axis, to=None, boundary=None, fill_value=None, **k):
        if k:
            raise Unsupported("xgcm.diff options")
        return self._op(da, axis, to, boundary, fill_value, lambda a, b: b - a)

    def interp(self, da, axis, to=None, boundary=None, fill_value=None, **k):
        if k:
            raise Unsupported("xgcm.interp options")
        return self._op(da, axis, to, boundary, fill_value, lambda a, b: (a + b) * sym.RealLit("0.5"))

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"xgcm.Grid.{k}")


# ------------------------------------------------------------------ small modules
class _Catch:
    def __init__(self, *a, **k):
        self.rec = k.get("record")

    def __enter__(self):
        if self.rec:
            raise Unsupported("warnings.catch_warnings(record=True)")
        return None

    def __exit__(self, *a):
        return False


def _warn(*a, **k):
    ctx().warnings.append(a)


def is_leap_year(year, calendar, has_year_zero=None):
    cal = calendar
    y = num(year)
    if cal in ("noleap", "365_day", "360_day"):
        return False
    if cal in ("all_leap", "366_day"):
        return True
    if cal in ("julian",):
        return sb(K.eq(K.imod(y.t, K.num(4)), K.num(0)))
    if cal in ("proleptic_gregorian", "gregorian", "standard"):
        z = K.num(0)
        g = K.and_(K.eq(K.imod(y.t, K.num(4)), z), K.or_(K.not_(K.eq(K.imod(y.t, K.num(100)), z)), K.eq(K.imod(y.t, K.num(400)), z)))
        if cal == "proleptic_gregorian":
            return sb(g)
        j = K.eq(K.imod(y.t, K.num(4)), z)
        return sb(K.ite(K.gt(y.t, K.num(1582)), g, j))
    raise ValueError("unsupported calendar")


class _Meta(dict):
    def __missing__(self, k):
        return "momlevel" if k == "Name" else ""

    def get_all(self, k, d=None):
        return []


def _sc1(f):
    def g(x):
        return f(num(x))

    return g


def shadows():
    m = {}
    m["numpy"] = np = snp.build()
    m["numpy.linalg"] = np.linalg
    m.update(sxr.build())
    m.update(spd.modules())
    m["xgcm"] = _NS("xgcm", Grid=Grid)
    m["warnings"] = _NS("warnings", warn=_warn, catch_warnings=_Catch, simplefilter=lambda *a, **k: None,
                        filterwarnings=lambda *a, **k: None)
    m["cftime"] = _NS("cftime", is_leap_year=is_leap_year, datetime=sym.DtVal)
    im = _NS("importlib.metadata", metadata=lambda n: _Meta(), version=lambda n: "0")
    m["importlib"] = _NS("importlib", metadata=im)
    m["importlib.metadata"] = im
    m["math"] = _NS(
        "math", pi=sym.PI, sqrt=_sc1(sym.n_sqrt), sin=_sc1(sym.n_sin), cos=_sc1(sym.n_cos), log=_sc1(sym.n_log),
        radians=lambda x: num(x) * sym.PI / 180, degrees=lambda x: num(x) * 180 / sym.PI,
        floor=lambda x: Num(K.floor(num(x).t)), fabs=lambda x: abs(num(x)), nan=NAN,
        isnan=lambda x: sb(num(x).nan), pow=lambda a, b: num(a) ** b,
    )
    return m
