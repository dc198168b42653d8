"""Contracts of the trend and seasonal routines (C13, C14, C15)."""
from .base import ANY, Case, Arr, DS, Raises, Tup, Words, register
from .times import CALS

UNITS = {"ns": "1", "s": "1e9", "min": "6e10", "hr": "36e11", "day": "864e11"}
ALL = ("ns", "s", "min", "hr", "day", "mon", "yr")
T = "momlevel.trend:"


def ns(S, u, dpm=None, dpy=None):
    """length of a time unit in nanoseconds"""
    day = S.c(UNITS["day"])
    if u == "mon":
        return day * (S.c("30.417") if dpm is None else dpm)
    if u == "yr":
        return day * (S.c("365") if dpy is None else dpy)
    return S.c(UNITS[u])


# ------------------------------------------------------------------ C13: unit conversion
def conv(S, a, b, custom=False):
    kw = {}
    if custom:
        kw = dict(days_per_month=S.scalar("dpm", gt=0.0, gen=(27.0, 32.0)), days_per_year=S.scalar("dpy", gt=0.0, gen=(360.0, 366.0)))
    v = ns(S, a, kw.get("days_per_month"), kw.get("days_per_year")) / ns(S, b, kw.get("days_per_month"), kw.get("days_per_year"))
    return Case(T + "time_conversion_factor", [a, b], kw, expect=Arr([], lambda: v, kind="scalar"), rtol=1e-12)


for _a in ALL:
    for _b in ALL:
        register("C13", f"time_conversion_factor[{_a}->{_b}]", lambda S, a=_a, b=_b: conv(S, a, b), trials=0.05)
        if "mon" in (_a, _b) or "yr" in (_a, _b):
            register("C13", f"time_conversion_factor[{_a}->{_b}, month and year lengths given]", lambda S, a=_a, b=_b: conv(S, a, b, True), trials=0.2)
for _u in ("week", "years", "year", "Yr", "", "NS", "n", "m", "day-1", "month", "mons", "days", "d", "h", "hour", "sec", "seconds", "ms", "us", " yr", "decade"):
    register("C13", f"time_conversion_factor[unknown source {_u!r}]", lambda S, u=_u: Case(T + "time_conversion_factor", [u, "s"], expect=Raises("AssertionError")), trials=0.05)
    register("C13", f"time_conversion_factor[unknown destination {_u!r}]", lambda S, u=_u: Case(T + "time_conversion_factor", ["yr", u], expect=Raises("AssertionError")), trials=0.05)


def laws(S, a, b, c, kind):
    """conversion there and back is 1; through a third unit is the direct one"""
    kw = dict(days_per_month=S.scalar("dpm", gt=0.0, gen=(27.0, 32.0)), days_per_year=S.scalar("dpy", gt=0.0, gen=(360.0, 366.0)))

    def call(S, res):
        f = res(T + "time_conversion_factor")
        return f(a, b, **kw) * f(b, a, **kw) if kind == "inverse" else f(a, b, **kw) * f(b, c, **kw) / f(a, c, **kw)

    return Case(T + "time_conversion_factor", call=call, expect=Arr([], lambda: S.c("1"), kind="scalar"), rtol=1e-12)


for _i, _a in enumerate(ALL):
    for _j, _b in enumerate(ALL):
        if _i < _j:
            register("C13", f"time_conversion_factor[{_a}, {_b}: invertible]", lambda S, a=_a, b=_b: laws(S, a, b, None, "inverse"), trials=0.05)
        _c = ALL[(_i + 2 * _j + 3) % 7]
        register("C13", f"time_conversion_factor[{_a}, {_b}, {_c}: transitive]", lambda S, a=_a, b=_b, c=_c: laws(S, a, b, c, "trans"), trials=0.05)


# ------------------------------------------------------------------ inputs
class Field:
    """an array over (t, y, x) or (z, y, x) in any order"""

    def __init__(self, S, lay="tyx", dim="time", cal="noleap", time=True, lo=2, gen="monthly", n=None):
        self.S, self.lay, self.dim = S, lay, dim
        self.t = S.axis(dim, id="t", lo=lo, gen=n)
        if time:
            self.tc = S.time(self.t, cal=cal, id="tc", gen=gen, attrs={"axis": "T"}, recent=True)
            self.x = lambda k: S.ns1970(self.tc(k))
        else:
            self.tc = S.coord(self.t, id="tc", gen=(0.0, 100.0), attrs={"units": "m"})
            self.x = lambda k: self.tc(k)
        self.ax = dict(t=self.t, y=S.axis("yh"), x=S.axis("xh"), s=S.axis("site") if "s" in lay else None)
        self.cs = dict(t=self.tc, y=S.coord(self.ax["y"], id="yc"), x=S.coord(self.ax["x"], id="xc", inc=True))
        if "s" in lay:
            self.cs["s"] = S.coord(self.ax["s"], id="sc")

    def arr(self, name, lay=None, **k):
        return self.S.arr(name, [self.ax[c] for c in (self.lay if lay is None else lay)], **k)

    def da(self, h, lay=None, **k):
        return h.da([self.cs[c] for c in (self.lay if lay is None else lay)], **k)

    def coords(self, lay):
        return {self.cs[c].name: self.cs[c] for c in lay}

    def line(self, h, lay=None):
        """(slope, intercept) as functions of the remaining indices"""
        lay = self.lay if lay is None else lay
        rest = [c for c in lay if c != "t"]

        def fit(*ix):
            env = dict(zip(rest, ix))
            return self.S.polyfit1(self.t, self.x, lambda k: h(*[k if c == "t" else env[c] for c in lay]))

        return rest, fit


def trend(S, lay="tyx", dim="time", cal="noleap", time=True, tu=None, units="m", name="zos", chunks=None, gen="monthly", bad=False):
    f = Field(S, lay, dim, cal, time, gen=gen)
    h = f.arr("v")
    rest, fit = f.line(h)
    at = {"long_name": "sea level", **({"units": units} if units else {})}
    out = [f.ax[c] for c in rest]
    u = "ns" if tu is None else tu
    scale = ns(S, u) if time and not bad else S.c("1")
    sa = dict(at, comment="Slope of linear trend")
    if time:
        sa["units"] = Words(f"{units or ''} {u}-1")
    ia = dict(at, comment="Y-intercept of linear trend")
    exp = DS({f"{name}_slope": Arr(out, lambda *ix: fit(*ix)[0] * scale, attrs=sa, exact_attrs=sa, coords=f.coords(rest)),
              f"{name}_intercept": Arr(out, lambda *ix: fit(*ix)[1], attrs=ia, exact_attrs=ia, coords=f.coords(rest))}, exact=True)
    kw = {}
    if dim != "time":
        kw["dim"] = dim
    if tu is not None:
        kw["time_units"] = tu
    return Case(T + "calc_linear_trend", [f.da(h, name=name, attrs=at, chunks=chunks)], kw, expect=Raises("AssertionError") if bad else exp, rtol=1e-5, atol=1e-7, illcond=True)


for _u in (None,) + ALL:
    register("C13", f"calc_linear_trend[per {_u}]", lambda S, u=_u: trend(S, tu=u))
    register("C13", f"calc_linear_trend[per {_u}, no units, time last]", lambda S, u=_u: trend(S, tu=u, units=None, lay="yxt", cal="standard", name="volo"))
for _c in CALS:
    register("C13", f"calc_linear_trend[{_c}]", lambda S, c=_c: trend(S, cal=c, tu="yr", lay="ty", gen="any"))
register("C13", "calc_linear_trend[1d]", lambda S: trend(S, lay="t", tu="mon"))
register("C13", "calc_linear_trend[rate units]", lambda S: trend(S, units="m s-1", tu="yr", lay="yt"))
register("C13", "calc_linear_trend[time called t]", lambda S: trend(S, dim="t", tu="day", lay="xt"))
register("C13", "calc_linear_trend[other dimension]", lambda S: trend(S, dim="z_l", time=False, lay="tyx"))
register("C13", "calc_linear_trend[other dimension, time unit given]", lambda S: trend(S, dim="z_l", time=False, lay="yt", tu="yr"))
register("C13", "calc_linear_trend[unknown time unit]", lambda S: trend(S, tu="decade", bad=True))
register("C13", "calc_linear_trend[not an array]", lambda S: Case(T + "calc_linear_trend", [S.dataset({"a": S.arr("v", [S.axis("time")]).da()})],
                                                                 expect=Raises("AssertionError", "AttributeError")))


def bcast(S, lay="yx", dim="time", cal="noleap", time=True, units="m yr-1", zero=None, err=None, gen="any", order=("slope", "dim")):
    f = Field(S, "t" + lay, dim, cal, time, lo=1, gen=gen)
    h = S.arr("m", [f.ax[c] for c in lay])
    at = {} if units is None else {"units": units}
    toks = [w for w in (units or "").split(" ") if "-1" in w]
    u = toks[0].replace("-1", "") if toks and time and not err else "ns"
    k = S.c("1") / ns(S, u) if time else S.c("1")

    def fn(i, *ix):
        v = h(*ix) * k * f.x(i)
        return v - h(*ix) * k * f.x(0) if zero else v

    kw = {} if zero is None else dict(subtract_time_zero=zero)
    exp = Raises(err) if err else Arr([f.t] + [f.ax[c] for c in lay], fn, coords=f.coords("t" + lay))
    return Case(T + "broadcast_trend", [f.da(h, lay, attrs=at, name="zos_slope"), f.tc.da([f.tc])], kw, expect=exp, rtol=1e-9, atol=1e-9)


for _u in ALL:
    register("C13", f"broadcast_trend[m {_u}-1]", lambda S, u=_u: bcast(S, units=f"m {u}-1"))
    register("C13", f"broadcast_trend[{_u}-1, relative to start]", lambda S, u=_u: bcast(S, units=f"  {u}-1", zero=True, lay="xy", cal="standard"))
for _c in CALS:
    register("C13", f"broadcast_trend[{_c}]", lambda S, c=_c: bcast(S, cal=c, lay="y", zero=False))
register("C13", "broadcast_trend[no units]", lambda S: bcast(S, units=None))
register("C13", "broadcast_trend[no rate in units]", lambda S: bcast(S, units="kg m", zero=True))
register("C13", "broadcast_trend[scalar slope]", lambda S: bcast(S, lay=""))
register("C13", "broadcast_trend[two rates in units]", lambda S: bcast(S, units="kg s-1 yr-1", err="ValueError"))
register("C13", "broadcast_trend[unknown unit]", lambda S: bcast(S, units="m decade-1", err="AssertionError"))
register("C13", "broadcast_trend[other dimension]", lambda S: bcast(S, dim="z_l", time=False, units="m yr-1"))
register("C13", "broadcast_trend[other dimension, relative to start]", lambda S: bcast(S, dim="z_l", time=False, units=None, zero=True, lay="y"))
register("C13", "broadcast_trend[time called t]", lambda S: bcast(S, dim="t", lay="y"))


def bcast_bad(S, kind):
    y, x = S.axis("yh"), S.axis("xh")
    v, t = S.arr("v", [y]), S.coord(x, id="tc")
    a = [v.da(), t.da([t])]
    if kind == "slope":
        a[0] = S.dataset({"a": a[0]})
    elif kind == "dim":
        a[1] = t.np()
    elif kind == "2d":
        a[1] = S.arr("w", [y, x]).da()
    return Case(T + "broadcast_trend", a, expect=Raises("AssertionError"))


for _k in ("slope", "dim", "2d"):
    register("C13", f"broadcast_trend[bad {_k}]", lambda S, k=_k: bcast_bad(S, k))


def roundtrip(S, tu, lay="tyx", dim="time", cal="noleap", zero=False):
    """slope in any unit times the axis plus intercept is the fitted line in the data's unit"""
    f = Field(S, lay, dim, cal)
    h = f.arr("v")
    rest, fit = f.line(h)
    da = f.da(h, name="zos", attrs={"units": "m"})

    def call(S, res):
        ds = res(T + "calc_linear_trend")(da, dim=dim, time_units=tu)
        r = res(T + "broadcast_trend")(ds["zos_slope"], da[dim], subtract_time_zero=zero)
        return r if zero else r + ds["zos_intercept"]

    def fn(i, *ix):
        m, b = fit(*ix)
        return m * f.x(i) - m * f.x(0) if zero else m * f.x(i) + b

    return Case(T + "calc_linear_trend", call=call, expect=Arr([f.t] + [f.ax[c] for c in rest], fn, coords=f.coords(lay)), rtol=1e-5, atol=1e-5, illcond=True)


for _u in ALL:
    register("C13", f"trend and line[per {_u}]", lambda S, u=_u: roundtrip(S, u))
    register("C13", f"trend and line[per {_u}, relative to start]", lambda S, u=_u: roundtrip(S, u, lay="yt", cal="standard", zero=True, dim="t"))


# ------------------------------------------------------------------ C14
def detrend(S, lay="tyx", dim="time", cal="noleap", time=True, mode=None, units="m", name="zos", chunks=None, kind="da", order=None, err=None, gen="monthly", scalar=False):
    f = Field(S, lay, dim, cal, time, gen=gen)
    h = f.arr("v")
    at = {"long_name": "sea level", **({"units": units} if units else {})}

    def expect(h, lay, **k):
        rest, fit = f.line(h, lay)

        def fn(*ix):
            env = dict(zip(lay, ix))
            m, b = fit(*[env[c] for c in rest])
            v = h(*ix)
            r = v - m * f.x(env["t"])
            return r if mode == "correct" else r - b

        return Arr([f.ax[c] for c in lay], fn, coords=f.coords(lay), **k)

    kw = {}
    if dim != "time":
        kw["dim"] = dim
    if mode is not None:
        kw["mode"] = mode
    if order is not None:
        kw["order"] = order
    w = dict(at, detrend_comment=ANY)
    tol = dict(rtol=1e-5, atol=1e-4, illcond=True)
    if kind == "da":
        exp = Raises(err) if err else expect(h, lay, name=name, attrs=w, exact_attrs=w, ordered=True)
        return Case(T + "linear_detrend", [f.da(h, name=name, attrs=at, chunks=chunks, scalar_coords={"depth": S.c("3")} if scalar else None)], kw, expect=exp, **tol)
    h1, h2 = f.arr("w", "t"), f.arr("u", lay.replace("t", ""))
    l2 = lay.replace("t", "")
    if kind == "static":
        # nothing varies along the dimension: everything passes through
        hi = f.arr("q", l2, integer=True)
        sc = {dim: S.c("7"), "depth": S.c("3")}
        cs = {**f.coords(l2), **{c: Arr([], lambda c=c: sc[c]) for c in sc}}
        vs = {"area": f.da(h2, l2, attrs={"units": "m2"}, scalar_coords=sc, chunks=chunks), "basin": f.da(hi, l2, attrs={"flags": "a b"}, scalar_coords=sc)}
        outs = {"area": Arr([f.ax[c] for c in l2], h2, attrs={"units": "m2"}, exact_attrs={"units": "m2"}, coords=cs),
                "basin": Arr([f.ax[c] for c in l2], hi, attrs={"flags": "a b"}, exact_attrs={"flags": "a b"}, coords=cs, dtype="int64")}
        return Case(T + "linear_detrend", [S.dataset(vs)], kw, expect=DS(outs, exact=True), **tol)
    hi = f.arr("q", l2, integer=True)
    vs = {"zos": f.da(h, attrs=at, chunks=chunks), "tot": f.da(h1, "t", attrs={"units": "kg"}), "area": f.da(h2, l2, attrs={"units": "m2"}),
          "basin": f.da(hi, l2, attrs={"flags": "a b"})}
    outs = {"zos": expect(h, lay, attrs=w, exact_attrs=w), "tot": expect(h1, "t", attrs={"units": "kg"}),
            "area": Arr([f.ax[c] for c in l2], h2, attrs={"units": "m2"}, exact_attrs={"units": "m2"}, coords=f.coords(l2)),
            "basin": Arr([f.ax[c] for c in l2], hi, attrs={"flags": "a b"}, exact_attrs={"flags": "a b"}, coords=f.coords(l2), dtype="int64")}
    return Case(T + "linear_detrend", [S.dataset(vs)], kw, expect=Raises(err) if err else DS(outs, exact=True), **tol)


for _m in (None, "remove", "correct"):
    register("C14", f"linear_detrend[{_m}]", lambda S, m=_m: detrend(S, mode=m))
    register("C14", f"linear_detrend[{_m}, rate units, time last]", lambda S, m=_m: detrend(S, mode=m, units="kg m-2 s-1", lay="yxt", cal="standard"))
    register("C14", f"linear_detrend[{_m}, no units, time in the middle]", lambda S, m=_m: detrend(S, mode=m, units=None, lay="ytx", name="x"))
    register("C14", f"linear_detrend[{_m}, 1d]", lambda S, m=_m: detrend(S, mode=m, lay="t", units="m yr-1"))
    register("C14", f"linear_detrend[{_m}, other dimension]", lambda S, m=_m: detrend(S, mode=m, dim="z_l", time=False))
    register("C14", f"linear_detrend[{_m}, time called t]", lambda S, m=_m: detrend(S, mode=m, dim="t", lay="xt", units="m s-1 yr-1"))
    register("C14", f"linear_detrend[{_m}, dataset]", lambda S, m=_m: detrend(S, mode=m, kind="ds", lay="tx", units="m s-1"))
    register("C14", f"linear_detrend[{_m}, dataset, other dimension]", lambda S, m=_m: detrend(S, mode=m, kind="ds", lay="yt", dim="z_l", time=False))
for _c in CALS:
    register("C14", f"linear_detrend[{_c}]", lambda S, c=_c: detrend(S, cal=c, lay="ty", gen="any"))
register("C14", "linear_detrend[unnamed]", lambda S: detrend(S, name=None, lay="ty"))
register("C14", "linear_detrend[order 1]", lambda S: detrend(S, order=1, lay="ty", mode="correct"))
for _k in ("da", "ds"):
    register("C14", f"linear_detrend[order 2, {_k}]", lambda S, k=_k: detrend(S, order=2, lay="ty", err="AssertionError", kind=k))
    register("C14", f"linear_detrend[order 0, {_k}]", lambda S, k=_k: detrend(S, order=0, lay="ty", err="AssertionError", kind=k))
    register("C14", f"linear_detrend[order 1.5, {_k}]", lambda S, k=_k: detrend(S, order=1.5, lay="ty", err="AssertionError", kind=k))
    register("C14", f"linear_detrend[order 10, {_k}]", lambda S, k=_k: detrend(S, order=10, lay="ty", err="AssertionError", kind=k))
    for _m in ("removed", "REMOVE", "Correct", "", "rem", "corrected", "constant", "linear"):
        register("C14", f"linear_detrend[unknown mode {_m!r}, {_k}]", lambda S, k=_k, m=_m: detrend(S, mode=m, lay="ty", err="ValueError", kind=k), trials=0.2)
for _m in (None, "correct"):
    register("C14", f"linear_detrend[{_m}, nothing varies along the dimension]", lambda S, m=_m: detrend(S, mode=m, kind="static"))
    register("C14", f"linear_detrend[{_m}, nothing varies along the dimension, chunked]", lambda S, m=_m: detrend(S, mode=m, kind="static", chunks=True, lay="ytx", dim="t"))
register("C14", "linear_detrend[ndarray]", lambda S: Case(T + "linear_detrend", [S.arr("v", [S.axis("time")]).np()], expect=Raises("TypeError")))
register("C14", "linear_detrend[None]", lambda S: Case(T + "linear_detrend", [None], expect=Raises("TypeError")))


# ------------------------------------------------------------------ C15
def basis(S, td, ax):
    """mean, trend, annual and semi-annual harmonics"""
    td = S.memo_(td)
    m = S.mean([ax], td)
    return [lambda k: S.c("1"), lambda k: td(k) - m, lambda k: S.sin(2 * S.pi * td(k)), lambda k: S.cos(2 * S.pi * td(k)),
            lambda k: S.sin(4 * S.pi * td(k)), lambda k: S.cos(4 * S.pi * td(k))]


def fitted(S, f, h, lay, td):
    rows = basis(S, td, f.t)
    rest = [c for c in lay if c != "t"]

    def coef(c, *ix):
        env = dict(zip(rest, ix))
        return S.sum([f.t], lambda k: S.pinv(rows, f.t, k, c) * h(*[k if q == "t" else env[q] for q in lay]))

    coef = S.memo_(coef)
    rows = [S.memo_(r) for r in rows]

    def model(i, *ix):
        r = None
        for c in range(6):
            v = rows[c](i) * coef(c, *ix)
            r = v if r is None else r + v
        return r

    return rest, coef, model


def smodel(S, lay="tyx", dim="time", cal="noleap", ret=None, at=("units", "long_name", "standard_name"), name="zos", gen="any", chunks=None, scalar=False):
    f = Field(S, lay, dim, cal, lo=1, gen=gen, n="series")
    h = f.arr("v")
    td = lambda k: S.real(S.year(f.tc(k))) + (S.real(S.dayofyear(f.tc(k))) - 1 + S.real(S.hour(f.tc(k))) / 24) / 365
    rest, coef, model = fitted(S, f, h, lay, td)
    full = dict(units="m", long_name="Sea level", standard_name="zos_std", other="x")
    at = {k: full[k] for k in at}
    pre = {"long_name": ("Seasonal model", "Seasonal residuals"), "standard_name": ("smodel", "sresid")}
    attrs = []
    for j in (0, 1):
        attrs.append({"units": at.get("units", ""),
                      "long_name": pre["long_name"][j] + (", " + at["long_name"] if "long_name" in at else ""),
                      "standard_name": (at["standard_name"] + "_" if "standard_name" in at else "") + pre["standard_name"][j]})
    env = lambda ix: dict(zip(lay, ix))
    fm = lambda *ix: model(env(ix)["t"], *[env(ix)[c] for c in rest])
    dims = [f.ax[c] for c in lay]
    m = Arr(dims, fm, attrs=attrs[0], coords=f.coords(lay))
    r = Arr(dims, lambda *ix: h(*ix) - fm(*ix), attrs=attrs[1], coords=f.coords(lay), ordered=True)
    kw = {}
    if dim != "time":
        kw["tcoord"] = dim
    if ret is not None:
        kw["return_model"] = ret
    arg = f.da(h, name=name, attrs=at, chunks=chunks, scalar_coords={"depth": S.c("3")} if scalar else None)
    return Case(T + "seasonal_model", [arg], kw, expect=Tup(m, r) if ret else r, rtol=1e-6, atol=1e-6)


for _r in (None, True):
    _n = "residuals" if _r is None else "model and residuals"
    register("C15", f"seasonal_model[{_n}]", lambda S, r=_r: smodel(S, ret=r))
    register("C15", f"seasonal_model[{_n}, 1d, no attributes]", lambda S, r=_r: smodel(S, ret=r, lay="t", at=()))
    register("C15", f"seasonal_model[{_n}, time last]", lambda S, r=_r: smodel(S, ret=r, lay="yxt", at=("units", "other"), gen="monthly"))
    register("C15", f"seasonal_model[{_n}, time in the middle]", lambda S, r=_r: smodel(S, ret=r, lay="ytx", at=("long_name",), gen="daily"))
    register("C15", f"seasonal_model[{_n}, time called t, scalar coordinate]", lambda S, r=_r: smodel(S, ret=r, lay="xt", dim="t", scalar=True))
    for _c in CALS[1:]:
        register("C15", f"seasonal_model[{_n}, {_c}]", lambda S, r=_r, c=_c: smodel(S, ret=r, lay="ty", cal=c))
register("C15", "seasonal_model[return_model=False]", lambda S: smodel(S, ret=False, lay="ty"))
register("C15", "seasonal_model[chunked]", lambda S: smodel(S, ret=True, chunks=True))
register("C15", "seasonal_model[chunked in time]", lambda S: smodel(S, ret=True, chunks={"time": 2, "yh": 1}))

COEF = ["constant", "trend", "sin_annual", "cos_annual", "sin_semiannual", "cos_semiannual"]
PROC = dict(residuals=("residuals from detrending and deseasonalizing", "Residuals from detrending and deseasonalizing"),
            model=("model of linear trend and seasonal cycle", "Model of linear trend and seasonal cycle"),
            coeff=("seasonal model polynomial coefficients", "Seasonal model polynomial coefficients"))


def deseas(S, fmt=None, lay="tyx", dim="time", cal="noleap", chunks=None, at=("units", "long_name", "standard_name", "other"), gen="daily", err=None, name="zos", scalar=False):
    f = Field(S, lay, dim, cal, lo=1, gen=gen, n="days")
    h = f.arr("v")
    td = lambda k: S.real(k) / S.ite(S.leap(f.tc(k)), S.c("366"), S.c("365"))
    rest, coef, model = fitted(S, f, h, lay, td)
    full = dict(units="m", long_name="Sea level", standard_name="zos_std", other="x")
    at = {k: full[k] for k in at}
    o = "residuals" if fmt is None else fmt
    kw = {} if fmt is None else dict(output_format=fmt)
    if dim != "time":
        kw["tdim"] = dim
    if err is None:
        ex = {k: v for k, v in at.items() if k != "standard_name" and (k != "units" or o != "coeff")}
        if "long_name" in ex:
            ex["long_name"] += " " + PROC[o][0]
        ex["processing"] = PROC[o][1]
        hx = lambda i, ix: h(*[i if c == "t" else dict(zip(rest, ix))[c] for c in lay])
        if o == "coeff":
            ax = S.axis_of("coeff", 6)
            out = Arr([ax] + [f.ax[c] for c in rest], lambda c, *ix: coef(c, *ix), coords=f.coords(rest), attrs=ex, exact_attrs=ex)
            out.labels = {"coeff": COEF}
        else:
            fn = model if o == "model" else (lambda i, *ix: hx(i, ix) - model(i, *ix))
            out = Arr([f.t] + [f.ax[c] for c in rest], fn, coords=f.coords("t" + "".join(rest)), attrs=ex, exact_attrs=ex)
        out.name, out.ordered = name, True
    arg = f.da(h, name=name, attrs=at, chunks=chunks, scalar_coords={"depth": S.c("3")} if scalar else None)
    return Case(T + "deseason", [arg], kw, expect=Raises(err) if err else out, rtol=1e-6, atol=1e-6)


for _o in (None, "residuals", "model", "coeff"):
    register("C15", f"deseason[{_o}]", lambda S, o=_o: deseas(S, o))
    register("C15", f"deseason[{_o}, time last, leap years]", lambda S, o=_o: deseas(S, o, lay="yxt", cal="standard", gen="daily"))
    register("C15", f"deseason[{_o}, time in the middle, chunked]", lambda S, o=_o: deseas(S, o, lay="ytx", chunks=True, at=("other",)))
    register("C15", f"deseason[{_o}, 1d, no attributes]", lambda S, o=_o: deseas(S, o, lay="t", at=()))
    register("C15", f"deseason[{_o}, time called t]", lambda S, o=_o: deseas(S, o, lay="tx", dim="t", cal="julian", gen="daily"))
    register("C15", f"deseason[{_o}, chunked in time]", lambda S, o=_o: deseas(S, o, lay="tyx", chunks={"time": 2, "yh": 1}))
    register("C15", f"deseason[{_o}, chunked in time, time last]", lambda S, o=_o: deseas(S, o, lay="yt", chunks={"time": 1, "yh": 2}, cal="standard"))
for _c in CALS[1:]:
    register("C15", f"deseason[{_c}]", lambda S, c=_c: deseas(S, cal=c, lay="ty", gen="daily"))
register("C15", "deseason[unknown format]", lambda S: deseas(S, "anomaly", err="ValueError"))
register("C15", "deseason[unknown dimension]", lambda S: Case(T + "deseason", [S.arr("v", [S.axis("yh"), S.axis("xh")]).da()], expect=Raises("AssertionError")))
register("C15", "deseason[not an array]", lambda S: Case(T + "deseason", [S.dataset({"a": S.arr("v", [S.axis("time")]).da()})], expect=Raises("AssertionError")))
