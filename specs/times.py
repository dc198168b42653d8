"""Contracts of the calendar averages (C11, C12)."""
from .base import Case, Arr, DS, Raises, register

CALS = ("noleap", "standard", "360_day", "proleptic_gregorian", "julian", "all_leap")


class Series:
    def __init__(self, S, cal="noleap", tn="time", lay="tyx", gen="years", chunks=None, tattrs=True):
        self.S, self.cal = S, cal
        self.t = S.axis(tn, id="t", gen=gen)
        self.time = S.time(self.t, cal=cal, id="tc", gen=gen, attrs={"axis": "T", "long_name": "model time"} if tattrs else None)
        self.ax = dict(t=self.t, y=S.axis("yh"), x=S.axis("xh"))
        self.yc = S.coord(self.ax["y"], id="yc", attrs={"units": "degrees"})
        self.xc = S.coord(self.ax["x"], id="xc")
        self.cs = dict(t=self.time, y=self.yc, x=self.xc)
        self.lay = lay

    def arr(self, name, lay=None, **k):
        lay = self.lay if lay is None else lay
        return self.S.arr(name, [self.ax[c] for c in lay], **k)

    def da(self, h, lay=None, **k):
        lay = self.lay if lay is None else lay
        return h.da([self.cs[c] for c in lay], **k)


def _annual_value(S, s, lab, v, member):
    """day-weighted mean of the present months of year lab"""
    mem = member(lab)
    w = lambda i: S.real(S.days_in_month(s.time(i)))
    num = S.sum([mem], lambda i: v(i) * w(i), skipna=True)
    den = S.sum([mem], lambda i: S.ite(S.isnan(v(i)), S.c("0"), w(i)))
    return S.ite(S.eq(den, S.c("0")), S.nan, lambda: num / den)


def at(lay, s, h):
    """h as a function of (time index, {dim: index})"""
    return lambda i, env: h(*[i if c == "t" else env[c] for c in lay])


def annual(S, cal="noleap", tn="time", lay="tyx", chunks=None, kind="da", scalar=False):
    s = Series(S, cal, tn, lay)
    h = s.arr("v")
    g, label, member = S.groups(s.t, lambda i: S.year(s.time(i)), "year")
    yr = S.axis_of(tn, g.n)
    bad = S.any([g], lambda k: S.not_(S.eq(S.count([member(label(k))], lambda i: True), 12)))
    rest = [c for c in lay if c != "t"]

    def expect(h, lay, **k):
        rest = [c for c in lay if c != "t"]
        f = at(lay, s, h)
        return Arr([yr] + [s.ax[c] for c in rest], lambda y, *ix: _annual_value(S, s, label(y), lambda i: f(i, dict(zip(rest, ix))), member),
                   ordered=True, **k)

    stamp = Arr([yr], lambda y: S.year_mid(cal, label(y)), attrs={"axis": "T", "long_name": "model time"})
    cs = {tn: stamp, **{s.cs[c].name: s.cs[c] for c in rest}}
    kw = {} if tn == "time" else dict(tcoord=tn)
    at_ = {"units": "m", "comment": "x"}
    if kind == "da":
        out = expect(h, lay, name="zos", attrs=at_, exact_attrs=at_, coords=cs)
        obj = s.da(h, name="zos", attrs=at_, chunks=chunks, scalar_coords={"depth": S.c("3")} if scalar else None)
        return Case("momlevel.util:annual_average", [obj], kw, expect=[(bad, Raises("AssertionError")), (None, out)], atol=1e-9)
    h1 = s.arr("w", "t")
    u = s.arr("u", lay.replace("t", ""))
    vs = {"zos": s.da(h, attrs=at_, chunks=chunks), "tot": s.da(h1, "t", attrs={"units": "kg"})}
    outs = {"zos": expect(h, lay, attrs=at_, exact_attrs=at_, coords=cs), "tot": expect(h1, "t", attrs={"units": "kg"}, coords={tn: stamp})}
    if "static" in kind:
        vs["area"] = s.da(u, lay.replace("t", ""))
    if "object" in kind:
        vs["when"] = s.time.da([s.time])
    ds = S.dataset(vs, attrs={"title": "exp"})
    return Case("momlevel.util:annual_average", [ds], kw, expect=[(bad, Raises("AssertionError")), (None, DS(outs, exact="static" not in kind, attrs={"title": "exp"}))], atol=1e-9)


for _c in CALS:
    register("C11", f"annual_average[{_c}]", lambda S, c=_c: annual(S, c))
register("C11", "annual_average[1d]", lambda S: annual(S, lay="t"))
register("C11", "annual_average[time last]", lambda S: annual(S, lay="yxt"))
register("C11", "annual_average[time in the middle, chunked]", lambda S: annual(S, lay="ytx", cal="standard", chunks=True))
register("C11", "annual_average[time called ocean_time]", lambda S: annual(S, "standard", tn="ocean_time"))
register("C11", "annual_average[scalar coordinate]", lambda S: annual(S, scalar=True))
register("C11", "annual_average[dataset]", lambda S: annual(S, "standard", kind="ds"))
register("C11", "annual_average[dataset, time called t]", lambda S: annual(S, tn="t", kind="ds", lay="ytx"))
register("C11", "annual_average[dataset with static and object variables]", lambda S: annual(S, "julian", kind="ds static object"))
register("C11", "annual_average[dataset with object variable]", lambda S: annual(S, kind="ds object"))


# ------------------------------------------------------------------ C12
def monthly(S, cal="noleap", tn="time", lay="tyx", chunks=None, kind="da"):
    S.need_months()
    s = Series(S, cal, tn, lay, gen="months")
    h = s.arr("v")
    g, label, member = S.groups(s.t, lambda i: S.year(s.time(i)), "year")
    ax = S.axis_of(tn, g.n * 12)
    rest = [c for c in lay if c != "t"]

    def expect(h, lay, **k):
        rest = [c for c in lay if c != "t"]
        f = at(lay, s, h)

        def fn(q, *ix):
            y, m = label(q // 12), q % 12 + 1
            mem = S.sub(member(y), lambda i: S.eq(S.month(s.time(i)), m))
            return S.mean([mem], lambda i: f(i, dict(zip(rest, ix))))

        return Arr([ax] + [s.ax[c] for c in rest], fn, ordered=True, **k)

    stamp = Arr([ax], lambda q: S.month_mid(cal, label(q // 12), q % 12 + 1))
    cs = {tn: stamp, **{s.cs[c].name: s.cs[c] for c in rest}}
    kw = {} if tn == "time" else dict(tcoord=tn)
    if kind == "da":
        return Case("momlevel.util:monthly_average", [s.da(h, name="zos", chunks=chunks)], kw, expect=expect(h, lay, name="zos", coords=cs), atol=1e-9)
    h1 = s.arr("w", "t")
    vs = {"zos": s.da(h, chunks=chunks), "tot": s.da(h1, "t")}
    if "object" in kind:
        vs["when"] = s.time.da([s.time])
    return Case("momlevel.util:monthly_average", [S.dataset(vs)], kw,
                expect=DS({"zos": expect(h, lay, coords=cs), "tot": expect(h1, "t", coords={tn: stamp})}, exact=True), atol=1e-9)


for _c in CALS:
    register("C12", f"monthly_average[{_c}]", lambda S, c=_c: monthly(S, c, lay="tx"))
register("C12", "monthly_average[1d]", lambda S: monthly(S, lay="t"))
register("C12", "monthly_average[time last]", lambda S: monthly(S, lay="yxt"))
register("C12", "monthly_average[time in the middle, chunked, called t]", lambda S: monthly(S, lay="ytx", cal="standard", tn="t", chunks=True))
register("C12", "monthly_average[dataset]", lambda S: monthly(S, kind="ds", lay="xt", cal="julian"))
register("C12", "monthly_average[dataset, time called t, object variable]", lambda S: monthly(S, tn="t", kind="ds object", lay="tx"))


def cycle(S, func=None, year=False, cal="noleap", tn="time", lay="tyx", chunks=None, kind="da", bad=False):
    S.need_months()
    s = Series(S, cal, tn, lay, gen="years" if S.sym or S.rng.random() < 0.5 else "months")
    h = s.arr("v")
    g, label, member = S.groups(s.t, lambda i: S.month(s.time(i)), "month")
    ax = S.axis_of(tn, 12)
    rest = [c for c in lay if c != "t"]
    kw = {} if tn == "time" else dict(tcoord=tn)
    if func is not None:
        kw["func"] = func
    if year:
        y = kw["time_axis_year"] = S.scalar("yr", integer=True, lo=1, hi=9998, gen=(1600, 2100))
    else:
        y = S.year(S.mid_date(s.time(0), s.time(s.t.n - 1)))
    red = {None: S.mean, "mean": S.mean, "min": S.amin, "max": S.amax, "std": S.std}.get(func) if not bad else None

    def expect(h, lay, **k):
        rest = [c for c in lay if c != "t"]
        f = at(lay, s, h)
        return Arr([ax] + [s.ax[c] for c in rest], lambda q, *ix: red([member(q + 1)], lambda i: f(i, dict(zip(rest, ix)))), **k)

    stamp = Arr([ax], lambda q: S.month_mid(cal, y, q + 1))
    cs = {tn: stamp, **{s.cs[c].name: s.cs[c] for c in rest}}
    if red is None:
        exp = Raises("ValueError")
    elif kind == "da":
        exp = expect(h, lay, name="zos", coords=cs)
    if kind == "da":
        return Case("momlevel.util:annual_cycle", [s.da(h, name="zos", chunks=chunks)], kw, expect=exp, atol=1e-7)
    h1 = s.arr("w", "t")
    vs = {"zos": s.da(h, chunks=chunks), "tot": s.da(h1, "t")}
    if "object" in kind:
        vs["when"] = s.time.da([s.time])
    return Case("momlevel.util:annual_cycle", [S.dataset(vs)], kw,
                expect=exp if red is None else DS({"zos": expect(h, lay, coords=cs), "tot": expect(h1, "t", coords={tn: stamp})}, exact=True), atol=1e-7)


for _f in ("MEAN", "average", "sum", "", "Std", "mean ", "minimum", "var"):
    register("C12", f"annual_cycle[unknown {_f!r}]", lambda S, f=_f: cycle(S, f), trials=0.1)
for _f in (None, "mean", "min", "max", "std", "median"):
    register("C12", f"annual_cycle[{_f}]", lambda S, f=_f: cycle(S, f))
    register("C12", f"annual_cycle[{_f}, year given, time last]", lambda S, f=_f: cycle(S, f, True, lay="yxt", cal="standard"))
for _c in CALS[1:]:
    register("C12", f"annual_cycle[{_c}]", lambda S, c=_c: cycle(S, cal=c, lay="tx"))
register("C12", "annual_cycle[time called t, chunked]", lambda S: cycle(S, "min", tn="t", chunks=True, lay="xt"))
register("C12", "annual_cycle[dataset]", lambda S: cycle(S, "std", kind="ds", lay="tx"))
register("C12", "annual_cycle[dataset, time called t, object variable]", lambda S: cycle(S, "max", tn="t", kind="ds object", lay="xt", year=True))
