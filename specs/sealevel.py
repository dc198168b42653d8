"""Contracts of the partial-cell thickness, reference state, steric sea level and
of the dataset gate (C05-C10)."""
from .base import Case, Arr, Raises, Obj, Either, DS, Tup, Py, Anything, ANY, register, scenario, finding
from .eos import EOS, TG, SG, PG
from .times import _annual_value
from .xeos import pick

OCEAN = "361110920000000"  # m2, 3.6111092e14


# ------------------------------------------------------------------ C05
def thickness(S, zt, zb, D, top=None):
    """part of [zt, zb] that lies between top and the bottom D"""
    up = zt if top is None else S.max(zt, top)
    lo = S.min(zb, D)
    return S.max(lo - up, S.c("0"))


def dz_case(S, top=False, bottom=False, fraction=False, dims="yx", names=("z_l", "z_i", "yh", "xh"), free=False, positional=False, chunks=None, zonly=False):
    z = S.axis(names[0], id="z")
    zi = S.axis_plus(z, names[1], 1)
    ax = dict(zip("zyx", (z, S.axis(names[2], id="y"), S.axis(names[3], id="x"))))
    lb = {} if free else dict(lo=0.0)
    g = dict(gen=(-20.0, 100.0)) if free else dict(gen=(0.0, 100.0))
    lev = S.coord(z, id="lev", **lb, **g)
    itf = S.coord(zi, id="itf", **lb, **g)
    D = S.arr("depth", [ax[k] for k in dims], **lb, **g)
    cs = [S.coord(ax[k], id="c" + k) for k in dims]
    kw = {}
    tp = bt = None
    if top:
        tp = kw["top"] = S.scalar("top", lo=0.0, gen=(0.0, 100.0))
    if bottom:
        bt = kw["bottom"] = S.scalar("bottom", lo=0.0, gen=(0.0, 120.0))
    if fraction:
        kw["fraction"] = True

    def cell(i, ix):
        d = D(*ix)
        d = S.ite(S.isnan(d), S.c("0"), d)
        if bt is not None:
            d = S.min(d, bt)
        zt, zb = itf(i), itf(i + 1)
        right = thickness(S, zt, zb, d, tp)
        if tp is None:
            return right, right, False
        # recorded defect: both bounds inside the same cell
        known = S.min(S.min(d - zt, zb - zt), zb - tp)
        inside = S.and_(zt < d, d < zb, zt < tp, tp < zb)
        return right, known, inside

    def fin(v, i):
        if not fraction:
            return v
        w = itf(i + 1) - itf(i)
        return S.ite(S.or_(S.eq(w, S.c("0")), S.eq(v, S.c("0"))), S.nan, lambda: v / w)

    dd = [z] + [ax[k] for k in dims]

    def fn(i, *ix):
        right, known, inside = cell(i, ix)
        if inside is False:
            return fin(right, i)
        if S.sym:
            return Either(fin(right, i), S.ite(inside, fin(known, i), fin(right, i)))
        return Either(fin(right, i), fin(known, i)) if inside else fin(right, i)

    out = Arr(dd, fn, coords={lev.name: lev, **{c.name: c for c in cs}})
    args = [lev.da([lev]), itf.da([itf]), D.da(cs, chunks=chunks)]
    exp = out
    if free:
        neg = S.or_(S.any([ax[k] for k in dims], lambda *ix: D(*ix) < 0.0), S.any([z], lambda i: lev(i) < 0.0), S.any([zi], lambda i: itf(i) < 0.0))
        exp = [(neg, Raises("AssertionError")), (None, out)]
    if positional:
        args += [kw["top"], kw["bottom"]]
        kw = {}
    return Case("momlevel.derived:calc_dz", args, kw, expect=exp, atol=1e-9)


register("C05", "calc_dz[default]", lambda S: dz_case(S))
register("C05", "calc_dz[any sign]", lambda S: dz_case(S, free=True))
register("C05", "calc_dz[bottom]", lambda S: dz_case(S, bottom=True))
register("C05", "calc_dz[top]", lambda S: dz_case(S, top=True))
register("C05", "calc_dz[top, bottom]", lambda S: dz_case(S, top=True, bottom=True))
register("C05", "calc_dz[top, bottom positional]", lambda S: dz_case(S, top=True, bottom=True, positional=True))
register("C05", "calc_dz[fraction]", lambda S: dz_case(S, fraction=True))
register("C05", "calc_dz[fraction, bottom]", lambda S: dz_case(S, fraction=True, bottom=True))
register("C05", "calc_dz[fraction, top, bottom]", lambda S: dz_case(S, fraction=True, top=True, bottom=True))
register("C05", "calc_dz[other names]", lambda S: dz_case(S, names=("depth", "depth_bnds", "lat", "lon"), top=True, bottom=True))
register("C05", "calc_dz[1d bathymetry]", lambda S: dz_case(S, dims="x", bottom=True))
register("C05", "calc_dz[transposed bathymetry]", lambda S: dz_case(S, dims="xy"))
register("C05", "calc_dz[chunked]", lambda S: dz_case(S, bottom=True, chunks=True))


@finding("C05", "calc_dz-top-and-bottom-in-one-cell")
def _f(S):
    """levels [5], interfaces [0, 10], bathymetry 8, top 4: expected 4, the code returns 6"""
    z = S.axis("z_l", n=1)
    zi = S.axis("z_i", n=2)
    x = S.axis("xh", n=1)
    import numpy as np
    import xarray as xr
    lev = xr.DataArray(np.array([5.0]), dims=["z_l"], coords={"z_l": [5.0]})
    itf = xr.DataArray(np.array([0.0, 10.0]), dims=["z_i"], coords={"z_i": [0.0, 10.0]})
    dep = xr.DataArray(np.array([8.0]), dims=["xh"])
    return Case("momlevel.derived:calc_dz", [lev, itf, dep], dict(top=4.0), expect=Arr([z, x], lambda i, j: 4.0))


# ------------------------------------------------------------------ sea level inputs
class Named:
    """a handle with another order of dimensions, as a function of the standard order"""

    def __init__(self, h, dims):
        self.h, self.std = h, dims

    def __call__(self, *ix):
        return pick(self.h, self.std, ix)


class Sea:
    """input dataset of the sea level routines"""

    def __init__(self, S, names=None, vnames=None, tcoord=True, chunks=None, nodepth=False, extra=False, time="noleap", lo=2, nan=True, tgen=None, lay="tzyx", geo=False):
        n = dict(t="time", z="z_l", zi="z_i", y="yh", x="xh")
        n.update(names or {})
        v = dict(thetao="thetao", so="so", volcello="volcello", areacello="areacello", deptho="deptho")
        v.update(vnames or {})
        self.S, self.n, self.v = S, n, v
        self.t, self.z, self.y, self.x = S.axis(n["t"], id="t", **({"gen": tgen} if tgen else {})), S.axis(n["z"], lo=lo, id="z"), S.axis(n["y"], lo=lo, id="y"), S.axis(n["x"], lo=lo, id="x")
        self.zi = S.axis_plus(self.z, n["zi"], 1)
        self.lev = S.coord(self.z, lo=0.0, gen=(0.0, 5000.0), id="lev", attrs={"axis": "Z", "units": "m"})
        self.itf = S.coord(self.zi, lo=0.0, gen=(0.0, 6000.0), id="itf")
        self.yc, self.xc = S.coord(self.y, id="yc", gen=(-90.0, 90.0)), S.coord(self.x, id="xc", gen=(-180.0, 180.0))
        self.time = S.time(self.t, cal=time, id="tc", attrs={"long_name": "time"}, **({"gen": tgen} if tgen else {}))
        a4 = [self.t, self.z, self.y, self.x]
        ly = [a4["tzyx".index(c)] for c in lay]
        tr = lambda h: h if lay == "tzyx" else Named(h, a4)
        hT, hs = S.arr("thetao", ly, gen=TG, nan=nan), S.arr("so", ly if lay == "tzyx" else ly[1:] + ly[:1], gen=SG, nan=nan)
        self.T, self.s = tr(hT), tr(hs)
        hV = S.arr("volcello", ly[::-1] if lay != "tzyx" else ly, gen=(-1e11 if S.flip(0.15) else 0.0, 1e12), nan=nan)
        self.V = tr(hV)
        yx = [self.y, self.x]
        a2 = yx if lay == "tzyx" else yx[::-1]
        tr2 = lambda h: h if lay == "tzyx" else Named(h, yx)
        hA = S.arr("areacello", a2, gen="area", nan=nan)
        hD = S.arr("deptho", a2, lo=0.0, gen=(0.0, 6000.0), nan=nan)
        self.A, self.D = tr2(hA), tr2(hD)
        self.geo = [S.arr("geolat", [self.y, self.x], nan=False), S.arr("geolon", [self.y, self.x], nan=False)] if geo else []
        c4 = [self.time, self.lev, self.yc, self.xc]
        vs = {v["thetao"]: hT.da(c4 + self.geo, chunks=chunks), v["so"]: hs.da(c4 + self.geo, chunks=chunks), v["volcello"]: hV.da(c4 + self.geo, chunks=chunks),
              v["areacello"]: hA.da(c4[2:] + self.geo, attrs={"units": "m2", "comment": "wet"})}
        if not nodepth:
            vs[v["deptho"]] = hD.da(c4[2:] + self.geo)
        if extra:
            self.e = S.arr("extra", [self.t, self.y, self.x])
            vs["zos"] = self.e.da([self.time, self.yc, self.xc])
        co = {} if nodepth else {n["zi"]: self.itf.da([self.itf])}
        self.ds = S.dataset(vs, coords=co, attrs={"title": "t"})
        self.coord_names = dict(t=n["t"], z=n["z"], zbounds=n["zi"])
        self.vmap = {v[k]: k for k in v if v[k] != k}

    def pres(self, k, patm):
        return self.lev(k) * 10000.0 + patm

    def area_ok(self, A=None):
        return area_ok(self.S, [self.y, self.x], A or self.A)


def area_ok(S, axes, A, ref=None, tol=None):
    tot = S.sum(axes, lambda *ix: A(*ix), skipna=True)
    ref = S.c(OCEAN) if ref is None else ref
    tol = S.c("0.02") if tol is None else tol
    return S.abs((tot - ref) / ref) < tol


class Ref:
    """a user-supplied reference dataset, independent of the input"""

    def __init__(self, S, d, consistent=False):
        a3 = [d.z, d.y, d.x]
        self.T, self.s = S.arr("r_thetao", a3, gen=TG), S.arr("r_so", a3, gen=SG)
        self.V, self.rho = S.arr("r_volcello", a3, gen=(0.0, 1e12)), S.arr("r_rho", a3, gen=(1000.0, 1060.0))
        self.A = S.arr("r_areacello", [d.y, d.x], gen="area")
        self.sc = {k: S.arr(f"r_{k}", [], nan=False, gt=0.0, gen=g) for k, g in (("volo", (1e13, 1e14)), ("masso", (1e16, 1e17)), ("rhoga", (1000.0, 1060.0)))}
        c3 = [d.lev, d.yc, d.xc]
        vs = {"thetao": self.T.da(c3), "so": self.s.da(c3), "volcello": self.V.da(c3), "rho": self.rho.da(c3), "areacello": self.A.da(c3[1:])}
        for k, h in self.sc.items():
            vs[k] = h.da([])
        self.ds = S.dataset(vs)
        self.volo = lambda: self.sc["volo"]()
        self.rhoga = lambda: self.sc["rhoga"]()


class Gen:
    """reference state the routine derives from time level ti"""

    def __init__(self, S, d, eos, patm, ti=0):
        self.T = lambda k, j, i: d.T(ti, k, j, i)
        self.s = lambda k, j, i: d.s(ti, k, j, i)
        self.V = lambda k, j, i: d.V(ti, k, j, i)
        self.A = d.A
        f = EOS[eos.lower()]["density"]
        self.rho = lambda k, j, i: f(S, self.T(k, j, i), self.s(k, j, i), d.pres(k, patm(j, i)))
        ax = [d.z, d.y, d.x]
        self._m = {}

        def once(k, fn):
            if k not in self._m:
                self._m[k] = fn()
            return self._m[k]

        self.volo = lambda: once("volo", lambda: S.sum(ax, lambda k, j, i: self.V(k, j, i), skipna=True))
        self.masso = lambda: once("masso", lambda: S.sum(ax, lambda k, j, i: self.rho(k, j, i) * self.V(k, j, i), skipna=True))
        self.rhoga = lambda: self.masso() / self.volo()

    def expect(self, S, d):
        a3 = [d.z, d.y, d.x]
        co = {d.lev.name: d.lev, d.yc.name: d.yc, d.xc.name: d.xc}
        return DS({"thetao": Arr(a3, self.T, coords=co, no_coords=(d.n["t"],)), "so": Arr(a3, self.s, coords=co, no_coords=(d.n["t"],)),
                   "volcello": Arr(a3, self.V, coords=co, no_coords=(d.n["t"],)), "rho": Arr(a3, self.rho, coords=co, attrs={"units": "kg m-3"}),
                   "volo": Arr([], self.volo, attrs={"units": "m3"}), "masso": Arr([], self.masso, attrs={"units": "kg"}),
                   "rhoga": Arr([], self.rhoga, attrs={"units": "kg m-3"}), "areacello": Arr([d.y, d.x], lambda j, i: self.A(j, i), coords={c.name: c for c in [d.yc, d.xc] + d.geo}, attrs={"units": "m2", "comment": "wet"})}, exact=True)


def patm_of(S, d, kind, kw):
    if kind is None:
        return lambda j, i: S.c("101325")
    if kind == "scalar":
        p = kw["patm"] = S.scalar("patm", gen=(9e4, 1.1e5))
        return lambda j, i: p
    h = S.arr("patm", [d.y, d.x], gen=(9e4, 1.1e5))
    kw["patm"] = h.da([d.yc, d.xc])
    return h


# ------------------------------------------------------------------ C08
def ref_case(S, eos="Wright", patm=None, names=None, ti=None, kwe=True, lo=2, lay="tzyx", geo=False):
    d = Sea(S, names=names, lo=lo, lay=lay, geo=geo)
    kw = {}
    p = patm_of(S, d, patm, kw)
    if kwe:
        kw["eos"] = eos
    if names:
        kw["coord_names"] = d.coord_names
    t0 = 0
    if ti == "any":
        t0 = kw["time_index"] = S.scalar("ti", lo=0, gen=(0, 3), integer=True)
        S.assume(t0 < d.t.n)
    elif ti == "last":
        kw["time_index"] = -1
        t0 = d.t.n - 1
    g = Gen(S, d, eos, p, t0)
    return Case("momlevel.reference:setup_reference_state", [d.ds], kw, expect=g.expect(S, d))


register("C08", "setup_reference_state[default]", lambda S: ref_case(S, kwe=False), weight=3)
register("C08", "setup_reference_state[linear]", lambda S: ref_case(S, "linear"), weight=3)
register("C08", "setup_reference_state[any time index]", lambda S: ref_case(S, ti="any"), weight=3)
register("C08", "setup_reference_state[last time index]", lambda S: ref_case(S, ti="last"), weight=3)
register("C08", "setup_reference_state[patm]", lambda S: ref_case(S, patm="scalar"), weight=3)
register("C08", "setup_reference_state[patm field]", lambda S: ref_case(S, patm="field"), weight=3)
register("C08", "setup_reference_state[other names]", lambda S: ref_case(S, names=dict(t="t", z="lev", zi="lev_bnds", y="lat", x="lon")), weight=3)
register("C08", "setup_reference_state[any time index, time last]", lambda S: ref_case(S, ti="any", lay="zyxt"), weight=3)
register("C08", "setup_reference_state[linear, last time index, two-dimensional coordinates]", lambda S: ref_case(S, "linear", ti="last", geo=True), weight=3)


def _volo(S, nd):
    ax = [S.axis(n) for n in ("z_l", "yh", "xh", "e")[:nd]]
    V = S.arr("volcello", ax, gen=(-1e11 if S.flip(0.3) else 0.0, 1e12))
    out = Arr([], lambda: S.sum(ax, lambda *ix: V(*ix), skipna=True), attrs={"units": "m3", "standard_name": "sea_water_volume"})
    return Case("momlevel.derived:calc_volo", [V.da()], expect=out if nd == 3 else Raises("AssertionError"))


for _k in (2, 3, 4):
    register("C07", f"calc_volo[{_k}d]", lambda S, k=_k: _volo(S, k))


def _masso(S, la, lb, t="time", kw=False, chunks=None):
    ax = dict(zip("tzyx", (S.axis(t), S.axis("z_l"), S.axis("yh"), S.axis("xh"))))
    r, V = S.arr("rho", [ax[k] for k in la], gen=(1000.0, 1060.0)), S.arr("volcello", [ax[k] for k in lb], gen=(-1e11 if S.flip(0.3) else 0.0, 1e12))
    dims = [ax["t"]] if "t" in la + lb else []
    rest = [ax[k] for k in "zyx" if k in la + lb]

    def fn(*ti):
        def f(*ix):
            full = list(ti) + list(ix)
            return pick(r, dims + rest, full) * pick(V, dims + rest, full)

        return S.sum(rest, f, skipna=True)

    return Case("momlevel.derived:calc_masso", [r.da(chunks=chunks), V.da(chunks=chunks)], dict(tcoord=t) if kw else {},
                expect=Arr(dims, fn, attrs={"units": "kg", "standard_name": "sea_water_mass"}))


register("C07", "calc_masso[4d,4d]", lambda S: _masso(S, "tzyx", "tzyx"))
register("C07", "calc_masso[4d,3d]", lambda S: _masso(S, "tzyx", "zyx"))
register("C07", "calc_masso[3d,3d]", lambda S: _masso(S, "zyx", "zyx"))
register("C07", "calc_masso[time last]", lambda S: _masso(S, "zyxt", "zyx"))
register("C07", "calc_masso[other time name]", lambda S: _masso(S, "tzyx", "zyx", "t_day", kw=True))
register("C07", "calc_masso[chunked]", lambda S: _masso(S, "tzyx", "zyx", chunks=True))


def _rhoga(S):
    t = S.axis("time")
    m, v = S.arr("masso", [t], gen=(1e16, 1e17)), S.arr("volo", [t], gen=(1e13, 1e14))
    return Case("momlevel.derived:calc_rhoga", [m.da(), v.da()], expect=Arr([t], lambda i: m(i) / v(i), attrs={"units": "kg m-3"}))


register("C07", "calc_rhoga", _rhoga)


# ------------------------------------------------------------------ C06, C07, C10
def steric_case(S, domain="local", variant="steric", ref=False, eos="Wright", patm=None, rhozero=False, names=None, vnames=None, strict=True,
                wrapper=True, chunks=None, kwe=True, extra=False, nodepth=False, verbose=False, gate=True, annual=False, cal="noleap", lay="tzyx", geo=False):
    d = Sea(S, lay=lay, geo=geo, names=names, vnames=vnames, chunks=chunks, extra=extra, nodepth=nodepth, time=cal, tgen="years" if annual else None)
    kw = {}
    p = patm_of(S, d, patm, kw)
    if kwe:
        kw["equation_of_state"] = eos
    if names:
        kw["coord_names"] = d.coord_names
    if d.vmap:
        kw["varname_map"] = d.vmap
    if domain != "local":
        kw["domain"] = domain
    if not strict:
        kw["strict"] = False
    if verbose:
        kw["verbose"] = True
    r0 = S.c("1035")
    if rhozero:
        r0 = kw["rhozero"] = S.scalar("rhozero", gt=0.0, gen=(900.0, 1100.0))
    if ref:
        R = Ref(S, d)
        kw["reference"] = R.ds
    else:
        R = Gen(S, d, eos, p)
    f = EOS[eos.lower()]["density"]

    def rho(t, k, j, i):
        T = R.T(k, j, i) if variant == "halosteric" else d.T(t, k, j, i)
        s = R.s(k, j, i) if variant == "thermosteric" else d.s(t, k, j, i)
        return f(S, T, s, d.pres(k, p(j, i)))

    def delta(t, k, j, i):
        return S.ite(S.isnan(R.V(k, j, i)), S.nan, lambda: rho(t, k, j, i) - R.rho(k, j, i))

    def dz(k, j, i):
        D = d.D(j, i)
        return thickness(S, d.itf(k), d.itf(k + 1), S.ite(S.isnan(D), S.c("0"), D))

    def local(t, j, i):
        col = lambda: -S.sum([d.z], lambda k: dz(k, j, i) * delta(t, k, j, i), skipna=True) / r0
        return S.ite(S.isnan(R.V(0, j, i)), S.nan, col)

    ma = {}

    def height():
        return R.volo() / S.sum([d.y, d.x], lambda j, i: R.A(j, i), skipna=True)

    def mass(t):
        return S.sum([d.z, d.y, d.x], lambda k, j, i: rho(t, k, j, i) * R.V(k, j, i), skipna=True)

    def glob(t):
        return height() * S.log(R.rhoga() / (mass(t) / R.volo()))

    if domain == "global":
        # an ocean of positive volume and mass: the logarithm is defined
        for q in (R.rhoga(), R.volo()):
            S.assume(S.not_(q <= 0.0))
        S.assume(S.all([d.t], lambda t: S.not_(mass(t) <= 0.0)))

    tc = {d.time.name: d.time}
    lc = {**tc, d.yc.name: d.yc, d.xc.name: d.xc}
    va = {"units": "m", "long_name": f"{variant.capitalize()} height adjustment"}
    if domain == "global":
        res = DS({"reference_height": Arr([], height, attrs={"units": "m"}), variant: Arr([d.t], glob, attrs=va, coords=tc)}, exact=True)
    else:
        a4 = [d.t, d.z, d.y, d.x]
        res = DS({"delta_rho": Arr(a4, delta, attrs={"units": "kg m-3"}, coords={**lc, d.lev.name: d.lev}),
                  variant: Arr([d.t, d.y, d.x], local, attrs=va, coords=lc)}, exact=True)
    post = []
    if annual:
        kw["annual"] = True
        res, months = annual_of(S, d, cal, res)
    if domain == "local":
        post.append(("time is the leading dimension", lambda S, r: r[0][variant].dims[0] == d.n["t"] and r[0]["delta_rho"].dims[0] == d.n["t"]))
    out = Tup(res, R.expect(S, d) if not ref else DS({"rho": Arr([d.z, d.y, d.x], lambda k, j, i: R.rho(k, j, i))}))
    bad = S.not_(d.area_ok())
    if ref:
        bad = S.or_(bad, S.not_(d.area_ok(R.A)))
    exp = [(bad, Raises("ValueError")), (None, out)] if strict else out
    if annual:
        exp = ([(bad, Raises("ValueError"))] if strict else []) + [(months, Raises("AssertionError")), (None, out)]
    if not gate:
        S.assume(S.not_(bad))
        exp = [(months, Raises("AssertionError")), (None, out)] if annual else out
    tgt = "momlevel.steric:steric"
    if variant != "steric":
        if wrapper:
            tgt = f"momlevel.steric:{variant}"
        else:
            kw["variant"] = variant
    return Case(tgt, [d.ds], kw, expect=exp, rtol=1e-9, atol=1e-9 if domain == "global" else 1e-7, post=post)


def annual_of(S, d, cal, res):
    """the annual means (C11) of the time dependent fields of a result"""
    g, label, member = S.groups(d.t, lambda i: S.year(d.time(i)), "year")
    yr = S.axis_of(d.n["t"], g.n)
    stamp = Arr([yr], lambda y: S.year_mid(cal, label(y)))
    vs = {}
    for k, a in res.vars.items():
        if not a.dims or a.dims[0] is not d.t:
            continue
        vs[k] = Arr([yr] + a.dims[1:], lambda y, *ix, a=a: _annual_value(S, d, label(y), lambda i: a.fn(i, *ix), member), attrs=a.attrs,
                    coords={**{c: h for c, h in a.coords.items() if c != d.time.name}, d.time.name: stamp})
    return DS(vs), S.any([g], lambda k: S.not_(S.eq(S.count([member(label(k))], lambda i: True), 12)))


NM = dict(t="t", z="lev", zi="lev_bnds", y="lat", x="lon")
VN = dict(thetao="temp", so="salt", volcello="vol", areacello="area", deptho="depth")

for _v in ("steric", "thermosteric", "halosteric"):
    for _r in (False, True):
        for _dm, _p in (("local", "C06"), ("global", "C07")):
            register(_p, f"{_v}[{_dm}{', reference' if _r else ''}]", lambda S, v=_v, r=_r, d=_dm: steric_case(S, d, v, r), weight=5, trials=0.6)
    for _dm, _p in (("local", "C06"), ("global", "C07")):
        register(_p, f"{_v}[{_dm}, variant keyword, linear]", lambda S, v=_v, d=_dm: steric_case(S, d, v, eos="linear", wrapper=False), weight=5, trials=0.4)
        register("C10", f"{_v}[{_dm}, renamed coordinates]", lambda S, v=_v, d=_dm: steric_case(S, d, v, names=NM), weight=5, trials=0.5)
        register("C10", f"{_v}[{_dm}, renamed variables]", lambda S, v=_v, d=_dm: steric_case(S, d, v, vnames=VN, ref=True), weight=5, trials=0.5)
        register("C10", f"{_v}[{_dm}, renamed both]", lambda S, v=_v, d=_dm: steric_case(S, d, v, names=NM, vnames=VN, eos="linear"), weight=5, trials=0.5)
for _dm, _p in (("local", "C06"), ("global", "C07")):
    register(_p, f"steric[{_dm}, patm]", lambda S, d=_dm, r=_p == "C07": steric_case(S, d, patm="scalar", ref=r), weight=5, trials=0.4)
    register(_p, f"steric[{_dm}, patm field]", lambda S, d=_dm: steric_case(S, d, patm="field"), weight=5, trials=0.4)
    register(_p, f"steric[{_dm}, not strict]", lambda S, d=_dm: steric_case(S, d, strict=False), weight=5, trials=0.4)
    register(_p, f"steric[{_dm}, defaults only, verbose]", lambda S, d=_dm: steric_case(S, d, kwe=False, verbose=True), weight=5, trials=0.4)
    register(_p, f"halosteric[{_dm}, other order of dimensions]", lambda S, d=_dm: steric_case(S, d, "halosteric", lay="xyzt"), weight=5, trials=0.4)
    register(_p, f"thermosteric[{_dm}, other order of dimensions, reference]", lambda S, d=_dm: steric_case(S, d, "thermosteric", lay="ztyx", ref=True), weight=5, trials=0.4)
    register(_p, f"steric[{_dm}, two-dimensional coordinates]", lambda S, d=_dm: steric_case(S, d, geo=True), weight=5, trials=0.4)
    register(_p, f"steric[{_dm}, chunked]", lambda S, d=_dm: steric_case(S, d, chunks=True, ref=True), weight=5, trials=0.3)
register("C06", "steric[local, rhozero]", lambda S: steric_case(S, rhozero=True), weight=5, trials=0.4)
register("C06", "thermosteric[local, rhozero, patm, reference]", lambda S: steric_case(S, "local", "thermosteric", True, rhozero=True, patm="scalar"), weight=5, trials=0.4)
register("C06", "halosteric[local, rhozero, patm, reference]", lambda S: steric_case(S, "local", "halosteric", True, rhozero=True, patm="scalar"), weight=5, trials=0.4)
for _v in ("steric", "thermosteric", "halosteric"):
    for _dm in ("local", "global"):
        register("C10", f"{_v}[{_dm}, annual]", lambda S, v=_v, d=_dm: steric_case(S, d, v, annual=True, gate=False), weight=5, trials=0.1)
        register("C10", f"{_v}[{_dm}, annual, renamed both]", lambda S, v=_v, d=_dm: steric_case(S, d, v, annual=True, names=NM, vnames=VN, cal="standard", ref=True, gate=False), weight=5, trials=0.1)
register("C07", "steric[global, no bathymetry]", lambda S: steric_case(S, "global", nodepth=True), weight=5, trials=0.4)
register("C07", "thermosteric[global, patm, reference]", lambda S: steric_case(S, "global", "thermosteric", True, patm="scalar"), weight=5, trials=0.4)


def _badvariant(S, name):
    d = Sea(S)
    return Case("momlevel.steric:steric", [d.ds], dict(variant=name), expect=Raises("ValueError"))


for _n in ("chemosteric", "thermo", "halo", "STERIC", "Thermosteric", "HaloSteric", "", " steric", "steric ", "thermosteric_halosteric"):
    register("C06", f"steric[unknown variant {_n!r}]", lambda S, n=_n: _badvariant(S, n), trials=0.2)


def _refnotds(S):
    d = Sea(S)
    return Case("momlevel.steric:steric", [d.ds], dict(reference=3.0, strict=False), expect=Raises("AssertionError"))


register("C06", "steric[reference is not a dataset]", _refnotds)


def _defcoords(names):
    n = names or {}
    return lambda S: Case("momlevel.util:default_coords", [] if names is None else [dict(names)],
                          expect=Py((n.get("t", "time"), n.get("z", "z_l"), n.get("zbounds", "z_i"))))


import itertools as _it

register("C10", "default_coords[none]", _defcoords(None))
for _n in range(4):
    for _ks in _it.combinations(("t", "z", "zbounds"), _n):
        register("C10", f"default_coords[{','.join(_ks) or 'empty'}]", _defcoords({k: "my_" + k for k in _ks}))
register("C10", "default_coords[not a dictionary]", lambda S: Case("momlevel.util:default_coords", [["z"]], expect=Raises("AssertionError")))


# ------------------------------------------------------------------ C09
def _area(S, how):
    ax = [S.axis("yh"), S.axis("xh")]
    A = S.arr("areacello", ax, gen="area")
    kw = {}
    ref = tol = None
    if "ref" in how:
        ref = kw["reference"] = S.scalar("ref", gt=0.0, gen=(3.4e14, 3.8e14))
    if "tol" in how:
        tol = kw["tolerance"] = S.scalar("tol", gt=0.0, gen=(0.001, 0.2))
    ok = area_ok(S, ax, A, ref, tol)
    return Case("momlevel.util:validate_areacello", [A.da()], kw, expect=[(ok, Py(True)), (None, Py(False))])


def _area_edge(S):
    """totals exactly on, just inside and just outside the tolerance"""
    x = S.axis("xh")
    A = S.arr("areacello", [x], gen=S.edge())
    ref, tol = S.c("8"), S.c("0.25")
    return Case("momlevel.util:validate_areacello", [A.da()], dict(reference=8.0, tolerance=0.25), expect=[(area_ok(S, [x], A, ref, tol), Py(True)), (None, Py(False))])


register("C09", "validate_areacello[edge of the tolerance]", _area_edge, trials=2)
for _h in ("", "ref", "tol", "ref,tol"):
    register("C09", f"validate_areacello[{_h or 'default'}]", lambda S, h=_h: _area(S, h))

VARS4 = ("thetao", "so", "volcello")


def gate(S, reference=False, strict=None, drop=(), rank=None, extra=None, timecoord=None, addl_missing=False, renamed=None, zi=False):
    """validate_dataset: accepted (None) exactly when nothing is wrong"""
    ax = dict(zip("tzyxe", (S.axis("time"), S.axis("z_l"), S.axis("yh"), S.axis("xh"), S.axis("member"))))
    rk = {v: ("zyx" if reference else "tzyx") for v in VARS4}
    rk.update(areacello="yx", deptho="yx")
    if reference:
        rk.update(rho="zyx", volo="", masso="", rhoga="")
    rk.update(rank or {})
    vs, hs = {}, {}
    for v, r in rk.items():
        if v in drop:
            continue
        h = hs[v] = S.arr(v, [ax[k] for k in r], gen="area" if v == "areacello" else (0.0, 10.0))
        vs[v] = h.da()
    co = {}
    if timecoord:
        co[timecoord] = S.arr("tc", [], nan=False).da()
    if zi:
        c = S.coord(S.axis("z_i"), id="itf")
        co["z_i"] = c.da([c])
    ds = S.dataset(vs, coords=co)
    kw = dict(reference=True) if reference else {}
    if strict is not None:
        kw["strict"] = strict
    wrong = False
    if extra is not None:
        kw["additional_vars"] = extra
        ex = [extra] if isinstance(extra, str) else list(extra)
        if any(e not in vs and not (zi and e == "z_i") for e in ex):
            wrong = True
    need = list(VARS4) + ["areacello"] + (["rho", "volo", "masso", "rhoga"] if reference else [])
    if any(v not in vs for v in need):
        wrong = True
    good = {v: (3 if reference else 4) for v in VARS4}
    good.update(areacello=2, deptho=2)
    if reference:
        good.update(rho=3, volo=0, masso=0, rhoga=0)
    if any(v in vs and len(rk[v]) != good[v] for v in good):
        wrong = True
    if reference and timecoord and timecoord.lower() == "time":
        wrong = True
    if wrong:
        exp = Raises("ValueError")
    elif "areacello" in vs and strict is not False:
        a = [ax[k] for k in rk["areacello"]]
        exp = [(area_ok(S, a, hs["areacello"]), Py(None)), (None, Raises("ValueError"))]
    else:
        exp = Py(None)
    return Case("momlevel.util:validate_dataset", [ds], kw, expect=exp)


register("C09", "input[complete]", lambda S: gate(S))
register("C09", "input[complete, not strict]", lambda S: gate(S, strict=False))
register("C09", "reference[complete]", lambda S: gate(S, True))
register("C09", "reference[complete, not strict]", lambda S: gate(S, True, strict=False))
for _st in (True, False):
    _sl = "" if _st else ", not strict"
    for _v in VARS4 + ("areacello",):
        register("C09", f"input[no {_v}{_sl}]", lambda S, v=_v, st=_st: gate(S, drop=(v,), strict=st))
        register("C09", f"reference[no {_v}{_sl}]", lambda S, v=_v, st=_st: gate(S, True, drop=(v,), strict=st))
    for _v in ("rho", "volo", "masso", "rhoga"):
        register("C09", f"reference[no {_v}{_sl}]", lambda S, v=_v, st=_st: gate(S, True, drop=(v,), strict=st))
        register("C09", f"input[{_v} not needed{_sl}]", lambda S, v=_v, st=_st: gate(S, strict=st))
    register("C09", f"input[no deptho{_sl}]", lambda S, st=_st: gate(S, drop=("deptho",), strict=st))
    for _v in VARS4:
        register("C09", f"input[{_v} 3d{_sl}]", lambda S, v=_v, st=_st: gate(S, rank={v: "zyx"}, strict=st))
        register("C09", f"reference[{_v} 4d{_sl}]", lambda S, v=_v, st=_st: gate(S, True, rank={v: "tzyx"}, strict=st))
        register("C09", f"reference[{_v} 2d{_sl}]", lambda S, v=_v, st=_st: gate(S, True, rank={v: "yx"}, strict=st))
    for _v in ("areacello", "deptho"):
        for _r in ("tyx", "y"):
            register("C09", f"input[{_v} {len(_r)}d{_sl}]", lambda S, v=_v, r=_r, st=_st: gate(S, rank={v: r}, strict=st))
            register("C09", f"reference[{_v} {len(_r)}d{_sl}]", lambda S, v=_v, r=_r, st=_st: gate(S, True, rank={v: r}, strict=st))
    register("C09", f"reference[rho 4d{_sl}]", lambda S, st=_st: gate(S, True, rank={"rho": "tzyx"}, strict=st))
    for _v in ("volo", "masso", "rhoga"):
        register("C09", f"reference[{_v} 1d{_sl}]", lambda S, v=_v, st=_st: gate(S, True, rank={v: "t"}, strict=st))
    for _t in ("time", "Time", "TIME"):
        register("C09", f"reference[with {_t}{_sl}]", lambda S, t=_t, st=_st: gate(S, True, timecoord=t, strict=st))
    register("C09", f"input[with time{_sl}]", lambda S, st=_st: gate(S, timecoord="Time", strict=st))
    register("C09", f"reference[with other scalar coordinate{_sl}]", lambda S, st=_st: gate(S, True, timecoord="lev0", strict=st))
    register("C09", f"input[additional present{_sl}]", lambda S, st=_st: gate(S, extra=["deptho"], strict=st))
    register("C09", f"input[additional present, string{_sl}]", lambda S, st=_st: gate(S, extra="deptho", strict=st))
    register("C09", f"input[additional missing{_sl}]", lambda S, st=_st: gate(S, extra=["deptho", "z_i"], strict=st))
    register("C09", f"input[additional missing, string{_sl}]", lambda S, st=_st: gate(S, extra="z_i", strict=st))


    register("C09", f"input[additional coordinate{_sl}]", lambda S, st=_st: gate(S, extra=["z_i", "deptho"], zi=True, strict=st))
    register("C09", f"input[additional coordinate, string{_sl}]", lambda S, st=_st: gate(S, extra="z_i", zi=True, strict=st))
    # two things wrong, or one thing wrong and something optional absent
    for _v in VARS4:
        register("C09", f"input[{_v} 2d{_sl}]", lambda S, v=_v, st=_st: gate(S, rank={v: "yx"}, strict=st), trials=0.2)
        register("C09", f"input[{_v} 5d{_sl}]", lambda S, v=_v, st=_st: gate(S, rank={v: "etzyx"}, strict=st), trials=0.2)
        for _w in VARS4 + ("areacello", "deptho"):
            if _w != _v:
                register("C09", f"input[{_v} 3d, no {_w}{_sl}]", lambda S, v=_v, w=_w, st=_st: gate(S, rank={v: "zyx"}, drop=(w,), strict=st), trials=0.1)
                register("C09", f"reference[{_v} 4d, no {_w}{_sl}]", lambda S, v=_v, w=_w, st=_st: gate(S, True, rank={v: "tzyx"}, drop=(w,), strict=st), trials=0.1)
        for _w in VARS4:
            if _w > _v:
                register("C09", f"input[{_v} and {_w} 3d{_sl}]", lambda S, v=_v, w=_w, st=_st: gate(S, rank={v: "zyx", w: "zyx"}, strict=st), trials=0.1)
                register("C09", f"reference[{_v} and {_w} 4d{_sl}]", lambda S, v=_v, w=_w, st=_st: gate(S, True, rank={v: "tzyx", w: "tzyx"}, strict=st), trials=0.1)
    register("C09", f"input[all 3d{_sl}]", lambda S, st=_st: gate(S, rank={v: "zyx" for v in VARS4}, strict=st), trials=0.1)
    register("C09", f"reference[all 4d{_sl}]", lambda S, st=_st: gate(S, True, rank={v: "tzyx" for v in VARS4}, strict=st), trials=0.1)
    for _r in ("", "tzyx"):
        register("C09", f"input[areacello {len(_r)}d{_sl}]", lambda S, r=_r, st=_st: gate(S, rank={"areacello": r}, strict=st), trials=0.1)
        register("C09", f"input[deptho {len(_r)}d, no areacello{_sl}]", lambda S, r=_r, st=_st: gate(S, rank={"deptho": r}, drop=("areacello",), strict=st), trials=0.1)
    for _v in ("volo", "masso", "rhoga", "rho"):
        for _w in ("deptho", "areacello", "rho", "volo"):
            if _w != _v:
                register("C09", f"reference[{_v} 2d, no {_w}{_sl}]", lambda S, v=_v, w=_w, st=_st: gate(S, True, rank={v: "yx"}, drop=(w,), strict=st), trials=0.1)
    register("C09", f"reference[with time, no deptho{_sl}]", lambda S, st=_st: gate(S, True, timecoord="time", drop=("deptho",), strict=st), trials=0.1)
    register("C09", f"input[nothing there{_sl}]", lambda S, st=_st: gate(S, drop=VARS4 + ("areacello", "deptho"), strict=st), trials=0.1)

import random as _rnd

_g = _rnd.Random(9)
for _k in range(80):
    # arbitrary combinations of absent variables, ranks, extra names and strictness
    _rf = _g.random() < 0.5
    _vs = list(VARS4) + ["areacello", "deptho"] + (["rho", "volo", "masso", "rhoga"] if _rf else [])
    _same = _g.choice(("zyx", "tzyx", "yx")) if _g.random() < 0.4 else None
    _rk = {v: (_same if v in VARS4 else None) or _g.choice(("", "y", "yx", "zyx", "tzyx")) for v in _vs if (_same and v in VARS4) or _g.random() < 0.15}
    _kw = dict(reference=_rf, strict=_g.choice((None, True, False)), drop=tuple(v for v in _vs if _g.random() < (0.4 if v == "deptho" else 0.07)), rank=_rk,
               extra=_g.choice((None, None, "deptho", ["deptho"], ["z_i"], [])), timecoord=_g.choice((None, None, None, "Time", "lev0")), zi=_g.random() < 0.5)
    register("C09", f"combination {_k}", lambda S, kw=_kw: gate(S, **kw), trials=0.1)

for _dm in ("local", "global"):
    register("C09", f"steric[{_dm}, reference area]", lambda S, d=_dm: steric_case(S, d, ref=True), weight=5, trials=0.3)
    register("C09", f"steric[{_dm}, reference area, not strict]", lambda S, d=_dm: steric_case(S, d, ref=True, strict=False), weight=5, trials=0.3)


def steric_gate(S, domain, drop, ref=False):
    """the sea level routines refuse an incomplete dataset"""
    d = Sea(S)
    ds = d.ds.drop_vars(drop)
    kw = dict(domain=domain, strict=False)
    need = ["thetao", "so", "volcello", "areacello"] + (["deptho", "z_i"] if domain == "local" else [])
    exp = Raises("ValueError") if drop in need else Anything()
    return Case("momlevel.steric:steric", [ds], kw, expect=exp)


for _dm in ("local", "global"):
    for _v in ("thetao", "so", "volcello", "areacello", "deptho", "z_i"):
        register("C09", f"steric[{_dm}, no {_v}]", lambda S, d=_dm, v=_v: steric_gate(S, d, v), trials=0.5)


def steric_refgate(S, domain, drop):
    d = Sea(S)
    R = Ref(S, d)
    return Case("momlevel.steric:steric", [d.ds], dict(domain=domain, strict=False, reference=R.ds.drop_vars(drop)), expect=Raises("ValueError"))


for _dm in ("local", "global"):
    for _v in ("thetao", "so", "volcello", "areacello", "rho", "volo", "masso", "rhoga"):
        register("C09", f"steric[{_dm}, reference without {_v}]", lambda S, d=_dm, v=_v: steric_refgate(S, d, v), trials=0.5)
