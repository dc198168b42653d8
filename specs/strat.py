"""Contracts of the stratification routines (C18) and of the staggered-grid
vorticity routines (C19)."""
from .base import ANY, Case, Arr, Raises, Either, register, finding
from .eos import EOS, TG, SG, PG
from .xeos import pick


class Col:
    """temperature and salinity on a vertical grid with at least three levels"""

    def __init__(self, S, lay="tzyx", names=("time", "z_l", "yh", "xh"), chunks=None, ncoords=True):
        self.S = S
        self.ax = dict(zip("tzyx", (S.axis(names[0], id="t"), S.axis(names[1], id="z", lo=3), S.axis(names[2], id="y"), S.axis(names[3], id="x"))))
        self.lev = S.coord(self.ax["z"], lo=0.0, gen=(0.0, 5000.0), id="lev")
        self.c = {"z": self.lev}
        if ncoords:
            self.c["y"], self.c["x"] = S.coord(self.ax["y"], id="yc"), S.coord(self.ax["x"], id="xc")
        self.dims = [self.ax[k] for k in lay]
        self.lay = lay
        self.coords = [self.c[k] for k in lay if k in self.c]
        self.T, self.s = S.arr("thetao", self.dims, gen=TG), S.arr("so", self.dims, gen=SG)
        self.Tda, self.sda = self.T.da(self.coords, chunks=chunks, name="thetao"), self.s.da(self.coords, chunks=chunks, name="so")
        self.kz = lay.index("z")
        self.co = {c.name: c for c in self.coords}

    def ddz(self, h, ix):
        at = lambda k: h(*[k if n == self.kz else i for n, i in enumerate(ix)])
        return self.S.grad(self.ax["z"], at, lambda k: self.lev(k), ix[self.kz], 2)


def n2_case(S, lay="tzyx", eos="Wright", kwe=True, grav=False, patm=None, names=("time", "z_l", "yh", "xh"), zkw=False, adjust=False, chunks=None):
    d = Col(S, lay, names, chunks)
    kw = dict(eos=eos) if kwe else {}
    g = S.c("-9.8")
    if grav:
        g = kw["gravity"] = S.scalar("gravity", gen=(-12.0, 12.0))
    p0 = lambda ix: S.c("101325")
    if patm == "scalar":
        ps = kw["patm"] = S.scalar("patm", gen=(-1e4, 1.1e5))
        p0 = lambda ix: ps
    elif patm == "field":
        ph = S.arr("patm", [d.ax["y"], d.ax["x"]], gen=(-1e4, 1.1e5))
        kw["patm"] = ph.da([d.c["y"], d.c["x"]])
        p0 = lambda ix: pick(ph, d.dims, ix)
    if zkw:
        kw["zcoord"] = names[1]
    E = EOS[eos.lower()]

    def raw(*ix):
        T, s, p = d.T(*ix), d.s(*ix), d.lev(ix[d.kz]) * 10000.0 + p0(ix)
        return g * (E["alpha"](S, T, s, p) * d.ddz(d.T, ix) - E["beta"](S, T, s, p) * d.ddz(d.s, ix))

    fn = raw
    at = {"units": "s-2", "standard_name": "square_of_brunt_vaisala_frequency_in_sea_water"}
    if adjust:
        kw["adjust_negative"] = True
        fn = adjusted(S, d.ax["z"], raw, d.lay)
    return Case("momlevel.derived:calc_n2", [d.Tda, d.sda], kw, expect=Arr(d.dims, fn, attrs=at, coords=d.co), atol=1e-12, rtol=1e-6, illcond=adjust)


def adjusted(S, z, raw, lay):
    """non-positive values replaced by the nearest positive value above, 1e-8 at
    the surface; missing stays missing"""
    kz = lay.index("z")
    small = S.c("1/100000000")

    def right(ix):
        def at(k):
            v = raw(*[k if n == kz else i for n, i in enumerate(ix)])
            pos = S.and_(S.not_(S.isnan(v)), v > 0.0)
            return S.ite(pos, v, lambda: S.ite(S.eq(k, 0), small, S.nan))

        v = raw(*ix)
        return S.ite(S.isnan(v), S.nan, lambda: S.ffill(z, at, ix[kz]))

    def recorded(ix):
        """recorded defect: the first position of the leading dimension is taken for the surface"""

        def at(k):
            v = raw(*[k if n == kz else i for n, i in enumerate(ix)])
            pos = S.and_(S.not_(S.isnan(v)), v > 0.0)
            return S.ite(pos, v, lambda: S.ite(S.eq(ix[0], 0), small, S.nan))

        v = raw(*ix)
        return S.ite(S.isnan(v), S.nan, lambda: S.ffill(z, at, ix[kz]))

    if kz == 0:
        return lambda *ix: right(ix)
    return lambda *ix: Either(right(ix), recorded(ix))


ZN = ("t", "lev", "lat", "lon")
register("C18", "calc_n2[default]", lambda S: n2_case(S, kwe=False))
register("C18", "calc_n2[Wright, 3d]", lambda S: n2_case(S, "zyx"))
register("C18", "calc_n2[linear]", lambda S: n2_case(S, eos="linear"))
register("C18", "calc_n2[gravity]", lambda S: n2_case(S, grav=True))
register("C18", "calc_n2[patm]", lambda S: n2_case(S, patm="scalar", grav=True))
register("C18", "calc_n2[patm field]", lambda S: n2_case(S, patm="field"))
register("C18", "calc_n2[column]", lambda S: n2_case(S, "z"))
register("C18", "calc_n2[vertical last]", lambda S: n2_case(S, "yxz"))
register("C18", "calc_n2[other names]", lambda S: n2_case(S, names=ZN, zkw=True))
register("C18", "calc_n2[chunked]", lambda S: n2_case(S, chunks={"time": 1, "yh": 1}))
register("C18", "calc_n2[adjusted]", lambda S: n2_case(S, "zyx", adjust=True))
register("C18", "calc_n2[adjusted, other names]", lambda S: n2_case(S, "zyx", names=ZN, zkw=True, adjust=True))
register("C18", "calc_n2[adjusted, column]", lambda S: n2_case(S, "z", adjust=True, eos="linear"))


def adj_case(S, lay="zyx", names=("time", "z_l", "yh", "xh"), zkw=False, chunks=None):
    ax = dict(zip("tzyx", (S.axis(n, id=i) for n, i in zip(names, "tzyx"))))
    cs = {k: S.coord(ax[k], id="c" + k) for k in "zyx"}
    dims = [ax[k] for k in lay]
    N = S.arr("n2", dims, gen=(-1e-4, 2e-4))
    da = N.da([cs[k] for k in lay if k in cs], attrs={"units": "s-2", "note": "x"}, name="obvfsq", chunks=chunks)
    return Case("momlevel.derived:adjust_negative_n2", [da], dict(zcoord=names[1]) if zkw else {}, atol=1e-15,
                expect=Arr(dims, adjusted(S, ax["z"], N, lay), attrs={"units": "s-2", "note": "x"}, coords={cs[k].name: cs[k] for k in lay if k in cs}))


register("C18", "adjust_negative_n2[3d]", lambda S: adj_case(S))
register("C18", "adjust_negative_n2[column]", lambda S: adj_case(S, "z"))
register("C18", "adjust_negative_n2[vertical, time]", lambda S: adj_case(S, "zt"))
register("C18", "adjust_negative_n2[time first]", lambda S: adj_case(S, "tzyx"))
register("C18", "adjust_negative_n2[other names]", lambda S: adj_case(S, names=ZN, zkw=True))


def wave_case(S, lay="zyx", dlay="zyx", names=("time", "z_l", "yh", "xh"), zkw=False):
    ax = dict(zip("tzyx", (S.axis(n, id=i) for n, i in zip(names, "tzyx"))))
    cs = {k: S.coord(ax[k], id="c" + k) for k in "zyx"}
    dims = [ax[k] for k in lay]
    N, D = S.arr("n2", dims, gen=(-1e-4, 2e-4)), S.arr("dz", [ax[k] for k in dlay], lo=0.0, gen=(0.0, 500.0))
    f = adjusted(S, ax["z"], N, lay)
    out = [ax[k] for k in lay if k != "z"] + [ax[k] for k in dlay if k not in lay]

    def fn(*ix):
        pos = {a.name: i for a, i in zip(out, ix)}

        def col(k):
            p = dict(pos, **{names[1]: k})
            return S.sqrt(f(*[p[a.name] for a in dims])) * D(*[p[a.name] for a in D.dims])

        p0 = dict(pos, **{names[1]: 0})
        land = S.isnan(N(*[p0[a.name] for a in dims]))
        return S.ite(land, S.nan, lambda: S.sum([ax["z"]], col, skipna=True) / S.pi)

    return Case("momlevel.derived:calc_wave_speed", [N.da([cs[k] for k in lay if k in cs]), D.da([cs[k] for k in dlay])], dict(zcoord=names[1]) if zkw else {},
                expect=Arr(out, fn, attrs={"units": "m s-1"}, coords={cs[k].name: cs[k] for k in "yx" if k in lay + dlay}), atol=1e-12)


register("C18", "calc_wave_speed[3d]", lambda S: wave_case(S))
register("C18", "calc_wave_speed[column]", lambda S: wave_case(S, "z", "z"))
register("C18", "calc_wave_speed[other names]", lambda S: wave_case(S, names=ZN, zkw=True))
register("C18", "calc_wave_speed[vertical, time]", lambda S: wave_case(S, "zt", "z"))


def _np4():
    import numpy as np
    import xarray as xr
    v = np.array([[[1e-5, -1e-5, 2e-5]], [[-1e-5, 1e-5, 2e-5]]])  # t, y, z
    return np, xr, xr.DataArray(v.transpose(0, 2, 1), dims=["time", "z_l", "yh"])


@finding("C18", "adjust_negative_n2-time-first")
def _f(S):
    """two times, three levels; a non-positive surface value at the second time must become 1e-8"""
    np, xr, da = _np4()
    want = np.array([[1e-5, 1e-5, 2e-5], [1e-8, 1e-5, 2e-5]])[:, :, None]
    t, z, y = S.axis("time", n=2), S.axis("z_l", n=3), S.axis("yh", n=1)
    return Case("momlevel.derived:adjust_negative_n2", [da], expect=Arr([t, z, y], lambda a, b, c: float(want[a, b, c])), atol=1e-15)


@finding("C18", "calc_wave_speed-time-first")
def _f2(S):
    """the wave speed of (time, z_l, yh) data has no vertical dimension"""
    np, xr, da = _np4()
    da = abs(da)
    dz = xr.DataArray(np.array([10.0, 20.0, 30.0]), dims=["z_l"])
    want = (np.sqrt(da.values) * dz.values[None, :, None]).sum(1) / np.pi
    t, y = S.axis("time", n=2), S.axis("yh", n=1)
    return Case("momlevel.derived:calc_wave_speed", [da, dz], expect=Arr([t, y], lambda a, c: float(want[a, c])), atol=1e-12)


def rossby(S, lay="yx", flay="yx", chunks=None):
    ax = dict(zip("tyx", (S.axis("time"), S.axis("yh"), S.axis("xh"))))
    cs = {k: S.coord(ax[k], id="c" + k) for k in "yx"}
    w, f = S.arr("ws", [ax[k] for k in lay], gen=(0.0, 5.0)), S.arr("f", [ax[k] for k in flay], gen=(-1.5e-4, 1.5e-4))
    dims = [ax[k] for k in "tyx" if k in lay + flay]
    return Case("momlevel.derived:calc_rossby_rd", [w.da([cs[k] for k in lay if k in cs], name="c1", chunks=chunks), f.da([cs[k] for k in flay if k in cs], name="f")],
                expect=Arr(dims, lambda *ix: pick(w, dims, ix) / S.abs(pick(f, dims, ix)), attrs={"units": "m"}, name=None,
                           coords={cs[k].name: cs[k] for k in "yx"}))


register("C18", "calc_rossby_rd[2d]", lambda S: rossby(S))
register("C18", "calc_rossby_rd[time]", lambda S: rossby(S, "tyx"))
register("C18", "calc_rossby_rd[latitude only]", lambda S: rossby(S, "xy", "y"))


def turner(S, eos="Wright", kwe=True, lay="tzyx", play="z", names=("time", "z_l", "yh", "xh"), zkw=False):
    d = Col(S, lay, names)
    ph = S.arr("pres", [d.ax[k] for k in play], gen=PG)
    kw = dict(eos=eos) if kwe else {}
    if zkw:
        kw["zcoord"] = names[1]
    E = EOS[eos.lower()]

    def fn(*ix):
        T, s, p = d.T(*ix), d.s(*ix), pick(ph, d.dims, ix)
        if not S.sym and abs(d.ddz(d.T, ix)) < 1e-9:
            return ANY  # decided by rounding
        R = (E["beta"](S, T, s, p) * d.ddz(d.s, ix)) / (E["alpha"](S, T, s, p) * d.ddz(d.T, ix))
        return S.arctan((1.0 + R) / (1.0 - R)) * 180.0 / S.pi

    return Case("momlevel.derived:calc_stability_angle", [d.Tda, d.sda, ph.da([d.c[k] for k in play if k in d.c])], kw,
                expect=Arr(d.dims, fn, attrs={"units": "degrees"}, name="tu_angle", coords=d.co), atol=1e-6, rtol=1e-6, illcond=True)


register("C18", "calc_stability_angle[default]", lambda S: turner(S, kwe=False))
register("C18", "calc_stability_angle[linear]", lambda S: turner(S, "linear"))
register("C18", "calc_stability_angle[3d pressure]", lambda S: turner(S, play="zyx"))
register("C18", "calc_stability_angle[column]", lambda S: turner(S, lay="z"))
register("C18", "calc_stability_angle[other names]", lambda S: turner(S, names=ZN, zkw=True))


register("C18", "calc_n2[adjusted, time first]", lambda S: n2_case(S, adjust=True))


# ------------------------------------------------------------------ C19
DEFC = dict(xcenter="xh", ycenter="yh", xcorner="xq", ycorner="yq")
OTHC = dict(xcenter="i", ycenter="j", xcorner="ip", ycorner="jp")
DEFV = dict(u="uo", v="vo", dx="dxCu", dy="dyCv", area="areacello_bu")
OTHV = dict(u="ssu", v="ssv", dx="DX", dy="DY", area="A")


class Stag:
    """staggered grid: corners right of (non-symmetric) or around (symmetric) the centres"""

    def __init__(self, S, sym, names):
        self.S, self.symmetric, self.n = S, sym, names
        self.x, self.y = S.axis(names["xcenter"], id="nx", lo=2), S.axis(names["ycenter"], id="ny", lo=2)
        k = 1 if sym else 0
        self.xq, self.yq = S.axis_plus(self.x, names["xcorner"], k), S.axis_plus(self.y, names["ycorner"], k)
        self.c = {a.name: S.coord(a, id="c" + q) for q, a in (("x", self.x), ("y", self.y), ("xq", self.xq), ("yq", self.yq))}

    def at(self, f, i, n):
        """value at centre i, zero beyond either end"""
        S = self.S
        return S.ite(S.and_(i >= 0, i < n), lambda: f(i), S.c("0"))

    def pair(self, f, i, n):
        """the two centre values either side of corner i"""
        a, b = (i - 1, i) if self.symmetric else (i, i + 1)
        return self.at(f, a, n), self.at(f, b, n)


def vort(S, symmetric=False, names=None, vnames=None, lead="", chunks=None, drop=None, static=True):
    g = Stag(S, symmetric, names or DEFC)
    v = vnames or DEFV
    t, z = S.axis("time", id="t"), S.axis("z_l", id="z")
    L = {"": [], "t": [t], "tz": [t, z]}[lead]
    u, w = S.arr("uo", L + [g.y, g.xq], gen=(-2.0, 2.0)), S.arr("vo", L + [g.yq, g.x], gen=(-2.0, 2.0))
    dx, dy = S.arr("dxCu", [g.y, g.xq], gen=(10.0, 1e3)), S.arr("dyCv", [g.yq, g.x], gen=(10.0, 1e3))
    ar = S.arr("areacello_bu", [g.yq, g.xq], gen=(1e2, 1e6))
    cs = lambda *a: [g.c[k.name] for k in a]
    vs = {v["u"]: u.da(cs(g.y, g.xq), chunks=chunks), v["v"]: w.da(cs(g.yq, g.x), chunks=chunks), v["dx"]: dx.da(cs(g.y, g.xq)),
          v["dy"]: dy.da(cs(g.yq, g.x)), v["area"]: ar.da(cs(g.yq, g.xq))}
    if drop:
        vs.pop(v[drop])
    ds = S.dataset(vs)
    kw = {}
    if names:
        kw["coord_dict"] = dict(names)
    if vnames:
        kw["varname_map"] = dict(vnames)
    if symmetric:
        kw["symmetric"] = True
    if drop:
        return Case("momlevel.derived:calc_rel_vort", [ds], kw, expect=Raises("ValueError"))

    def fn(*ix):
        l, (j, i) = list(ix[:-2]), ix[-2:]
        v0, v1 = g.pair(lambda k: w(*l, j, k) * dy(j, k), i, g.x.n)
        u0, u1 = g.pair(lambda k: u(*l, k, i) * dx(k, i), j, g.y.n)
        return ((v1 - v0) - (u1 - u0)) / ar(j, i)

    return Case("momlevel.derived:calc_rel_vort", [ds], kw, expect=Arr(L + [g.yq, g.xq], fn, attrs={"units": "s-1"}, coords={k.name: g.c[k.name] for k in (g.xq, g.yq)}), atol=1e-12)


for _s in (False, True):
    _l = "symmetric" if _s else "non-symmetric"
    register("C19", f"calc_rel_vort[{_l}]", lambda S, s=_s: vort(S, s))
    register("C19", f"calc_rel_vort[{_l}, time]", lambda S, s=_s: vort(S, s, lead="t"))
    register("C19", f"calc_rel_vort[{_l}, time, depth]", lambda S, s=_s: vort(S, s, lead="tz"))
    register("C19", f"calc_rel_vort[{_l}, other coordinates]", lambda S, s=_s: vort(S, s, OTHC, lead="t"))
    register("C19", f"calc_rel_vort[{_l}, other variables]", lambda S, s=_s: vort(S, s, None, OTHV))
for _d in ("u", "v", "dx", "dy", "area"):
    register("C19", f"calc_rel_vort[no {_d}]", lambda S, d=_d: vort(S, drop=d))
    register("C19", f"calc_rel_vort[no {_d}, other variables]", lambda S, d=_d: vort(S, True, None, OTHV, drop=d))


def pv(S, symmetric=False, names=None, units=None, interp=True, grav=False, lead="tz"):
    g = Stag(S, symmetric, names or DEFC)
    t, z = S.axis("time", id="t"), S.axis("z_l", id="z")
    L = {"": [], "t": [t], "tz": [t, z], "z": [z]}[lead]
    ze, f = S.arr("zeta", L + [g.yq, g.xq], gen=(-1e-3, 1e-3)), S.arr("f", [g.yq, g.xq], gen=(-1e-3, 1e-3))
    cs = lambda *a: [g.c[k.name] for k in a]
    hd = [g.y, g.x] if interp else [g.yq, g.xq]
    N = S.arr("n2", L + hd, gen=(-1e-4, 1e-3))
    kw = {}
    if names:
        kw["coord_dict"] = dict(names)
    if symmetric:
        kw["symmetric"] = True
    if units is not None:
        kw["units"] = units
    if not interp:
        kw["interp_n2"] = False
    gr = S.c("9.8")
    if grav:
        gr = kw["gravity"] = S.scalar("gravity", gen=(1.0, 20.0) if S.flip(0.7) else (-20.0, -1.0))
    args = [ze.da(cs(g.yq, g.xq)), f.da(cs(g.yq, g.xq)), N.da(cs(*hd))]
    if units not in (None, "m", "cm"):
        return Case("momlevel.derived:calc_pv", args, kw, expect=Raises("ValueError"))

    def fn(*ix):
        l, (j, i) = list(ix[:-2]), ix[-2:]
        if interp:
            def row(jj):
                a, b = g.pair(lambda k: N(*l, jj, k), i, g.x.n)
                return (a + b) / 2.0

            a, b = g.pair(row, j, g.y.n)
            n2 = (a + b) / 2.0
        else:
            n2 = N(*l, j, i)
        r = (ze(*l, j, i) + f(j, i)) * n2 / gr
        return S.abs(r * S.c("1000000000000")) if units == "cm" else r

    return Case("momlevel.derived:calc_pv", args, kw, expect=Arr(L + [g.yq, g.xq], fn, attrs={"units": "10^14 cm-1 s-1" if units == "cm" else "m-1 s-1"},
                                                              coords={k.name: g.c[k.name] for k in (g.xq, g.yq)}), atol=1e-16 if units != "cm" else 1e-6)


for _s in (False, True):
    _l = "symmetric" if _s else "non-symmetric"
    register("C19", f"calc_pv[{_l}]", lambda S, s=_s: pv(S, s))
    register("C19", f"calc_pv[{_l}, cm]", lambda S, s=_s: pv(S, s, units="cm", lead="z"))
    register("C19", f"calc_pv[{_l}, m, gravity]", lambda S, s=_s: pv(S, s, units="m", grav=True, lead=""))
    register("C19", f"calc_pv[{_l}, other coordinates]", lambda S, s=_s: pv(S, s, OTHC, lead="t"))
    register("C19", f"calc_pv[{_l}, no interpolation]", lambda S, s=_s: pv(S, s, interp=False, grav=True))
    register("C19", f"calc_pv[{_l}, unknown units]", lambda S, s=_s: pv(S, s, units="km"))
    register("C19", f"calc_pv[{_l}, no interpolation, unknown units]", lambda S, s=_s: pv(S, s, interp=False, units="M"))


def coriolis(S, lay):
    ax = dict(zip("yx", (S.axis("yh"), S.axis("xh"))))
    dims = [ax[k] for k in lay]
    la = S.arr("lat", dims, gen=(-90.0, 90.0))
    cs = [S.coord(a, id="c" + a.name) for a in dims]
    return Case("momlevel.derived:calc_coriolis", [la.da(cs, name="geolat")],
                expect=Arr(dims, lambda *ix: S.c("4") * S.pi / S.c("86400") * S.sin(la(*ix) * S.pi / S.c("180")), name=None,
                           attrs={"units": "s-1", "standard_name": "coriolis_parameter"}, coords={c.name: c for c in cs}), atol=1e-18)


for _l in ("y", "yx", "xy"):
    register("C19", f"calc_coriolis[{_l}]", lambda S, l=_l: coriolis(S, l))
