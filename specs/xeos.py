"""Contracts of the labelled-array wrappers around the equations of state,
spiciness, and the inverse barometer (C03, C04)."""
from .base import Case, Arr, Raises, Obj, register, scenario
from .eos import EOS, TG, SG, PG, spice_poly


def grid4(S, t="time", z="z_l", y="yh", x="xh", lo=1):
    return S.axis(t, lo=lo), S.axis(z, lo=lo), S.axis(y, lo=lo), S.axis(x, lo=lo)


def pick(h, dims, ix):
    """value of handle h at the named position"""
    if not (hasattr(h, "elem") or hasattr(h, "data")) or not hasattr(h, "da"):
        return h
    pos = {a.name: i for a, i in zip(dims, ix)}
    return h(*[pos[a.name] for a in h.dims])


FUNCS = {
    "calc_rho": ("density", {"standard_name": "sea_water_density", "units": "kg m-3"}),
    "calc_alpha": ("alpha", {"units": "degC-1"}),
    "calc_beta": ("beta", {"units": "PSU-1"}),
}

LAYOUTS = {
    # per argument: string over t,z,y,x, or None for a scalar; result order not part of the contract
    "4d,4d,z": ("tzyx", "tzyx", "z"),
    "3d,3d,3d": ("zyx", "zyx", "zyx"),
    "4d,3d,z": ("tzyx", "zyx", "z"),
    "3d,4d,z": ("zyx", "tzyx", "z"),
    "2d,2d,scalar": ("yx", "yx", None),
    "transposed": ("xyz", "zyx", "z"),
    "1d,scalar S": ("z", None, "z"),
    "p varies in time": ("tyx", "tyx", "tyx"),
    "disjoint": ("y", "x", "z"),
}


def wrap_case(S, fname, layout, eos, kw=True, coords=True, names=("time", "z_l", "yh", "xh"), chunks=None, integer=False, own=False, wide=False):
    f, attrs = FUNCS[fname]
    spec = EOS[eos.lower()][f]
    ax = dict(zip("tzyx", grid4(S, *names)))
    cs = {k: S.coord(a) for k, a in ax.items() if k != "t"}
    hs, args, owns = [], [], []
    used = []
    for nm, lay, g in zip(("thetao", "so", "pres"), layout, (TG, SG, PG)):
        if wide:
            g = dict(thetao=(-1e4, 1e4), so=(-3e3, 3e3), pres=(-1e9, 1e9))[nm]
        if lay is None:
            h = S.scalar(nm, gen=g)
            args.append(h)
        else:
            h = S.arr(nm, [ax[k] for k in lay], gen=g, integer=integer and nm == "thetao")
            mine = [cs[k] for k in lay if k in cs] if coords else []
            if own:
                # every array brings a coordinate of its own; only one of them is labelled along x
                extra = S.arr(f"c_{nm}", [ax["y"], ax["x"]])
                extra.name = f"{nm}_where"
                owns.append(extra)
                mine = [c for c in mine if c is not cs["x"] or nm == "so"] + [extra]
            args.append(h.da(mine, attrs={"units": "?"}, name=nm, chunks=chunks))
            for k in lay:
                if k not in used:
                    used.append(k)
        hs.append(h)
    dims = [ax[k] for k in used]
    fn = lambda *ix: spec(S, *[pick(h, dims, ix) for h in hs])
    a = dict(attrs, comment=f"calculated with the {eos} equation of state")
    return Case(f"momlevel.derived:{fname}", args, dict(eos=eos) if kw else {},
                expect=Arr(dims, fn, attrs=a, coords={c.name: c for c in [cs[k] for k in used if k in cs] + owns} if coords else {}))


for _f in FUNCS:
    for _e in ("Wright", "linear"):
        for _n, _l in LAYOUTS.items():
            if _n == "disjoint" and _e == "linear":
                continue  # the linear equation does not depend on pressure
            register("C03", f"{_f}[{_e}; {_n}]", lambda S, f=_f, l=_l, e=_e: wrap_case(S, f, l, e))
    register("C03", f"{_f}[default eos]", lambda S, f=_f: wrap_case(S, f, ("tzyx", "tzyx", "z"), "Wright", kw=False))
    for _e in ("wright", "wRIGHT", "LINEAR", "lineaR"):
        register("C03", f"{_f}[{_e}]", lambda S, f=_f, e=_e: wrap_case(S, f, ("zyx", "zyx", "z"), e))
    register("C03", f"{_f}[Wright, any values]", lambda S, f=_f: wrap_case(S, f, ("zyx", "zyx", "z"), "Wright", wide=True))
    register("C03", f"{_f}[linear, any values]", lambda S, f=_f: wrap_case(S, f, ("zyx", "zyx", "z"), "linear", wide=True))
    register("C03", f"{_f}[WRIGHT upper case]", lambda S, f=_f: wrap_case(S, f, ("zyx", "zyx", "z"), "WRIGHT"))
    register("C03", f"{_f}[Linear capitalised]", lambda S, f=_f: wrap_case(S, f, ("zyx", "zyx", "z"), "Linear"))
    register("C03", f"{_f}[other dimension names, no coordinates]",
             lambda S, f=_f: wrap_case(S, f, ("zyx", "zyx", "z"), "Wright", coords=False, names=("t", "depth", "lat", "lon")))
    register("C03", f"{_f}[chunked]", lambda S, f=_f: wrap_case(S, f, ("tzyx", "tzyx", "z"), "Wright", chunks=True))
    register("C03", f"{_f}[coordinates differ]", lambda S, f=_f: wrap_case(S, f, ("zyx", "zyx", "zyx"), "Wright", own=True))
    register("C03", f"{_f}[chunked, linear]", lambda S, f=_f: wrap_case(S, f, ("zyx", "tzyx", "z"), "linear", chunks=True))
    register("C03", f"{_f}[integer temperature]", lambda S, f=_f: wrap_case(S, f, ("tzyx", "tzyx", "z"), "linear", integer=True))

    def _unk(S, f=_f, u="teos11"):
        z = S.axis("z_l")
        a, b, c = (S.arr(n, [z]).da() for n in ("thetao", "so", "pres"))
        return Case(f"momlevel.derived:{f}", [a, b, c], dict(eos=u), expect=Raises("ValueError"))

    for _u in ("teos11", "", "linear ", "wright97", "lin"):
        register("C03", f"{_f}[unknown eos {_u!r}]", lambda S, k=_unk, u=_u: k(S, u=u))


def _pdens(S, eos, level, kw=None, patm=None, pda=False):
    t, z, y, x = grid4(S)
    cs = [S.coord(z), S.coord(y), S.coord(x)]
    T, s = S.arr("thetao", [t, z, y, x], gen=TG), S.arr("so", [t, z, y, x], gen=SG)
    k = dict(kw or {})
    if level is not None:
        k["level"] = level = S.scalar("level", gen=(-100.0, 8000.0))
    p0 = S.c("101325")
    if pda:
        ph = S.arr("patm", [y, x], gen=(-1e4, 1.1e5))
        k["patm"] = ph.da(cs[1:])
    elif patm:
        k["patm"] = p0 = S.scalar("patm", gen=(-1e4, 1.1e5))
    lv = S.c("0") if level is None else level

    def fn(a, b, c, d):
        return EOS[eos.lower()]["density"](S, T(a, b, c, d), s(a, b, c, d), lv * 10000.0 + (ph(c, d) if pda else p0))

    out = Arr([t, z, y, x], fn, attrs={"standard_name": "sea_water_potential_density", "units": "kg m-3"}, coords={c.name: c for c in cs})
    exp = out if level is None else [(S.or_(level < 0.0, level > 7500.0), Raises("AssertionError")), (None, out)]
    return Case("momlevel.derived:calc_pdens", [T.da(cs), s.da(cs)], k, expect=exp)


register("C03", "calc_pdens[default]", lambda S: _pdens(S, "Wright", None))
register("C03", "calc_pdens[any level]", lambda S: _pdens(S, "Wright", 1))
register("C03", "calc_pdens[any level, patm]", lambda S: _pdens(S, "Wright", 1, patm=1))
register("C03", "calc_pdens[any level, patm field]", lambda S: _pdens(S, "Wright", 1, pda=True))
register("C03", "calc_pdens[LINEAR]", lambda S: _pdens(S, "linear", 1, dict(eos="LINEAR"), pda=True))
register("C03", "calc_pdens[unknown eos]", lambda S: Case("momlevel.derived:calc_pdens", [S.arr("thetao", [S.axis("z_l")]).da(), S.arr("so", [S.axis("z_l")]).da()], dict(eos="x"), expect=Raises("ValueError")))
register("C03", "calc_pdens[linear]", lambda S: _pdens(S, "linear", 1, dict(eos="linear")))


def _eosfun(name, fn, tgt):
    return lambda S: Case("momlevel.util:eos_func_from_str", [name] + ([fn] if fn else []), expect=Obj(tgt))


for _n, _m in (("Wright", "wright"), ("wright", "wright"), ("LINEAR", "linear"), ("Linear", "linear")):
    for _f in (None, "density", "drho_dtemp", "drho_dsal", "alpha", "beta"):
        register("C03", f"eos_func_from_str[{_n},{_f}]", _eosfun(_n, _f, f"momlevel.eos.{_m}:{_f or 'density'}"))
for _n in ("jmd95", "lin", "wrigh", "wright97", "Wright ", "", "alpha", "density", "w"):
    register("C03", f"eos_func_from_str[unknown {_n!r}]", lambda S, n=_n: Case("momlevel.util:eos_func_from_str", [n], expect=Raises("ValueError")))
register("C03", "eos_func_from_str[not a string]", lambda S: Case("momlevel.util:eos_func_from_str", [3], expect=Raises("AssertionError")))


def _spice(S, la, lb, names=("time", "z_l", "yh", "xh")):
    ax = dict(zip("tzyx", grid4(S, *names)))
    cs = {k: S.coord(a) for k, a in ax.items() if k != "t"}
    T, s = S.arr("thetao", [ax[k] for k in la], gen=TG), S.arr("so", [ax[k] for k in lb], gen=SG)
    used = [k for k in "tzyx" if k in la or k in lb]
    dims = [ax[k] for k in used]
    return Case("momlevel.derived:calc_spice", [T.da([cs[k] for k in la if k in cs]), s.da([cs[k] for k in lb if k in cs])], atol=1e-9,
                expect=Arr(dims, lambda *ix: spice_poly(S, pick(T, dims, ix), pick(s, dims, ix)), attrs={"units": "1"},
                           coords={cs[k].name: cs[k] for k in used if k in cs}))


register("C20", "calc_spice[4d]", lambda S: _spice(S, "tzyx", "tzyx"))
register("C20", "calc_spice[transposed]", lambda S: _spice(S, "xyz", "zyx"))
register("C20", "calc_spice[2d]", lambda S: _spice(S, "yx", "yx"))


# ---- inverse barometer
def _ib(S, eos, la, lb, lp, grav=False, kw=True, chunks=None):
    ax = dict(zip("tzyx", grid4(S)))
    cs = {k: S.coord(a) for k, a in ax.items() if k != "t"}
    hs = [S.arr(n, [ax[k] for k in l], gen=g) for n, l, g in (("tos", la, TG), ("sos", lb, SG), ("pso", lp, (9e4, 1.1e5)))]
    das = [h.da([cs[k] for k in l if k in cs], chunks=chunks) for h, l in zip(hs, (la, lb, lp))]
    used = [k for k in "tzyx" if k in la or k in lb or k in lp]
    dims = [ax[k] for k in used]
    k = dict(equation_of_state=eos) if kw else {}
    g = S.c("9.8")
    if grav:
        g = k["gravity"] = S.scalar("gravity", gen=(1.0, 20.0) if S.flip(0.8) else (-20.0, -1.0))

    def fn(*ix):
        T, s, p = (pick(h, dims, ix) for h in hs)
        return -p / (EOS[eos.lower()]["density"](S, T, s, p) * g)

    return Case("momlevel.dynamic:inverse_barometer", das, k,
                expect=Arr(dims, fn, name="ibh", attrs={"units": "m", "long_name": "Inverse Barometer Height"}, coords={cs[q].name: cs[q] for q in used if q in cs}))


register("C04", "inverse_barometer[default]", lambda S: _ib(S, "Wright", "tyx", "tyx", "tyx", kw=False))
register("C04", "inverse_barometer[gravity]", lambda S: _ib(S, "Wright", "tyx", "tyx", "tyx", grav=True))
register("C04", "inverse_barometer[linear]", lambda S: _ib(S, "Linear", "tyx", "tyx", "tyx", grav=True))
register("C04", "inverse_barometer[static T,S]", lambda S: _ib(S, "Wright", "yx", "yx", "tyx"))
register("C04", "inverse_barometer[transposed]", lambda S: _ib(S, "Wright", "xyt", "tyx", "tyx"))
register("C04", "inverse_barometer[1d]", lambda S: _ib(S, "wright", "x", "x", "x"))
register("C04", "inverse_barometer[chunked]", lambda S: _ib(S, "wright", "tyx", "tyx", "tyx", chunks=True))


def _ib_unk(S):
    x = S.axis("xh")
    a, b, c = (S.arr(n, [x]).da() for n in ("tos", "sos", "pso"))
    return Case("momlevel.dynamic:inverse_barometer", [a, b, c], dict(equation_of_state="none"), expect=Raises("ValueError"))


register("C04", "inverse_barometer[unknown eos]", _ib_unk)
