"""Contracts for every string argument: names of equations of state in any casing, and any
string that is none of the documented options."""
from .base import Case, Raises, register
from . import sealevel, strat, times, trends, xeos

EOSN = ("wright", "linear")

for _w in EOSN:
    for _f in ("calc_rho", "calc_alpha", "calc_beta"):
        register("C03", f"{_f}[{_w} in any casing]", lambda S, f=_f, w=_w: xeos.wrap_case(S, f, ("zyx", "zyx", "z"), S.casing("eos", w)), trials=0.5)
    register("C03", f"calc_pdens[{_w} in any casing]", lambda S, w=_w: xeos._pdens(S, w, 1, dict(eos=S.casing("eos", w))), trials=0.5)
    register("C04", f"inverse_barometer[{_w} in any casing]", lambda S, w=_w: xeos._ib(S, S.casing("eos", w), "tyx", "tyx", "tyx"), trials=0.5)
    register("C18", f"calc_n2[{_w} in any casing]", lambda S, w=_w: strat.n2_case(S, "zyx", eos=S.casing("eos", w)), trials=0.5)
    register("C18", f"calc_stability_angle[{_w} in any casing]", lambda S, w=_w: strat.turner(S, S.casing("eos", w), lay="zyx"), trials=0.5)


def unk(S):
    return S.unknown("eos", EOSN, fold=True)


def eos_unknown(S, fn, names, dims="zyx"):
    ax = [S.axis(d) for d in dict(zyx=("z_l", "yh", "xh"), yx=("yh", "xh"))[dims]]
    cs = [S.coord(a) for a in ax]
    args = [S.arr(n, ax).da(cs) for n in names]
    return Case(fn, args, {"equation_of_state" if "barometer" in fn else "eos": unk(S)}, expect=Raises("ValueError"))


D = "momlevel.derived:"
for _f in ("calc_rho", "calc_alpha", "calc_beta"):
    register("C03", f"{_f}[any unknown eos]", lambda S, f=_f: eos_unknown(S, D + f, ("thetao", "so", "pres")))
register("C03", "calc_pdens[any unknown eos]", lambda S: eos_unknown(S, D + "calc_pdens", ("thetao", "so")))
register("C03", "eos_func_from_str[any unknown name]", lambda S: Case("momlevel.util:eos_func_from_str", [unk(S)], expect=Raises("ValueError")), trials=3)
register("C04", "inverse_barometer[any unknown eos]", lambda S: eos_unknown(S, "momlevel.dynamic:inverse_barometer", ("tos", "sos", "pso"), "yx"))


def ref_unknown(S):
    d = sealevel.Sea(S)
    return Case("momlevel.reference:setup_reference_state", [d.ds], dict(eos=unk(S)), expect=Raises("ValueError"))


register("C08", "setup_reference_state[any unknown eos]", ref_unknown)


def steric_unknown(S, dm, what):
    d = sealevel.Sea(S)
    kw = dict(domain=dm, strict=False)
    if what == "eos":
        kw["equation_of_state"] = unk(S)
    else:
        kw["variant"] = S.unknown("variant", ("steric", "thermosteric", "halosteric"))
    return Case("momlevel.steric:steric", [d.ds], kw, expect=Raises("ValueError"))


for _d, _p in (("local", "C06"), ("global", "C07")):
    for _k in ("eos", "variant"):
        register(_p, f"steric[{_d}, any unknown {_k}]", lambda S, d=_d, k=_k: steric_unknown(S, d, k))

for _k in ("da", "ds"):
    register("C12", f"annual_cycle[any unknown statistic, {_k}]", lambda S, k=_k: times.cycle(S, S.unknown("func", ("mean", "min", "max", "std")), kind=k, lay="tx", bad=True))
UNITS = ("ns", "s", "min", "hr", "day", "mon", "yr")
T = "momlevel.trend:"
for _u in UNITS:
    register("C13", f"time_conversion_factor[any unknown source, {_u}]", lambda S, u=_u: Case(T + "time_conversion_factor", [S.unknown("src", UNITS), u], expect=Raises("AssertionError")), trials=0.5)
    register("C13", f"time_conversion_factor[{_u}, any unknown destination]", lambda S, u=_u: Case(T + "time_conversion_factor", [u, S.unknown("dst", UNITS)], expect=Raises("AssertionError")), trials=0.5)
register("C13", "calc_linear_trend[any unknown time unit]", lambda S: trends.trend(S, tu=S.unknown("unit", UNITS), bad=True, lay="ty"))
for _k in ("da", "ds"):
    register("C14", f"linear_detrend[any unknown mode, {_k}]", lambda S, k=_k: trends.detrend(S, mode=S.unknown("mode", ("remove", "correct")), lay="ty", err="ValueError", kind=k))
for _c in (None, True):
    register("C15", f"deseason[any unknown format{', chunked' if _c else ''}]", lambda S, c=_c: trends.deseas(S, S.unknown("fmt", ("residuals", "model", "coeff")), lay="ty", chunks=c, err="ValueError"))
for _s in (False, True):
    for _i in (True, False):
        register("C19", f"calc_pv[{'symmetric' if _s else 'non-symmetric'}{'' if _i else ', no interpolation'}, any unknown units]",
                 lambda S, s=_s, i=_i: strat.pv(S, s, units=S.unknown("units", ("m", "cm")), interp=i, lead="t"))
