"""The same contracts for other data types and time axes: whole-number (integer-typed) data: files that store packed or
counted values give integer arrays, and the results are the same real numbers."""
from .base import ints, lazy, register, single
from . import eos, gauges, grids, sealevel, strat, times, trends, xeos

I = "integer data"
for _u in ("yr", "day"):
    register("C13", f"calc_linear_trend[per {_u}, {I}]", ints(lambda S, u=_u: trends.trend(S, tu=u, lay="ty"), "v"), trials=0.5)
register("C13", f"calc_linear_trend[other dimension, {I}]", ints(lambda S: trends.trend(S, dim="z_l", time=False, lay="yt"), "v"), trials=0.5)
for _m in (None, "correct"):
    register("C14", f"linear_detrend[{_m}, {I}]", ints(lambda S, m=_m: trends.detrend(S, mode=m, lay="ty"), "v"), trials=0.5)
    register("C14", f"linear_detrend[{_m}, dataset, {I}]", ints(lambda S, m=_m: trends.detrend(S, mode=m, kind="ds", lay="tx"), "v", "w"), trials=0.5)
for _n, _r in (("coefficients", False), ("model", True)):
    register("C15", f"seasonal_model[{_n}, {I}]", ints(lambda S, r=_r: trends.smodel(S, ret=r, lay="ty"), "v"), trials=0.5)
for _o in ("residuals", "model", "coeff"):
    register("C15", f"deseason[{_o}, {I}]", ints(lambda S, o=_o: trends.deseas(S, o, lay="ty"), "v"), trials=0.5)
register("C11", f"annual_average[{I}]", ints(lambda S: times.annual(S, "standard"), "v"), trials=0.5)
register("C11", f"annual_average[dataset, {I}]", ints(lambda S: times.annual(S, kind="ds"), "v", "w"), trials=0.5)
register("C12", f"monthly_average[{I}]", ints(lambda S: times.monthly(S, "standard", lay="tx"), "v"), trials=0.5)
register("C12", f"monthly_average[dataset, {I}]", ints(lambda S: times.monthly(S, kind="ds", lay="xt"), "v", "w"), trials=0.5)
for _f in (None, "min", "max", "std"):
    register("C12", f"annual_cycle[{_f}, {I}]", ints(lambda S, f=_f: times.cycle(S, f, lay="tx"), "v"), trials=0.5)
for _k in (dict(), dict(top=True, bottom=True), dict(fraction=True, bottom=True)):
    register("C05", f"calc_dz[{', '.join(_k) or 'default'}, integer bathymetry]", ints(lambda S, k=_k: sealevel.dz_case(S, **k), "depth"), trials=0.5)
register("C07", f"calc_volo[{I}]", ints(lambda S: sealevel._volo(S, 4), "volcello"), trials=0.5)
register("C07", f"calc_masso[{I}]", ints(lambda S: sealevel._masso(S, "tzyx", "zyx"), "volcello", "rho"), trials=0.5)
register("C18", f"calc_n2[{I}]", ints(lambda S: strat.n2_case(S, eos="linear"), "thetao", "so"), trials=0.5)
register("C18", f"calc_stability_angle[{I}]", ints(lambda S: strat.turner(S, "linear"), "thetao", "so", "pres"), trials=0.5)
register("C18", f"calc_rossby_rd[{I}]", ints(lambda S: strat.rossby(S), "ws"), trials=0.5)
register("C19", f"calc_rel_vort[{I}]", ints(lambda S: strat.vort(S, lead="t"), "uo", "vo", "dxCu", "dyCv", "areacello_bu"), trials=0.5)
register("C19", f"calc_rel_vort[symmetric, {I}]", ints(lambda S: strat.vort(S, True), "uo", "vo"), trials=0.5)
register("C19", f"calc_coriolis[{I}]", ints(lambda S: strat.coriolis(S, "yx"), "lat"), trials=0.5)

# numpy datetime axes: the same trends as on the equal axis of cftime dates
for _u in (None,) + trends.ALL:
    register("C13", f"calc_linear_trend[numpy dates, per {_u}]", lambda S, u=_u: trends.trend(S, tu=u, cal="numpy", lay="ty", gen="any"), trials=0.5)
    if _u:
        register("C13", f"broadcast_trend[numpy dates, m {_u}-1]", lambda S, u=_u: trends.bcast(S, units=f"m {u}-1", cal="numpy", lay="y"), trials=0.5)
register("C13", "calc_linear_trend[numpy dates, rate units, time last]", lambda S: trends.trend(S, tu="yr", cal="numpy", lay="yxt", units="m s-1"))
register("C13", "calc_linear_trend[numpy dates, any unknown time unit]", lambda S: trends.trend(S, tu=S.unknown("unit", trends.ALL), bad=True, lay="ty", cal="numpy"))
register("C13", "broadcast_trend[numpy dates, no units, relative to start]", lambda S: trends.bcast(S, units=None, cal="numpy", zero=True))
register("C13", "broadcast_trend[numpy dates, two rates in units]", lambda S: trends.bcast(S, units="kg s-1 yr-1", err="ValueError", cal="numpy"))
for _m in ("remove", "correct"):
    register("C14", f"linear_detrend[numpy dates, {_m}]", lambda S, m=_m: trends.detrend(S, mode=m, cal="numpy", units="m s-1", lay="tyx"))
    register("C14", f"linear_detrend[numpy dates, {_m}, dataset]", lambda S, m=_m: trends.detrend(S, mode=m, cal="numpy", kind="ds", lay="yt"))
for _r in (True, None):
    register("C15", f"seasonal_model[numpy dates, {'both' if _r else 'residuals'}]", lambda S, r=_r: trends.smodel(S, ret=r, lay="ty", cal="numpy"))

# single-precision data, as model output is stored
F = "single precision"
for _m, _sp in eos.RAW.items():
    for _f in ("density", "alpha", "beta") + (("drho_dtemp", "drho_dsal") if _m == "wright" else ()):
        register("C01" if _m == "wright" else "C02", f"{_m}.{_f}[{F}]", single(lambda S, m=_m, f=_f, sp=_sp[_f]: eos.nd_case(S, m, f, ((1, 0),) * 3, sp)), trials=0.5)
for _f in ("calc_rho", "calc_alpha", "calc_beta"):
    for _e in ("Wright", "linear"):
        register("C03", f"{_f}[{_e}, {F}]", single(lambda S, f=_f, e=_e: xeos.wrap_case(S, f, ("tzyx", "tzyx", "z"), e), "thetao", "so"), trials=0.5)
    register("C03", f"{_f}[chunked, {F}]", single(lambda S, f=_f: xeos.wrap_case(S, f, ("zyx", "zyx", "zyx"), "Wright", chunks=True)), trials=0.5)
register("C03", f"calc_pdens[{F}]", single(lambda S: xeos._pdens(S, "Wright", 1)), trials=0.5)
register("C04", f"inverse_barometer[{F}]", single(lambda S: xeos._ib(S, "Wright", "tyx", "tyx", "tyx", kw=False)), trials=0.5)
register("C05", f"calc_dz[{F}]", single(lambda S: sealevel.dz_case(S, bottom=True), "depth"), trials=0.5)
register("C05", f"calc_dz[fraction, {F}]", single(lambda S: sealevel.dz_case(S, fraction=True), "depth"), trials=0.5)
register("C07", f"calc_volo[{F}]", single(lambda S: sealevel._volo(S, 3)), trials=0.5)
register("C07", f"calc_masso[{F}]", single(lambda S: sealevel._masso(S, "tzyx", "zyx")), trials=0.5)
for _v in ("steric", "thermosteric", "halosteric"):
    register("C06", f"{_v}[local, {F}]", single(lambda S, v=_v: sealevel.steric_case(S, "local", v), "thetao", "so", "volcello"), weight=5, trials=0.2)
    register("C07", f"{_v}[global, {F}]", single(lambda S, v=_v: sealevel.steric_case(S, "global", v), "thetao", "so", "volcello"), weight=5, trials=0.2)
register("C11", f"annual_average[{F}]", single(lambda S: times.annual(S, "standard")), trials=0.5)
register("C11", f"annual_average[dataset, {F}]", single(lambda S: times.annual(S, kind="ds"), "v"), trials=0.5)
register("C12", f"monthly_average[{F}]", single(lambda S: times.monthly(S, "standard", lay="tx")), trials=0.5)
register("C12", f"monthly_average[dataset, {F}]", single(lambda S: times.monthly(S, kind="ds", lay="xt"), "v"), trials=0.5)
for _f in (None, "min", "max", "std"):
    register("C12", f"annual_cycle[{_f}, {F}]", single(lambda S, f=_f: times.cycle(S, f, lay="tx")), trials=0.5)
register("C13", f"calc_linear_trend[per yr, {F}]", single(lambda S: trends.trend(S, tu="yr", lay="ty")), trials=0.5)
register("C13", f"calc_linear_trend[other dimension, {F}]", single(lambda S: trends.trend(S, dim="z_l", time=False, lay="yt")), trials=0.5)
register("C13", f"broadcast_trend[{F}]", single(lambda S: trends.bcast(S, units="m yr-1", lay="y")), trials=0.5)
for _m in ("remove", "correct"):
    register("C14", f"linear_detrend[{_m}, {F}]", single(lambda S, m=_m: trends.detrend(S, mode=m, lay="ty")), trials=0.5)
    register("C14", f"linear_detrend[{_m}, dataset, {F}]", single(lambda S, m=_m: trends.detrend(S, mode=m, kind="ds", lay="tx"), "v"), trials=0.5)
register("C15", f"seasonal_model[{F}]", single(lambda S: trends.smodel(S, ret=True, lay="ty")), trials=0.5)
for _o in ("residuals", "model", "coeff"):
    register("C15", f"deseason[{_o}, {F}]", single(lambda S, o=_o: trends.deseas(S, o, lay="ty")), trials=0.5)
register("C18", f"calc_n2[{F}]", single(lambda S: strat.n2_case(S, "zyx")), trials=0.5)
register("C18", f"adjust_negative_n2[{F}]", single(lambda S: strat.adj_case(S)), trials=0.5)
register("C18", f"calc_wave_speed[{F}]", single(lambda S: strat.wave_case(S)), trials=0.5)
register("C18", f"calc_stability_angle[{F}]", single(lambda S: strat.turner(S, "linear")), runtime=False)
register("C18", f"calc_rossby_rd[{F}]", single(lambda S: strat.rossby(S)), trials=0.5)
for _s in (False, True):
    register("C19", f"calc_rel_vort[{'symmetric, ' * _s}{F}]", single(lambda S, s=_s: strat.vort(S, s, lead="t")), trials=0.5)
    register("C19", f"calc_pv[{'symmetric, ' * _s}{F}]", single(lambda S, s=_s: strat.pv(S, s)), trials=0.5)
register("C19", f"calc_coriolis[{F}]", single(lambda S: strat.coriolis(S, "yx")), trials=0.5)
register("C20", f"spice[{F}]", single(eos.spice_case((1, 0), (1, 0))), trials=0.5)
register("C20", f"calc_spice[{F}]", single(lambda S: xeos._spice(S, "tzyx", "tzyx")), trials=0.5)

# chunked (dask) input wherever a function takes labelled arrays
L = "all chunked"
register("C03", f"calc_pdens[{L}]", lazy(lambda S: xeos._pdens(S, "Wright", 1)), trials=0.5)
register("C05", f"calc_dz[fraction, {L}]", lazy(lambda S: sealevel.dz_case(S, fraction=True, bottom=True)), trials=0.5)
for _dm, _p in (("local", "C06"), ("global", "C07")):
    for _v in ("steric", "thermosteric", "halosteric"):
        register(_p, f"{_v}[{_dm}, {L}]", lazy(lambda S, d=_dm, v=_v: sealevel.steric_case(S, d, v)), weight=5, trials=0.2)
    register("C09", f"steric[{_dm}, reference area, {L}]", lazy(lambda S, d=_dm: sealevel.steric_case(S, d, ref=True)), weight=5, trials=0.2)
register("C08", f"setup_reference_state[{L}]", lazy(lambda S: sealevel.ref_case(S, kwe=False)), weight=3, trials=0.5)
register("C08", f"setup_reference_state[{F}]", single(lambda S: sealevel.ref_case(S, kwe=False), "thetao", "so", "volcello"), weight=3, trials=0.5)
register("C07", f"calc_volo[{L}]", lazy(lambda S: sealevel._volo(S, 3)), trials=0.5)
register("C07", f"calc_volo[4d, {L}]", lazy(lambda S: sealevel._volo(S, 4)), trials=0.5)
for _h in ("", "ref", "tol"):
    register("C09", f"validate_areacello[{_h or 'default'}, {L}]", lazy(lambda S, h=_h: sealevel._area(S, h)), trials=0.5)
for _st in (None, False):
    for _r in (False, True):
        register("C09", f"{'reference' if _r else 'input'}[complete, {L}{', not strict' if _st is False else ''}]", lazy(lambda S, r=_r, st=_st: sealevel.gate(S, r, strict=st)), trials=0.3)
        register("C09", f"{'reference' if _r else 'input'}[thetao of another rank, {L}{', not strict' if _st is False else ''}]",
                 lazy(lambda S, r=_r, st=_st: sealevel.gate(S, r, strict=st, rank={"thetao": "tzyx" if r else "zyx"})), trials=0.3)
register("C18", f"calc_wave_speed[{L}]", lazy(lambda S: strat.wave_case(S)), trials=0.5)
register("C18", f"adjust_negative_n2[{L}]", lazy(lambda S: strat.adj_case(S)), trials=0.5)
register("C18", f"calc_stability_angle[{L}]", lazy(lambda S: strat.turner(S, "linear"), "z_l"), trials=0.5)
register("C18", f"calc_rossby_rd[{L}]", lazy(lambda S: strat.rossby(S)), trials=0.5)
register("C18", f"calc_n2[adjusted, {L}]", lazy(lambda S: strat.n2_case(S, "zyx", adjust=True), "z_l"), trials=0.5)
for _s in (False, True):
    register("C19", f"calc_rel_vort[{'symmetric, ' * _s}{L}]", lazy(lambda S, s=_s: strat.vort(S, s, lead="t"), "xh", "yh", "xq", "yq"), trials=0.5)
    register("C19", f"calc_pv[{'symmetric, ' * _s}{L}]", lazy(lambda S, s=_s: strat.pv(S, s), "xh", "yh", "xq", "yq"), trials=0.5)
register("C19", f"calc_coriolis[{L}]", lazy(lambda S: strat.coriolis(S, "yx")), trials=0.5)
register("C20", f"calc_spice[{L}]", lazy(lambda S: xeos._spice(S, "tzyx", "tzyx")), trials=0.5)
register("C21", f"standard_grid_cell_area[DataArray, {L}]", lazy(lambda S: grids.area(S)), trials=0.5)
register("C11", f"annual_average[dataset, {L}]", lazy(lambda S: times.annual(S, kind="ds")), trials=0.5)
register("C12", f"monthly_average[dataset, {L}]", lazy(lambda S: times.monthly(S, kind="ds", lay="xt")), trials=0.5)
for _f in ("mean", "std"):
    register("C12", f"annual_cycle[{_f}, {L}]", lazy(lambda S, f=_f: times.cycle(S, f, lay="tx")), trials=0.5)
for _u in (None, "yr"):
    register("C13", f"calc_linear_trend[per {_u}, {L}]", lazy(lambda S, u=_u: trends.trend(S, tu=u, lay="ty")), trials=0.5)
register("C13", f"broadcast_trend[{L}]", lazy(lambda S: trends.bcast(S, units="m yr-1", lay="y")), trials=0.5)
for _m in ("remove", "correct"):
    register("C14", f"linear_detrend[{_m}, dataset, {L}]", lazy(lambda S, m=_m: trends.detrend(S, mode=m, kind="ds", lay="tx")), trials=0.5)
for _k, _kw in (("threshold", dict(threshold=True)), ("wet mask", dict(mask=True)), ("1-d coordinates by name", dict(layout="1d"))):
    register("C17", f"extract_tidegauge[{_k}, {L}]", lazy(gauges.gauges(**_kw)), trials=0.5)
