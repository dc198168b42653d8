# ---- seeds: id, property, file, old, new, needs, breaks, demo
GRID = '''
def dset(nt=2, nz=3, ny=2, nx=2, seed=0):
    r = np.random.default_rng(seed)
    c = dict(time=np.arange(nt), z_l=np.array([5., 15., 30.])[:nz], yh=np.arange(ny) * 1., xh=np.arange(nx) * 1.)
    d = ("time", "z_l", "yh", "xh")
    ds = xr.Dataset(dict(thetao=(d, r.uniform(1, 25, (nt, nz, ny, nx))), so=(d, r.uniform(30, 37, (nt, nz, ny, nx))),
        volcello=(d, r.uniform(1e3, 2e3, (nt, nz, ny, nx))), areacello=(d[2:], np.full((ny, nx), 3.6111092e14 / ny / nx)),
        deptho=(d[2:], np.full((ny, nx), 40.)), z_i=(("z_i",), np.array([0., 10., 20., 40.])[: nz + 1])), coords=c)
    return ds.assign_coords(z_i=ds.z_i)
'''
seed("s01-cavity-mask", "C06", "steric.py", "result[variant] = sealevel.where(reference.volcello.isel({zcoord: 0}).notnull())",
     "result[variant] = sealevel.where(reference.volcello.notnull().any(zcoord))",
     "a column whose surface cell is missing while deeper cells are present (an ice-shelf cavity)", "columns missing at the surface are no longer missing in the local sea level", GRID + '''
ds = dset()
ds["volcello"][:, 0, 0, 0] = np.nan
res, _ = st.steric(ds)
check(np.isnan(res.steric.values[:, 0, 0]).all() and not np.isnan(res.steric.values[:, 1, 1]).any())
''')
seed("s02-ref-volume-time", "C08", "reference.py", 'dset["volcello"].isel({tcoord: time_index}).squeeze().reset_coords(drop=True)',
     'dset["volcello"].isel({tcoord: 0}).squeeze().reset_coords(drop=True)',
     "a reference at a time index other than 0 and a cell volume that varies in time", "the reference volume belongs to another time level than the temperature and salinity", GRID + '''
ds = dset(nt=3)
ref = reference.setup_reference_state(ds, time_index=2)
check(np.allclose(ref.volcello.values, ds.volcello.values[2]))
''')
seed("s03-annual-missing", "C11", "util.py", 'groups[grp].weighted(groups[grp][tcoord].dt.days_in_month).mean(tcoord)',
     '(groups[grp] * groups[grp][tcoord].dt.days_in_month).sum(tcoord, min_count=1, keep_attrs=True)\n            / groups[grp][tcoord].dt.days_in_month.sum()',
     "a missing month in a series", "missing months are counted as zeros with their full weight", '''
t = xr.cftime_range("2001-01-01", periods=12, freq="MS", calendar="noleap")
v = np.ones(12); v[3] = np.nan
a = util.annual_average(xr.DataArray(v, dims="time", coords={"time": t}, name="v"))
check(np.allclose(a.values, 1.0), a.values)
''')
seed("s04-area-bounds", "C07", "steric.py", 'reference_height = reference["volo"] / reference["areacello"].sum()',
     'reference_height = reference["volo"] / (\n            reference["areacello"].mean() * reference["areacello"].size\n        )',
     "an area field with missing (land) cells", "the reference height counts land cells as ocean area of average size", GRID + '''
ds = dset()
ds["areacello"][0, 0] = np.nan
ds["areacello"] = ds.areacello * 4 / 3
res, ref = st.steric(ds, domain="global")
check(np.allclose(res.reference_height, ref.volo / np.nansum(ds.areacello.values), rtol=1e-6, atol=0))
''')
seed("s05-masso-time", "C10", "steric.py", 'masso = calc_masso(rho, reference["volcello"], tcoord=tcoord)', 'masso = calc_masso(rho, reference["volcello"])',
     "a global calculation on a dataset whose time dimension is not called time", "the current mass is summed over all times and the global result loses its time dimension", GRID + '''
ds = dset()
a, _ = st.steric(ds, domain="global")
b, _ = st.steric(ds.rename(time="t"), domain="global", coord_names={"t": "t"})
check(b.steric.dims == ("t",) and np.allclose(a.steric.values, b.steric.values))
''')
seed("s06-dz-shallow", "C05", "derived.py", "    # calculate partial cell based on bottom boundary\n    part = depth - ztop\n", "    # calculate partial cell based on bottom boundary\n    part = depth - ztop\n    part = xr.where(part < 0.005 * dz_field, 0.0, part)\n",
     "a sea floor that cuts less than 0.5 % into a cell", "thin partial bottom cells are given zero thickness", '''
zl = xr.DataArray([5., 15.], dims="z_l", coords={"z_l": [5., 15.]}); zi = xr.DataArray([0., 10., 20.], dims="z_i", coords={"z_i": [0., 10., 20.]})
d = xr.DataArray([[10.03, 30.]], dims=("yh", "xh"))
dz = derived.calc_dz(zl, zi, d).transpose("z_l", "yh", "xh").values
check(np.allclose(dz[:, 0, 0], [10., .03]) and np.allclose(dz[:, 0, 1], [10., 10.]), dz)
''')
seed("s07-drho-dsal", "C01", "eos/wright.py", "lam * (B4 + B5 * T) - (p + p0) * ((p + p0) * A2 + (C4 + C5 * T))",
     "lam * (B4 + B5 * T) - (p + p0) * ((p + p0) * A2 + (C4 + C5 * T * (T > -1.9)))",
     "a temperature at or below -1.9 degC", "the salinity derivative is not the derivative of the density in the coldest water", '''
from momlevel.eos import wright
h = 1e-3
fd = (wright.density(-2.0, 34.0 + h, 2e7) - wright.density(-2.0, 34.0 - h, 2e7)) / (2 * h)
check(abs(wright.drho_dsal(-2.0, 34.0, 2e7) - fd) < 1e-6 * abs(fd), (wright.drho_dsal(-2.0, 34.0, 2e7), fd))
''')
seed("s08-linear-rhoref", "C02", "eos/linear.py", "rho = RHO_T0_S0 if rho_ref is None else (RHO_T0_S0 - rho_ref)",
     "rho = (RHO_T0_S0 - rho_ref) if rho_ref is not None and rho_ref > 0.0 else RHO_T0_S0",
     "a negative reference density offset", "the density is not relative to the given reference density", '''
from momlevel.eos import linear
check(abs(linear.density(10.0, 35.0, None, rho_ref=-5.0) - 1031.0) < 1e-9)
check(abs(linear.density(10.0, 35.0, None, rho_ref=1000.0) - 26.0) < 1e-9)
''')
seed("s09-pdens-level", "C03", "derived.py", "rhopot = calc_rho(thetao, so, (level * 1.0e4) + patm, eos=eos)",
     "rhopot = calc_rho(thetao, so, (level * 1.0e4) + (patm if level else 101325), eos=eos)",
     "a reference level of zero together with a non-default surface pressure", "the surface pressure given by the caller is ignored at the surface", '''
t = xr.DataArray([5.0, 20.0], dims="x"); s = xr.DataArray([34.0, 36.0], dims="x")
a = derived.calc_pdens(t, s, level=0.0, patm=0.0).values
check(np.allclose(a, [momlevel.eos.wright.density(5.0, 34.0, 0.0), momlevel.eos.wright.density(20.0, 36.0, 0.0)], rtol=1e-10, atol=0), a)
''')
seed("s10-ibh-land", "C04", "dynamic.py", "rho_conv = calc_rho(tos, sos, pso, eos=equation_of_state)",
     "rho_conv = calc_rho(tos, sos, pso, eos=equation_of_state).fillna(1035.0)",
     "a point where the temperature or salinity is missing and the pressure is not", "points over land are given a height", '''
t = xr.DataArray([10.0, np.nan], dims="x"); s = xr.DataArray([35.0, np.nan], dims="x"); p = xr.DataArray([1e5, 1e5], dims="x")
a = momlevel.inverse_barometer(t, s, p).values
check(np.isnan(a[1]) and not np.isnan(a[0]), a)
''')
seed("s11-area-tolerance", "C09", "util.py", "result = bool(np.abs(error) < tolerance)", "result = bool(error < tolerance)",
     "an ocean area that is too small", "a dataset with far too little ocean area is accepted", '''
a = xr.DataArray(np.full((2, 2), 3.6111092e14 / 8), dims=("yh", "xh"))
check(not util.validate_areacello(a)); check(util.validate_areacello(2 * a))
''')
seed("s12-monthly-order", "C12", "util.py", '''        _ds = groups[grp].groupby(f"{tcoord}.month").mean(tcoord)
''', '''        _ds = groups[grp].groupby(f"{tcoord}.month").mean(tcoord, skipna=False)
''', "a missing daily sample", "a month with one missing sample is missing", '''
t = xr.cftime_range("2001-01-01", periods=365, freq="D", calendar="noleap")
v = np.ones(365); v[40] = np.nan
a = util.monthly_average(xr.DataArray(v, dims="time", coords={"time": t}, name="v"))
check(np.allclose(a.values, 1.0), a.values)
''')
seed("s13-trend-missing", "C13", "trend.py", "ds_poly = arr.polyfit(dim, 1)", "ds_poly = arr.polyfit(dim, 1, skipna=False)",
     "a series with a missing sample", "the trend of a series with a missing sample is missing", '''
v = np.arange(6.0) * 2; v[2] = np.nan
a = xr.DataArray(v, dims="x", coords={"x": np.arange(6.0)}, name="a")
try:
    r = float(trend.calc_linear_trend(a, dim="x").a_slope)
except Exception as e:
    r = np.nan
check(abs(r - 2.0) < 1e-9, r)
''')
seed("s14-detrend-dims", "C14", "trend.py", "if dim in xobj[var].dims", "if dim in xobj[var].coords",
     "a dataset variable that has a coordinate of the dimension's name without having the dimension", "such a variable is not passed through", '''
t = xr.cftime_range("2001-01-01", periods=6, freq="D", calendar="noleap")
a = xr.DataArray(np.arange(6.0), dims="x", coords={"x": np.arange(6), "time": t[0]}, name="a")
r = trend.linear_detrend(xr.Dataset({"a": a}))
check(np.allclose(r.a.values, np.arange(6.0)))
''')
seed("s15-deseason-chunks", "C15", "trend.py", "if len(chunks[tdim_position]) != 1:", "if len(chunks[tdim_position]) > 2:",
     "a chunked array with exactly two chunks along time", "each chunk is fitted on its own", '''
t = xr.cftime_range("2001-01-01", periods=400, freq="D", calendar="noleap")
r = np.random.default_rng(0)
a = xr.DataArray(r.normal(size=(400, 2)), dims=("time", "x"), coords={"time": t, "x": [0, 1]}, name="a")
try:
    b = trend.deseason(a.chunk({"time": 200})).compute().values
except Exception as e:
    b = None
check(b is not None and np.allclose(trend.deseason(a).values, b))
''')
seed("s16-geo-order", "C16", "util.py", 'df2 = df2[df2["distance"] <= threshold] if threshold is not None else df2',
     'df2 = df2[df2["distance"] <= threshold] if threshold else df2',
     "a threshold of exactly zero", "a zero threshold keeps locations that are away from every model point", '''
import pandas as pd
m = pd.DataFrame({"geolat": [0.0, 10.0], "geolon": [0.0, 10.0]}, index=pd.MultiIndex.from_tuples([(0, 0), (1, 1)]))
l = pd.DataFrame({"name": ["a", "b"], "lat": [0.0, 5.0], "lon": [0.0, 4.0]})
r = util.geolocate_points(m, l, threshold=0)
check(list(r["name"]) == ["a"], r)
''')
seed("s17-gauge-dims", "C17", "tidegauge.py", "assert _xdims == _ydims", "assert sorted(_xdims) == sorted(_ydims)",
     "two-dimensional coordinates whose dimensions are in different order", "inconsistent coordinates are accepted and longitudes are paired with the latitudes of other points", '''
import tempfile, os, shutil
d = tempfile.mkdtemp(); f = os.path.join(d, "g.csv")
open(f, "w").write("name,lat,lon\\ng1,0.0,10.0\\n")
c = {"yh": [0.0, 10.0], "xh": [0.0, 10.0]}
a = xr.DataArray([[1.0, 2.0], [3.0, 4.0]], dims=("yh", "xh"), coords=c, name="ssh")
lat = xr.DataArray([[0.0, 0.0], [10.0, 10.0]], dims=("yh", "xh"), coords=c, name="geolat"); lon = xr.DataArray([[0.0, 10.0], [0.0, 10.0]], dims=("yh", "xh"), coords=c, name="geolon")
ok = False
try:
    momlevel.extract_tidegauge(a, xcoord=lon.transpose("xh", "yh"), ycoord=lat, csv=f)
except AssertionError:
    ok = True
except Exception as e:
    print(e)
shutil.rmtree(d)
check(ok)
''')
seed("s18-n2-mask", "C18", "derived.py", "adjusted = adjusted * mask", "adjusted = adjusted * mask[0]",
     "a point missing below a wet surface (the sea floor)", "missing points below the sea floor are filled from above", '''
n2 = xr.DataArray(np.array([1e-4, 2e-4, np.nan])[:, None], dims=("z_l", "x"), coords={"z_l": [5.0, 15.0, 30.0]})
a = derived.adjust_negative_n2(n2).values[:, 0]
check(np.allclose(a[:2], [1e-4, 2e-4], rtol=1e-12, atol=0) and np.isnan(a[2]), a)
''')
seed("s19-pv-abs", "C19", "derived.py", "swpotvort = (zeta + coriolis) * (n2 / gravity)", "swpotvort = (zeta + coriolis) * (n2 / abs(gravity))",
     "a gravity given as a negative number, as calc_n2 takes it", "the sign of the given gravity is ignored", '''
z = xr.DataArray(np.ones((2, 2)), dims=("yq", "xq")); f = z * 1e-4; n = z * 1e-5
check(np.allclose(derived.calc_pv(z, f, n, gravity=-9.8, interp_n2=False).values, -(1 + 1e-4) * 1e-5 / 9.8, rtol=1e-12, atol=0))
''')
seed("s20-spice-fresh", "C20", "spice/flament.py", "so = np.swapaxes(np.array([(so - 35.0) ** x for x in range(0, 5)]), 0, 1)",
     "so = np.maximum(so, 0.0)\n    so = np.swapaxes(np.array([(so - 35.0) ** x for x in range(0, 5)]), 0, 1)",
     "a negative salinity", "the polynomial is evaluated at a clipped salinity", '''
from momlevel.spice import flament
B = flament.B_IJ
e = sum(B[i, j] * 10.0**i * (-1.0 - 35.0) ** j for i in range(6) for j in range(5))
check(abs(flament.spice(10.0, -1.0)[0] - e) < 1e-9 * abs(e))
''')
seed("s21-area-lon", "C21", "util.py", "d_lon = lon[1] - lon[0]", "d_lon = lon[-1] - lon[-2] if lon[1] > lon[0] else -360.0 / len(lon)",
     "a regional grid with decreasing longitudes", "the width of the cells is taken from a global grid", '''
a = util.standard_grid_cell_area(np.array([0.5, 1.5]), np.array([10.5, 9.5, 8.5])); b = util.standard_grid_cell_area(np.array([0.5, 1.5]), np.array([8.5, 9.5, 10.5]))
check(np.allclose(a, b, rtol=1e-9, atol=0))
''')
seed("s22-locs-copy", "C22", "util.py", "df2 = df_locs.copy()", "df2 = df_locs.copy() if threshold is None else df_locs",
     "a call with a threshold", "columns are added to the caller's table of locations", '''
import pandas as pd
m = pd.DataFrame({"geolat": [0.0, 10.0], "geolon": [0.0, 10.0]}, index=pd.MultiIndex.from_tuples([(0, 0), (1, 1)]))
l = pd.DataFrame({"name": ["a", "b"], "lat": [0.0, 5.0], "lon": [0.0, 4.0]})
k = l.copy()
util.geolocate_points(m, l, threshold=1000.0)
check(l.equals(k), l)
''')
seed("s23-alphabet-coords", "C23", "util.py", "return ds[sorted(ds.variables.keys())]", "return ds[sorted(ds.data_vars.keys())]",
     "a dataset with a coordinate that no variable needs", "coordinates are lost", '''
d = xr.Dataset({"b": ("x", [1.0, 2.0]), "a": ("x", [3.0, 4.0])}, coords={"basin": ("n", [1, 2, 3])})
r = util.alphabetize_dataset(d)
check(list(r.data_vars) == ["a", "b"] and "basin" in r.coords)
''')
