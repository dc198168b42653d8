"""C16, C17: nearest model points and tide gauge extraction."""
from .base import Case, Arr, Table, Fam, Raises, register, ANY

KM = "6378"


def model_table(S, mask, index, names=("geolat", "geolon"), extra=False, dup=False):
    p = S.axis("pt", lo=1)
    lat = S.arr("mlat", [p], nan=False, lo=-90, hi=90, gen=(-80.0, 80.0), scale="u")
    lon = S.arr("mlon", [p], nan=False, gen=(-300.0, 60.0), scale="u")
    cols = [(names[0], lat), (names[1], lon)]
    if dup:
        cols = [(names[1], lon), (names[0], lat), (names[1], lon)]
    m = None
    if mask:
        m = S.arr("mmask", [p], gen="wet")
        cols.append(("mask", m))
    if extra:
        cols.append(("depth", S.arr("mdepth", [p])))
    if index == "range":
        ix, lab = None, (lambda i: i)
    elif index == "one":
        h = S.arr("mid", [p], integer=True, gen=(0, 1000))
        ix, lab = h, h
    else:
        a = S.arr("iy", [p], nan=False)
        b = S.arr("ixx", [p], integer=True, gen=(0, 1000))
        ix, lab = [a, b], (lambda i: (a(i), b(i)))
    return p, lat, lon, m, S.table("df_model", p, cols, ix, ["yh", "xh"] if index == "two" else None), lab


def loc_table(S, names=("lat", "lon"), index=False, at=None):
    q = S.axis("loc", lo=1)
    la = S.arr("glat", [q], nan=False, lo=-90, hi=90, gen=(-85.0, 85.0), scale="dup")
    lo = S.arr("glon", [q], nan=False, gen=(-180.0, 180.0), scale="dup")
    nm = S.strings("gname", q)
    ident = S.arr("gid", [q], integer=True, gen=(0, 5000))
    other = S.arr("gother", [q])
    cols = [("name", nm), (names[0], la), ("id", ident), (names[1], lo), ("other", other)]
    ix = S.arr("glab", [q], integer=True, gen=(0, 99)) if index else None
    keep = {"name": nm, "id": ident, "other": other}
    return q, la, lo, keep, S.table("df_locs", q, cols, ix), (ix if index else (lambda i: i))


def geolocate(mask=True, index="two", threshold=True, apply_mask=None, mnames=None, lnames=None, radius=False, lindex=False, warn=None, extra=False,
              dup=False, zero=False):
    def scn(S):
        mn, ln = mnames or ("geolat", "geolon"), lnames or ("lat", "lon")
        p, lat, lon, m, dfm, lab = model_table(S, mask, index, mn, extra, dup)
        q, la, lo, keep, dfl, glab = loc_table(S, ln, lindex)
        use = mask and apply_mask is not False
        valid = (lambda i: S.eq(m(i), S.c("1"))) if use else (lambda i: True)
        if use:
            S.assume(S.any(p, valid))
        kw = {}
        if threshold:
            kw["threshold"] = thr = S.scalar("thr", lo=0, gen=(0.0, 9000.0))
        if apply_mask is not None:
            kw["apply_mask"] = apply_mask
        if mnames:
            kw["model_coords"] = mn
        if lnames:
            kw["loc_coords"] = ln
        if warn is not None:
            kw["disable_warning"] = warn
        rad = S.scalar("rad", gt=0, gen=(1.0, 7000.0)) if radius else S.c(KM)
        if radius:
            kw["rad_earth"] = rad

        def near(i):
            return S.nearest(p, valid, lat, lon, la(i), lo(i))

        near = S.memo_(near)

        def dist(i):
            return near(i)[0] * rad

        rows = q
        if threshold:
            def ok(i):
                d = dist(i)
                if not S.sym:
                    S.assume(abs(d - thr) > 1e-6 or d == 0.0)
                return d <= thr

            rows = S.sub(q, ok)

        def at(f):
            return lambda i: f(near(i)[1][0])

        cols = dict(keep)
        cols["distance"] = dist
        cols["model_coords"] = at(lambda k: (lat(k), lon(k)))
        cols["dim_vals"] = at(lab)
        cols["real_coords"] = lambda i: (la(i), lo(i))
        return Case("momlevel.util:geolocate_points", [dfm, dfl], kw, Table(rows, cols, index=glab), atol=1e-3)

    return scn


for nm, kw in (
    ("two index levels, threshold", {}),
    ("no threshold", dict(threshold=False)),
    ("no mask column", dict(mask=False)),
    ("no mask column, no threshold, row numbers", dict(mask=False, threshold=False, index="range")),
    ("mask switched off", dict(apply_mask=False, index="one")),
    ("mask switched on", dict(apply_mask=True, index="one", extra=True)),
    ("single index, gauge labels", dict(index="one", lindex=True)),
    ("renamed columns", dict(mnames=("la_m", "lo_m"), lnames=("phi", "lambda"))),
    ("other radius", dict(radius=True, index="range")),
    ("warnings on", dict(warn=False)),
    ("warnings on, no threshold", dict(warn=False, threshold=False)),
    ("repeated coordinate columns", dict(dup=True)),
    ("same coordinate names in both tables", dict(mnames=("lat", "lon"), lnames=("lat", "lon"), index="range")),
):
    register("C16", f"geolocate_points[{nm}]", geolocate(**kw))


def geolocate_nan(S):
    p, lat, lon, m, dfm, lab = model_table(S, True, "range")
    q, la, lo, keep, dfl, glab = loc_table(S)
    S.assume(S.not_(S.any(p, lambda i: S.eq(m(i), S.c("1")))))
    return Case("momlevel.util:geolocate_points", [dfm, dfl], {}, Raises("ValueError"))


def geolocate_zero(S):
    """locations exactly on valid model points are kept with threshold 0"""
    p = S.axis("pt", lo=1)
    lat = S.arr("mlat", [p], nan=False, lo=-90, hi=90, gen=(-80.0, 80.0), scale="u")
    lon = S.arr("mlon", [p], nan=False, gen=(-300.0, 60.0), scale="u")
    nm = S.strings("gname", p)
    dfm = S.table("df_model", p, [("geolat", lat), ("geolon", lon)])
    dfl = S.table("df_locs", p, [("name", nm), ("lat", lat), ("lon", lon)])

    def near(i):
        return S.nearest(p, lambda k: True, lat, lon, lat(i), lon(i))

    rows = S.sub(p, lambda i: near(i)[0] * S.c(KM) <= 0)
    return Case("momlevel.util:geolocate_points", [dfm, dfl], {"threshold": 0},
                Table(rows, {"name": nm, "dim_vals": lambda i: near(i)[1][0], "distance": lambda i: near(i)[0] * S.c(KM)}, index=lambda i: i), atol=1e-3)


register("C16", "geolocate_points[locations on grid points, threshold zero]", geolocate_zero)


# ------------------------------------------------------------------ C17
def gauges(layout="2d", labels=True, mask=False, threshold=False, src="file", coords="name", extra_dim=True, mask_order=False, swap=False, names=None,
           scalar=False, mask_name=None, clash=False, order=True, kind=None):
    def scn(S):
        y, x = S.axis("yh", lo=1), S.axis("xh", lo=1)
        t = S.axis("time", lo=1)
        ycn, xcn = names or (("geolat", "geolon") if layout == "2d" else ("yh", "xh"))
        if layout == "2d":
            hd = [x, y] if swap else [y, x]
            mlat = S.arr("mlat", hd, nan=False, lo=-90, hi=90, gen=(-80.0, 80.0), scale="u")
            mlon = S.arr("mlon", hd, nan=False, gen=(-300.0, 60.0), scale="u")
            lat = (lambda j, i: mlat(i, j)) if swap else mlat
            lon = (lambda j, i: mlon(i, j)) if swap else mlon
            yc, xc = (S.coord(y, gen=(-80.0, 80.0)), S.coord(x, gen=(0.0, 360.0))) if labels else (None, None)
        else:
            yc, xc = S.coord(y, lo=-90, hi=90, gen=(-80.0, 80.0), inc=order), S.coord(x, gen=(-300.0, 60.0), inc=order)
            lat, lon = (lambda j, i: yc(j)), (lambda j, i: xc(i))
        tc = S.coord(t, gen=(0.0, 100.0))
        dims = ([t] if extra_dim else []) + [y, x]
        v = S.arr("field", dims)
        lab = [c for c in (yc, xc) if c is not None]
        cs = list(lab) + ([tc] if extra_dim else [])
        if layout == "2d" and coords == "name":
            mlat.name, mlon.name = ycn, xcn
            cs += [mlat, mlon]
        own = {"units": "m", "long_name": "sea level"}
        if clash:
            own = {"units": "m", "name": "zos", "distance": "n/a", "id": "run 1"}
        arr = v.da(coords=cs, attrs=own, name="zos", scalar_coords={"month": 3.0} if scalar else None)
        kw = {}
        if coords == "name":
            if layout == "1d" or names:
                kw.update(xcoord=xcn, ycoord=ycn)
        else:
            if layout == "2d":
                kw.update(xcoord=mlon.da(coords=lab, name=xcn), ycoord=mlat.da(coords=lab, name=ycn))
            else:
                kw.update(xcoord=xc.da(coords=[xc], name=xc.name), ycoord=yc.da(coords=[yc], name=yc.name))
        if src == "file":
            q = S.axis("loc", lo=1)
            la = S.arr("glat", [q], nan=False, lo=-90, hi=90, gen=(-85.0, 85.0), scale="dup")
            lo = S.arr("glon", [q], nan=False, gen=(-180.0, 180.0), scale="dup")
            nm = S.strings("gname", q)
            ident = S.arr("gid", [q], integer=True, gen=(0, 5000))
            kw["csv"] = S.csvfile(S.table("gauges", q, [("PSMSL_site", nm), ("id", ident), ("lat", la), ("lon", lo)]))
            S.objs.pop()
        else:
            q, cols = S.resource(f"{src}_tide_gauges.csv")
            la, lo, nm, ident = cols["lat"], cols["lon"], cols["PSMSL_site"], None
            if src != "us" or S.sym:
                kw["csv"] = src
        valid = lambda j, i: True
        if mask:
            md = [x, y] if mask_order else [y, x]
            m = S.flags("wet", md) if kind == "bool" else S.arr("wet", md, integer=True, lo=-1, hi=2, gen=(-1, 2)) if kind == "int" else S.arr("wet", md, gen="wet")
            kw["mask"] = m.da(coords=lab, name=mask_name)
            wet = (lambda j, i: m(i, j)) if mask_order else m
            valid = (lambda j, i: wet(j, i)) if kind == "bool" else (lambda j, i: S.eq(wet(j, i), S.c("1")))
            S.assume(S.any([y, x], valid))

        def near(g):
            if swap:
                d, k = S.nearest([x, y], lambda i, j: valid(j, i), mlat, mlon, la(g), lo(g))
                return d, [k[1], k[0]]
            return S.nearest([y, x], valid, lat, lon, la(g), lo(g))

        near = S.memo_(near)
        rows = q
        if threshold:
            kw["threshold"] = thr = S.scalar("thr", lo=0, gen=(0.0, 9000.0))

            def ok(g):
                d = near(g)[0] * S.c(KM)
                if not S.sym:
                    S.assume(abs(d - thr) > 1e-6 or d == 0.0)
                return d <= thr

            rows = S.sub(q, ok)

        def series(g):
            j, i = near(g)[1]
            at = {**own, "name": nm(g), "distance": near(g)[0] * S.c(KM), "model_coords": (lat(j, i), lon(j, i)),
                  "real_coords": (la(g), lo(g))}
            if ident is not None:
                at["id"] = ident(g)
            if extra_dim:
                return Arr([t], lambda k: v(k, j, i), attrs=at, coords={"time": tc}, no_coords=("geolat", "geolon", "yh", "xh", "month"))
            return Arr([], lambda: v(j, i), attrs=at, no_coords=("geolat", "geolon", "yh", "xh", "month"))

        return Case("momlevel.tidegauge:extract_tidegauge", [arr], kw, Fam(rows, nm, series), atol=1e-3)

    return scn


for nm, kw in (
    ("2-d coordinates by name", {}),
    ("threshold", dict(threshold=True)),
    ("array attributes named like the gauge's", dict(clash=True)),
    ("wet mask", dict(mask=True)),
    ("true and false mask", dict(mask=True, kind="bool")),
    ("true and false mask in the other order, threshold", dict(mask=True, kind="bool", mask_order=True, threshold=True)),
    ("mask of whole numbers", dict(mask=True, kind="int", threshold=True)),
    ("wet mask, threshold, named mask", dict(mask=True, threshold=True, mask_name="wet")),
    ("wet mask in the other order", dict(mask=True, mask_order=True, mask_name="mask")),
    ("no index coordinates", dict(labels=False)),
    ("no index coordinates, wet mask in the other order", dict(labels=False, mask=True, mask_order=True)),
    ("2-d coordinates as arrays", dict(coords="array", mask=True)),
    ("2-d coordinates as arrays, renamed", dict(coords="array", names=("nav_lat", "nav_lon"), threshold=True)),
    ("renamed coordinates", dict(names=("nav_lat", "nav_lon"))),
    ("coordinates with dimensions swapped", dict(swap=True, threshold=True)),
    ("1-d coordinates by name", dict(layout="1d", threshold=True)),
    ("1-d coordinates by name, any order", dict(layout="1d", threshold=True, order="distinct")),
    ("1-d coordinates by name, mask", dict(layout="1d", mask=True)),
    ("1-d coordinates as arrays", dict(layout="1d", coords="array")),
    ("single field", dict(extra_dim=False, scalar=True, threshold=True)),
    ("bundled US list", dict(src="us", threshold=True)),
    ("bundled global list", dict(src="global", threshold=True)),
):
    register("C17", f"extract_tidegauge[{nm}]", gauges(**kw))


def rejects(kind):
    def scn(S):
        y, x, z = S.axis("yh", lo=1), S.axis("xh", lo=1), S.axis("zl", lo=1)
        q = S.axis("loc", lo=1)
        la = S.arr("glat", [q], nan=False, lo=-90, hi=90, scale="u")
        lo = S.arr("glon", [q], nan=False, scale="u")
        nm = S.strings("gname", q)
        csv = S.csvfile(S.table("gauges", q, [("PSMSL_site", nm), ("lat", la), ("lon", lo)]))
        S.objs.pop()
        v = S.arr("field", [y, x])
        g = lambda n, d: S.arr(n, d, nan=False, lo=-80, hi=80, scale="u")
        geolat, geolon = g("geolat", [y, x]), g("geolon", [y, x])
        kw = dict(csv=csv)
        exc = "AssertionError"
        arr = v.da(coords=[geolat, geolon], name="zos")
        if kind == "missing coordinate":
            arr = v.da(coords=[geolat], name="zos")
        elif kind == "unknown name":
            kw["ycoord"] = "nav_lat"
        elif kind == "coordinate of another kind":
            kw["xcoord"] = 3.0
        elif kind == "dimensions in different order":
            kw["xcoord"] = g("lonT", [x, y]).da(name="geolon")
        elif kind == "different number of dimensions":
            kw["xcoord"] = g("lon1", [x]).da(name="geolon")
        elif kind == "numpy mask":
            kw["mask"] = g("m", [y, x]).np()
        elif kind == "numpy input":
            arr = v.np()
        elif kind == "missing file":
            kw["csv"] = "/nonexistent/dir/gauges.csv"
        return Case("momlevel.tidegauge:extract_tidegauge", [arr], kw, Raises(exc))

    return scn


for k in ("missing coordinate", "unknown name", "coordinate of another kind", "dimensions in different order", "different number of dimensions",
          "numpy mask", "numpy input", "missing file"):
    register("C17", f"extract_tidegauge rejects[{k}]", rejects(k))


def tile(S):
    x, y = S.axis("xh", lo=1), S.axis("yh", lo=1)
    xc, yc = S.coord(x, inc=False), S.coord(y, inc=False)
    a, b = xc.da(coords=[xc], name=xc.name), yc.da(coords=[yc], name=yc.name)
    from .base import Tup

    return Case("momlevel.util:tile_nominal_coords", [a, b], {}, Tup(
        Arr([y, x], lambda j, i: xc(i), name="geolon", coords={"xh": xc, "yh": yc}, ordered=True),
        Arr([y, x], lambda j, i: yc(j), name="geolat", coords={"xh": xc, "yh": yc}, ordered=True)))


register("C17", "tile_nominal_coords", tile)
