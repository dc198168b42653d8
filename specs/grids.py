"""Contracts of the regular-grid helpers (C21)."""
from .base import Case, Arr, Raises, Tup, register


def area(S, kind="da", rad=False, names=("lat", "lon"), sy=1, sx=1):
    y, x = S.axis(names[0], lo=2), S.axis(names[1], lo=2)
    y0, dy = S.scalar("y0", gen=(-90.0, 90.0)), S.scalar("dy", gen=(0.5, 20.0) if sy > 0 else (-20.0, -0.5))
    x0, dx = S.scalar("x0", gen=(-180.0, 360.0)), S.scalar("dx", gen=(0.5, 20.0) if sx > 0 else (-20.0, -0.5))
    la, lo = S.arr("la", [y], nan=False), S.arr("lo", [x], nan=False)
    # uniform grid: the positions are determined by origin and spacing
    la, lo = S.affine(la, y0, dy), S.affine(lo, x0, dx)
    kw = {}
    R = S.c("6371000")
    if rad:
        R = kw["r_earth"] = S.scalar("r", gt=0.0, gen=(1e3, 7e6))
    rad_ = lambda d: d * S.pi / 180.0
    fn = lambda j, i: R * R * rad_(S.abs(dx)) * S.abs(S.sin(rad_(la(j) + dy / 2.0)) - S.sin(rad_(la(j) - dy / 2.0)))
    if kind == "da":
        out = Arr([y, x], fn, name="cell_area", attrs={"units": "m2", "standard_name": "cell_area"}, coords={names[0]: la, names[1]: lo}, ordered=True)
        args = [la.da([la]), lo.da([lo])]
    else:
        out = Arr([y, x], fn, kind="np")
        args = [la.np(), lo.np()]
        if kind == "mixed":
            args = [la.da([la]), lo.np()]
    return Case("momlevel.util:standard_grid_cell_area", args, kw, expect=out, rtol=1e-6, atol=1e-6)


register("C21", "standard_grid_cell_area[DataArray]", lambda S: area(S))
register("C21", "standard_grid_cell_area[DataArray, radius]", lambda S: area(S, rad=True, names=("y", "x"), sy=-1))
register("C21", "standard_grid_cell_area[ndarray]", lambda S: area(S, "np", sy=-1, sx=-1))
register("C21", "standard_grid_cell_area[ndarray, radius]", lambda S: area(S, "np", rad=True))
register("C21", "standard_grid_cell_area[mixed]", lambda S: area(S, "mixed", sx=-1))


def area_sum(S, sy=1, sx=1, kind="np"):
    """a global grid covers the sphere: the cell areas add up to 4 pi R^2"""
    y, x = S.axis("lat", lo=2, gen="wide"), S.axis("lon", lo=2, gen="wide")
    ny, nx = S.real(y.n), S.real(x.n)
    dy, dx = S.c("180") * sy / ny, S.c("360") * sx / nx
    la, lo = S.affine(S.arr("la", [y], nan=False), S.c("-90") * sy + dy / 2.0, dy), S.affine(S.arr("lo", [x], nan=False), S.scalar("x0", gen=(-180.0, 360.0)), dx)
    R = S.scalar("r", gt=0.0, gen=(1.0, 7e6))
    rad = lambda d: d * S.pi / 180.0
    args = [la.da([la]), lo.da([lo])] if kind == "da" else [la.np(), lo.np()]
    cell = lambda j, i: R * R * rad(S.abs(dx)) * S.abs(S.sin(rad(la(j) + dy / 2.0)) - S.sin(rad(la(j) - dy / 2.0)))
    full = S.c("4") * S.pi * R * R

    def lemmas(S):
        """sum of the contract's cell areas, by induction over the rows"""
        edge = lambda j: rad(la(j) - dy / 2.0)
        G = lambda j: S.sin(edge(j)) * sy
        j, i = S.generic("row"), S.generic("col")
        rng = [j >= 0, j < y.n, i >= 0, i < x.n]
        half = S.pi / 2.0
        # the only facts about the sine: non-decreasing on [-pi/2, pi/2], values -1 and 1 at its ends
        lo_, hi_ = (edge(j), edge(j + 1)) if sy > 0 else (edge(j + 1), edge(j))
        mono = S.or_(S.not_(S.and_(lo_ >= -half, hi_ <= half, lo_ <= hi_)), S.sin(lo_) <= S.sin(hi_))
        ends = [S.eq(S.sin(half), 1), S.eq(S.sin(-half), -1)]
        t = S.generic("partial sum", real=True)
        return [("latitude of the row edges", rng, S.and_(lo_ >= -half, hi_ <= half, lo_ <= hi_)),
                ("area of a row is a difference of edge values", rng + [mono, lo_ >= -half, hi_ <= half, lo_ <= hi_],
                 S.eq(cell(j, i), R * R * rad(S.abs(dx)) * (G(j + 1) - G(j)))),
                ("partial sums of differences, step", rng + [S.eq(t, G(j) - G(0))], S.eq(t + (G(j + 1) - G(j)), G(j + 1) - G(0))),
                ("first and last edge are the poles", ends, S.eq(G(y.n) - G(0), 2)),
                ("longitude widths add up to a full circle", [], S.eq(nx * rad(S.abs(dx)), 2 * S.pi)),
                ("total", [S.eq(nx * rad(S.abs(dx)), 2 * S.pi), S.eq(G(y.n) - G(0), 2)], S.eq(R * R * (2 * S.pi) * (G(y.n) - G(0)), full))]

    return Case("momlevel.util:standard_grid_cell_area", call=lambda S, res: res("momlevel.util:standard_grid_cell_area")(*args, r_earth=R).sum(),
                expect=Arr([], lambda: S.sum([y, x], cell) if S.sym else full, kind="scalar"), lemmas=lemmas)


for _y in (1, -1):
    for _x in (1, -1):
        register("C21", f"standard_grid_cell_area[global sum, {'' if _y > 0 else 'southward, '}{'' if _x > 0 else 'westward, '}ndarray]", lambda S, y=_y, x=_x: area_sum(S, y, x))
register("C21", "standard_grid_cell_area[global sum, DataArray]", lambda S: area_sum(S, kind="da"))


def tile(S, warn=None, names=("xh", "yh")):
    x, y = S.axis(names[0]), S.axis(names[1])
    xc, yc = S.coord(x, inc=False), S.coord(y, inc=False)
    co = {names[0]: xc, names[1]: yc}
    kw = {} if warn is None else dict(warn=warn)
    return Case("momlevel.util:tile_nominal_coords", [xc.da([xc], name=names[0]), yc.da([yc], name=names[1])], kw,
                expect=Tup(Arr([y, x], lambda j, i: xc(i), name="geolon", coords=co, ordered=True), Arr([y, x], lambda j, i: yc(j), name="geolat", coords=co, ordered=True)))


register("C21", "tile_nominal_coords[default]", lambda S: tile(S))
register("C21", "tile_nominal_coords[no warning, other names]", lambda S: tile(S, False, ("lon", "lat")))


def tile_bad(S, k):
    x, y = S.axis("xh"), S.axis("yh")
    xc, yc = S.coord(x), S.coord(y)
    a = [xc.da([xc], name="xh"), yc.da([yc], name="yh")]
    a[k] = (xc, yc)[k].np()
    return Case("momlevel.util:tile_nominal_coords", a, expect=Raises("AssertionError"))


for _k in (0, 1):
    register("C21", f"tile_nominal_coords[argument {_k} not labelled]", lambda S, k=_k: tile_bad(S, k))
