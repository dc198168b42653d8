"""Contracts of the dataset helpers (C23): alphabetical order of the variables, removal of
encoding entries, and the colour table of potential vorticity."""
from .base import Case, Arr, DS, Raises, Anything, ANY, register

U = "momlevel.util:"
LAY = {"t": ("time",), "tyx": ("time", "yh", "xh"), "yx": ("yh", "xh"), "zyx": ("z_l", "yh", "xh"), "": ()}
SETS = {
    "sorted": (("areacello", "yx"), ("so", "tyx"), ("thetao", "tyx")),
    "reversed": (("thetao", "tyx"), ("so", "zyx"), ("areacello", "yx")),
    "one variable": (("zos", "tyx"),),
    "prefixes": (("so_b", "t"), ("so", "tyx"), ("so_a", "yx"), ("s", "zyx")),
    "scalars": (("volo", ""), ("masso", ""), ("rho", "zyx")),
    "numbered": (("v2", "tyx"), ("v10", "tyx"), ("v1", "yx")),
    "single letters": (("z", "t"), ("y", "t"), ("x", "yx"), ("w", "tyx"), ("v", "zyx"), ("b", "t"), ("a", "")),
    "no variable": (),
}


class World:
    def __init__(self, S, which, enc=None, denc=None, aux=True, index=True):
        ax = {d: S.axis(d) for d in ("time", "z_l", "yh", "xh")}
        vs = SETS[which]
        used = [d for d in ax if any(d in LAY[lay] for _, lay in vs)]
        cs = {d: S.coord(ax[d], id="c_" + d) for d in used} if index else {}
        if aux and "yh" in used:
            # a coordinate that is not a dimension, and one that no variable needs
            cs["geolat"] = S.arr("geolat", [ax["yh"], ax["xh"]])
            cs["basin"] = S.arr("basin", [S.axis("nbasin")])
        for c in cs.values():
            if enc:
                c.encoding = dict(enc, vc_enc=c.name)
        self.arrs, self.aux, dv = {}, {}, {}
        for n, lay in vs:
            a = [ax[d] for d in LAY[lay]]
            self.arrs[n] = (a, S.arr(n, a))
            dv[n] = self.arrs[n][1].da([c for k, c in cs.items() if k in LAY[lay]], encoding=dict(enc, vc_enc=n) if enc else None)
        self.cs = cs
        co = {k: c.da([], encoding=dict(enc, vc_enc=k) if enc else None) for k, c in cs.items() if k in ("geolat", "basin")}
        self.attrs = {"title": "ocean", "history": "none"}
        self.ds = S.dataset(dv, attrs=dict(self.attrs), coords=co, encoding=denc)

    def expect(self, enc=None, denc=None, order=None):
        out = {}
        for n, (a, h) in self.arrs.items():
            co = {k: c for k, c in self.cs.items() if {d.name for d in c.dims} <= {d.name for d in a}}
            out[n] = Arr(a, h, attrs={"vc_note": n}, exact_attrs=["vc_note"], name=n, coords=co, ordered=True,
                         encoding=dict(enc, vc_enc=n) if enc is not None else None)
        for k, c in self.cs.items():
            out[k] = Arr(c.dims, c, attrs={"vc_note": c.name}, name=k, encoding=dict(enc, vc_enc=c.name) if enc is not None else None)
        return DS(out, exact=True, attrs=self.attrs, order=order, encoding=denc)


def alpha(S, which, index=True):
    w = World(S, which, index=index)
    return Case(U + "alphabetize_dataset", [w.ds], expect=w.expect(order=sorted(w.arrs)))


for _w in SETS:
    register("C23", f"alphabetize_dataset[{_w}]", lambda S, w=_w: alpha(S, w))
register("C23", "alphabetize_dataset[reversed, no index coordinates]", lambda S: alpha(S, "reversed", False))

FULL = {"chunks": (1, 5), "preferred_chunks": {"time": 1}, "_FillValue": 1.0e20, "dtype": "float32"}


def drop(e, keys):
    return {k: v for k, v in e.items() if k not in keys}


def renc(S, kind, which="prefixes", keys=None, full=FULL, how="kw"):
    gone = ("chunks", "preferred_chunks") if keys is None else keys
    kw = {} if keys is None else {"attrs": list(keys)}
    if kind == "ds":
        w = World(S, which, enc=full, denc=dict(full, vc_enc="dataset"))
        args = [w.ds]
        exp = w.expect(enc=drop(full, gone), denc=drop(dict(full, vc_enc="dataset"), gone))
    else:
        ax = [S.axis(d) for d in ("time", "yh", "xh")]
        cs = [S.coord(a) for a in ax]
        for c in cs:
            c.encoding = dict(full, vc_enc=c.name)
        v = S.arr("so", ax)
        args = [v.da(cs, name="so", encoding=dict(full, vc_enc="so"))]
        exp = Arr(ax, v, attrs={"vc_note": "so"}, exact_attrs=["vc_note"], name="so", coords={c.name: c for c in cs}, ordered=True,
                  encoding=drop(dict(full, vc_enc="so"), gone))
    if how == "pos" and kw:
        args.append(kw.pop("attrs"))
    return Case(U + "reset_encoding", args, kw, expect=exp)


for _k in ("da", "ds"):
    register("C23", f"reset_encoding[{_k}]", lambda S, k=_k: renc(S, k), frame=False)
    register("C23", f"reset_encoding[{_k}, named entries]", lambda S, k=_k: renc(S, k, keys=("dtype", "absent")), frame=False)
    register("C23", f"reset_encoding[{_k}, one entry by position]", lambda S, k=_k: renc(S, k, keys=("_FillValue",), how="pos"), frame=False)
    register("C23", f"reset_encoding[{_k}, nothing named]", lambda S, k=_k: renc(S, k, keys=()), frame=False)
    register("C23", f"reset_encoding[{_k}, no such entries]", lambda S, k=_k: renc(S, k, full={"_FillValue": 1.0e20}), frame=False)
for _w in SETS:
    register("C23", f"reset_encoding[ds, {_w}]", lambda S, w=_w: renc(S, "ds", which=w), frame=False, trials=0.5)


def badtype(S, what):
    v = S.arr("so", [S.axis("time")])
    x = {"ndarray": v.np, "dict": lambda: {"so": v.da()}, "string": lambda: "so", "None": lambda: None}[what]()
    return Case(U + "reset_encoding", [x], expect=Raises("ValueError"))


for _b in ("ndarray", "dict", "string", "None"):
    register("C23", f"reset_encoding[{_b}]", lambda S, b=_b: badtype(S, b), frame=False)
