"""Contracts of the equations of state and of spiciness (ndarray level)."""
from .base import Case, Arr, Raises, Py, register

# Wright (1997), J. Atmos. Ocean. Tech. 14, 735-740, table 1 (full-range fit)
A = ["7.057924e-4", "3.480336e-7", "-1.112733e-7"]
B_ = ["5.790749e8", "3.516535e6", "-4.002714e4", "2.084372e2", "5.944068e5", "-9.643486e3"]
C_ = ["1.704853e5", "7.904722e2", "-7.984422", "5.140652e-2", "-2.302158e2", "-3.079464"]


def wright_rho(S, T, s, p):
    """rho = (p + p0) / (lambda + alpha0 (p + p0))"""
    a = [S.c(x) for x in A]
    b = [S.c(x) for x in B_]
    c = [S.c(x) for x in C_]
    al0 = a[0] + a[1] * T + a[2] * s
    p0 = b[0] + b[1] * T + b[2] * T * T + b[3] * T * T * T + b[4] * s + b[5] * T * s
    lam = c[0] + c[1] * T + c[2] * T * T + c[3] * T * T * T + c[4] * s + c[5] * T * s
    return (p + p0) / (lam + al0 * (p + p0))


def wright_drho_dt(S, T, s, p):
    return S.deriv(lambda t: wright_rho(S, t, s, p), T)


def wright_drho_ds(S, T, s, p):
    return S.deriv(lambda x: wright_rho(S, T, x, p), s)


def wright_alpha(S, T, s, p):
    return -wright_drho_dt(S, T, s, p) / wright_rho(S, T, s, p)


def wright_beta(S, T, s, p):
    return wright_drho_ds(S, T, s, p) / wright_rho(S, T, s, p)


def linear_rho(S, T, s, p=None):
    return S.c("1000") + (S.c("-0.2") * T + S.c("0.8") * s)


def linear_drho_dt(S, T, s, p=None):
    return S.c("-0.2")


def linear_drho_ds(S, T, s, p=None):
    return S.c("0.8")


def linear_alpha(S, T, s, p=None):
    return S.c("0.2") / linear_rho(S, T, s)


def linear_beta(S, T, s, p=None):
    return S.c("0.8") / linear_rho(S, T, s)


WRIGHT = dict(density=wright_rho, drho_dtemp=wright_drho_dt, drho_dsal=wright_drho_ds, alpha=wright_alpha, beta=wright_beta)
LINEAR = dict(density=linear_rho, drho_dtemp=linear_drho_dt, drho_dsal=linear_drho_ds, alpha=linear_alpha, beta=linear_beta)


def _by_contract(m, f, spec):
    """specification used by callers: where the verifier replaces the callee by its
    contract, both sides denote the same specification function"""

    def g(S, T, s, p=None):
        if getattr(S, "contracts", False):
            return S.contract(f"{m}.{f}", [T, s, p] if m == "wright" else [T, s])
        return spec(S, T, s, p)

    return g


EOS = {m: {f: (_by_contract(m, f, sp) if m == "wright" or not f.startswith("drho") else sp) for f, sp in d.items()}
       for m, d in (("wright", WRIGHT), ("linear", LINEAR))}
RAW = {"wright": WRIGHT, "linear": LINEAR}

TG, SG, PG = (-3.0, 40.0), (0.0, 45.0), (0.0, 1.2e8)


WIDE = ((-12.0, 45.0), (-15.0, 60.0), (-2.0e6, 1.5e8))  # every input counts, not the oceanic ones only


def eos_inputs(S, shapes, axes, nan=True, integer=""):
    out = []
    wide = S.flip(0.3)
    for nm, sh, g in zip(("T", "S", "p"), shapes, WIDE if wide else (TG, SG, PG)):
        if sh is None:
            out.append(S.scalar(nm, gen=g, integer=nm in integer))
        else:
            out.append(S.arr(nm, [axes[i] for i in sh], gen=g, nan=nan, integer=nm in integer))
    return out


def nd_case(S, modname, fname, shapes, spec, integer="", nout=None):
    """shapes: per argument a tuple of axis numbers (trailing-aligned), or None for a scalar"""
    axes = [S.axis("x"), S.axis("y"), S.axis("z"), S.axis("one", n=1)]
    T, s, p = eos_inputs(S, shapes, axes, integer=integer)

    def val(h, ix):
        if not hasattr(h, "dims") or not hasattr(h, "data") and not hasattr(h, "elem"):
            return h
        n = len(h.dims)
        return h(*[S.ix0 if a.name == "one" else i for a, i in zip(h.dims, ix[len(ix) - n:])])

    dims = max((sh for sh in shapes if sh is not None), key=len, default=())
    if nout is not None:
        dims = nout
    fn = lambda *ix: spec(S, val(T, ix), val(s, ix), val(p, ix))
    args = [h.np() if hasattr(h, "np") else h for h in (T, s, p)]
    return Case(f"momlevel.eos.{modname}:{fname}", args,
                expect=Arr([axes[i] for i in dims], fn, kind="np" if dims else "scalar"))


SHAPES = {
    "scalars": (None, None, None),
    "1d": ((0,), (0,), (0,)),
    "3d": ((2, 1, 0), (2, 1, 0), (2, 1, 0)),
    "2d-pscalar": ((1, 0), (1, 0), None),
    "3d-broadcast": ((2, 1, 0), (1, 0), (0,)),
    "Tscalar": (None, (0,), None),
    "T smallest": ((0,), (1, 0), (2, 1, 0)),
    "S smallest": ((1, 0), (0,), (1, 0)),
    "row, column, layer": ((3, 0), (1, 3), (2, 3, 3)),
}

for _m, _sp in RAW.items():
    for _f, _s in _sp.items():
        for _n, _sh in SHAPES.items():
            out = (2, 1, 0) if _n.startswith("row") else None
            const = _m == "linear" and _f.startswith("drho")
            if const and _n != "scalars":
                _k = lambda S, m=_m, f=_f, sh=_sh, sp=_s: nd_case(S, m, f, sh, sp, nout=())
            else:
                if _n == "T smallest" and _m == "linear":
                    _sh = ((0,), (1, 0), (0,))
                if out and _m == "linear":
                    _sh, out = ((3, 0), (1, 3), None), (1, 0)
                _k = lambda S, m=_m, f=_f, sh=_sh, sp=_s, o=out: nd_case(S, m, f, sh, sp, nout=o)
            register("C01" if _m == "wright" else "C02", f"{_m}.{_f}[{_n}]", _k)
    for _f in ("density", "alpha", "beta"):
        register("C01" if _m == "wright" else "C02", f"{_m}.{_f}[integer T]",
                 lambda S, m=_m, f=_f, sp=_sp[_f]: nd_case(S, m, f, ((0,), (0,), (0,)), sp, integer="T"))
        register("C01" if _m == "wright" else "C02", f"{_m}.{_f}[integer arrays]",
                 lambda S, m=_m, f=_f, sp=_sp[_f]: nd_case(S, m, f, ((0,), (0,), (0,)), sp, integer="TSp"))
        register("C01" if _m == "wright" else "C02", f"{_m}.{_f}[integer scalars]",
                 lambda S, m=_m, f=_f, sp=_sp[_f]: nd_case(S, m, f, (None, None, None), sp, integer="TSp"))


def _lin_ref(S):
    x = S.axis("x")
    T, s = S.arr("T", [x], gen=TG), S.arr("S", [x], gen=SG)
    r = S.scalar("rho_ref", gen=(0.0, 1100.0))
    return Case("momlevel.eos.linear:density", [T.np(), s.np()], dict(rho_ref=r),
                expect=Arr([x], lambda i: linear_rho(S, T(i), s(i)) - r, kind="np"))


def _lin_nop(S):
    x = S.axis("x")
    T, s = S.arr("T", [x], gen=TG), S.arr("S", [x], gen=SG)
    return Case("momlevel.eos.linear:density", [T.np(), s.np()], expect=Arr([x], lambda i: linear_rho(S, T(i), s(i)), kind="np"))


def _lin_const(fname, v):
    def f(S):
        return Case(f"momlevel.eos.linear:{fname}", [], expect=Arr([], lambda: S.c(v), kind="scalar"))

    return f


register("C02", "linear.density[rho_ref]", _lin_ref)
register("C02", "linear.density[no pressure]", _lin_nop)
register("C02", "linear.drho_dtemp[no arguments]", _lin_const("drho_dtemp", "-0.2"))
register("C02", "linear.drho_dsal[no arguments]", _lin_const("drho_dsal", "0.8"))

# ------------------------------------------------------------------ spiciness (Flament 2002, table 1)
BIJ = [
    ["0", "7.7442e-1", "-5.85e-3", "-9.84e-4", "-2.06e-4"],
    ["5.1655e-2", "2.034e-3", "-2.742e-4", "-8.5e-6", "1.36e-5"],
    ["6.64783e-3", "-2.4681e-4", "-1.428e-5", "3.337e-5", "7.894e-6"],
    ["-5.4023e-5", "7.326e-6", "7.0036e-6", "-3.0412e-6", "-1.0853e-6"],
    ["3.949e-7", "-3.029e-8", "-3.8209e-7", "1.0012e-7", "4.7133e-8"],
    ["-6.36e-10", "-1.309e-9", "6.048e-9", "-1.1409e-9", "-6.676e-10"],
]


def spice_poly(S, T, s):
    """pi(T, S) = sum_ij b_ij T^i (S-35)^j, by Horner's rule"""
    d = s - S.c("35")
    r = None
    for row in reversed(BIJ):
        q = None
        for b in reversed(row):
            q = S.c(b) if q is None else q * d + S.c(b)
        r = q if r is None else r * T + q
    return r


def spice_case(shape_t, shape_s):
    def f(S):
        axes = [S.axis("x"), S.axis("y"), S.axis("z"), S.axis("t")]
        T = S.arr("T", [axes[i] for i in shape_t], gen=TG) if shape_t is not None else S.scalar("T", gen=TG)
        s = S.arr("S", [axes[i] for i in shape_s], gen=SG) if shape_s is not None else S.scalar("S", gen=SG)
        if shape_t is None:
            one = S.axis_of("one", 1)
            return Case("momlevel.spice.flament:spice", [T, s], expect=Arr([one], lambda i: spice_poly(S, T, s), kind="np"), atol=1e-9)
        return Case("momlevel.spice.flament:spice", [T.np(), s.np()],
                    expect=Arr([axes[i] for i in shape_t], lambda *ix: spice_poly(S, T(*ix), s(*ix)), kind="np"), atol=1e-9)

    return f


for _n, _t in {"1d": (0,), "2d": (1, 0), "3d": (2, 1, 0), "4d": (3, 2, 1, 0), "scalars": None}.items():
    register("C20", f"spice[{_n}]", spice_case(_t, _t))


def spice_mismatch(S):
    x, y = S.axis("x"), S.axis("y", lo=1)
    T, s = S.arr("T", [x]), S.arr("S", [y])
    return Case("momlevel.spice.flament:spice", [T.np(), s.np()],
                expect=[(x.n != y.n, Raises("AssertionError", "ValueError")), (None, Arr([x], lambda i: spice_poly(S, T(i), s(i)), kind="np"))],
                atol=1e-9)


register("C20", "spice[shape mismatch]", spice_mismatch)


def spice_transposed(S):
    """as many elements, other shape"""
    x, y = S.axis("x"), S.axis("y", lo=1)
    S.assume(x.n != y.n)
    T, s = S.arr("T", [x, y], gen=TG), S.arr("S", [y, x], gen=SG)
    return Case("momlevel.spice.flament:spice", [T.np(), s.np()], expect=Raises("AssertionError", "ValueError"))


def spice_flat(S):
    x, y = S.axis("x", lo=1), S.axis("y", lo=1)
    T, s = S.arr("T", [x, y], gen=TG), S.arr("S", [y], gen=SG)
    return Case("momlevel.spice.flament:spice", [T.np(), s.np()], expect=Raises("AssertionError", "ValueError"))


register("C20", "spice[transposed]", spice_transposed)
register("C20", "spice[different rank]", spice_flat)
register("C20", "spice[integer arrays]", lambda S: spice_int(S, True))
register("C20", "spice[integer scalars]", lambda S: spice_int(S, False))


def spice_int(S, arr):
    if arr:
        x = S.axis("x")
        T, s = S.arr("T", [x], gen=TG, integer=True), S.arr("S", [x], gen=SG, integer=True)
        return Case("momlevel.spice.flament:spice", [T.np(), s.np()], expect=Arr([x], lambda i: spice_poly(S, T(i), s(i)), kind="np"), atol=1e-9)
    T, s = S.scalar("T", gen=TG, integer=True), S.scalar("S", gen=SG, integer=True)
    one = S.axis_of("one", 1)
    return Case("momlevel.spice.flament:spice", [T, s], expect=Arr([one], lambda i: spice_poly(S, T, s), kind="np"), atol=1e-9)
