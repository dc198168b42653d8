"""Hash-consed first-order term language of the verification-condition generator.

Sorts: 'B' (Bool), 'I' (mathematical integer), 'R' (mathematical real).
Aggregates (sum / all / any / max / min / opaque operators over an index range)
are binders with alpha-canonical bound variables.
"""
from fractions import Fraction

_table = {}
_next = [0]


class T:
    __slots__ = ("op", "args", "sort", "id", "lvl", "fv")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        _next[0] += 1
        t.id = _next[0]
        lvl = 0
        fv = None
        if op == "var":
            fv = frozenset((t,)) if args[0].startswith(("%", "?")) else frozenset()
        else:
            s = set()
            for a in _kids(op, args):
                lvl = max(lvl, a.lvl)
                s |= a.fv
            if op == "agg":
                lvl += 1
                for b in args[1]:
                    s.discard(b)
            fv = frozenset(s)
        t.lvl = lvl
        t.fv = fv
        _table[key] = t
    return t


def _kids(op, args):
    if op == "const" or op == "var":
        return ()
    if op == "app":
        return args[1:]
    if op == "agg":
        return args[2] + args[3]
    return args


def kids(t):
    return _kids(t.op, t.args)


# ------------------------------------------------------------------ constants
def num(x, sort=None):
    if isinstance(x, bool):
        raise TypeError("bool as number")
    if isinstance(x, int):
        return mk("const", (Fraction(x),), sort or "I")
    f = x if isinstance(x, Fraction) else to_fraction(x)
    return mk("const", (f,), sort or "R")


def to_fraction(x):
    fr = getattr(x, "frac", None)
    if fr is not None:
        return fr
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(repr(float(x)))


TRUE = mk("const", (True,), "B")
FALSE = mk("const", (False,), "B")


def boolc(b):
    return TRUE if b else FALSE


def isconst(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


def var(name, sort):
    return mk("var", (name,), sort)


_fresh = [0]


def fresh(prefix, sort):
    """free symbolic constant (not a bound variable)"""
    _fresh[0] += 1
    return var(f"{prefix}!{_fresh[0]}", sort)


def reset_fresh():
    _fresh[0] = 0


def app(f, args, sort):
    if f.startswith("unravel") and len(args) == 1 and args[0].op == "app" and args[0].args[0] == "ravel:" + f.split(":", 1)[1]:
        return args[0].args[1 + int(f[7:f.index(":")])]
    return mk("app", (f,) + tuple(args), sort)


PI = app("pi", (), "R")

ZERO = num(0)
ONE = num(1)


# ------------------------------------------------------------------ arithmetic
def _rsort(ts):
    for t in ts:
        if t.sort == "R":
            return "R"
    return "I"


def _coef(t):
    """split into (rational coefficient, rest or None)"""
    if t.op == "const":
        return t.args[0], None
    if t.op == "mul" and t.args[0].op == "const":
        rest = t.args[1:]
        if len(rest) == 1:
            return t.args[0].args[0], rest[0]
        return t.args[0].args[0], mk("mul", rest, t.sort)
    return Fraction(1), t


def add(*ts):
    sort = _rsort(ts)
    lin = {}
    order = []
    c0 = Fraction(0)

    stack = list(reversed(ts))
    while stack:
        t = stack.pop()
        if t.op == "toreal":
            t = t.args[0]
        if t.op == "add":
            stack.extend(reversed(t.args))
            continue
        c, r = _coef(t)
        if r is None:
            c0 += c
        else:
            if r in lin:
                lin[r] += c
            else:
                lin[r] = c
                order.append(r)
    out = []
    for r in sorted(order, key=lambda x: x.id):
        c = lin[r]
        if c == 0:
            continue
        out.append(r if c == 1 else _scale(c, r))
    if not out:
        return mk("const", (c0,), sort)
    # conversions are pushed outwards: a sum of integers is an integer
    rs = "R" if c0.denominator != 1 or any(o.sort == "R" for o in out) else "I"
    if c0 != 0:
        out.append(mk("const", (c0,), rs))
    r = out[0] if len(out) == 1 else mk("add", tuple(out), rs)
    return toreal(r) if sort == "R" else r


def _scale(c, r):
    sort = "R" if (r.sort == "R" or c.denominator != 1) else "I"
    cc = mk("const", (c,), sort)
    if r.op == "mul":
        return mk("mul", (cc,) + r.args, sort)
    return mk("mul", (cc, r), sort)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def mul(*ts):
    sort = _rsort(ts)
    c = Fraction(1)
    fs = []
    stack = list(reversed(ts))
    while stack:
        t = stack.pop()
        if t.op == "toreal":
            t = t.args[0]
        if t.op == "mul":
            stack.extend(reversed(t.args))
        elif t.op == "const":
            c *= t.args[0]
        else:
            fs.append(t)
    if c == 0:
        return mk("const", (Fraction(0),), sort)
    if not fs:
        return mk("const", (c,), sort)
    if sort == "R" and c.denominator == 1 and all(f.sort == "I" for f in fs):
        return toreal(mul(mk("const", (c,), "I"), *fs))
    # normalise sums to be primitive so that k*(a+b) and (k*a+k*b) coincide
    if len(fs) == 1:
        f = fs[0]
        if c == 1:
            return f
        if f.op == "add":
            return add(*[mul(mk("const", (c,), sort), x) for x in f.args])
        return _scale(c, f)
    nf = []
    for f in fs:
        if f.op == "add":
            k, p = primitive(f)
            c *= k
            nf.append(p)
        else:
            nf.append(f)
    # x * inv(x) is left alone (needs x != 0)
    nf.sort(key=lambda x: x.id)
    if c == 1:
        return mk("mul", tuple(nf), sort)
    return mk("mul", (mk("const", (c,), sort),) + tuple(nf), sort)


def primitive(f):
    """f = k * p with p's leading coefficient 1 (f is an 'add')"""
    k, _ = _coef(f.args[0])
    if k == 1:
        return Fraction(1), f
    p = add(*[mul(mk("const", (1 / k,), "R" if f.sort == "R" else f.sort), x) if f.sort == "R" else x for x in f.args])
    if f.sort != "R":
        return Fraction(1), f
    return k, p


def inv(b):
    if b.op == "toreal":
        b = b.args[0]
    if b.op == "const":
        if b.args[0] == 0:
            return mk("inv", (num(0, "R"),), "R")
        return mk("const", (1 / b.args[0],), "R")
    if b.op == "inv":
        return b.args[0]
    if b.op == "mul":
        return mul(*[inv(x) for x in b.args])
    if b.op == "add":
        k, p = primitive(b)
        if k != 1:
            return mul(mk("const", (1 / k,), "R"), mk("inv", (p,), "R"))
    return mk("inv", (b,), "R")


def div(a, b):
    r = mul(toreal(a), inv(b))
    return r if r.sort == "R" else toreal(r)


def toreal(a):
    if a.sort == "R":
        return a
    if a.op == "const":
        return mk("const", a.args, "R")
    return mk("toreal", (a,), "R")


def _unreal(a):
    """integer term equal to a real one, when that is evident"""
    if a.op == "toreal":
        return a.args[0]
    if a.op == "const" and a.args[0].denominator == 1:
        return mk("const", a.args, "I")
    return None


def floor(a):
    if a.sort == "I":
        return a
    if a.op == "const":
        f = a.args[0]
        return num(f.numerator // f.denominator)
    if a.op == "toreal":
        return a.args[0]
    return mk("floor", (a,), "I")


def imod(a, b):
    if isconst(a) and isconst(b) and cval(b) != 0:
        return num(int(cval(a)) % int(cval(b)))
    return mk("imod", (a, b), "I")


def idiv(a, b):
    if isconst(a) and isconst(b) and cval(b) != 0:
        return num(int(cval(a)) // int(cval(b)))
    return mk("idiv", (a, b), "I")


def powi(a, k):
    if k == 0:
        return num(1, a.sort)
    if k < 0:
        return inv(powi(a, -k))
    return mul(*([a] * k))


# ------------------------------------------------------------------ booleans
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "lt0":  # not (x < 0)  ==  -x <= 0
        return le0(neg(a.args[0]))
    if a.op == "le0":
        return lt0(neg(a.args[0]))
    return mk("not", (a,), "B")


def and_(*ts):
    out = {}
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        if t.op == "and":
            stack.extend(t.args)
        else:
            out[t] = 1
    for t in out:
        if not_(t) in out:
            return FALSE
    if not out:
        return TRUE
    l = sorted(out, key=lambda x: x.id)
    if len(l) == 1:
        return l[0]
    return mk("and", tuple(l), "B")


def or_(*ts):
    out = {}
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        if t.op == "or":
            stack.extend(t.args)
        else:
            out[t] = 1
    for t in out:
        if not_(t) in out:
            return TRUE
    if not out:
        return FALSE
    l = sorted(out, key=lambda x: x.id)
    if len(l) == 1:
        return l[0]
    return mk("or", tuple(l), "B")


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    if a.id > b.id:
        a, b = b, a
    return mk("iff", (a, b), "B")


def _norm_lin(x):
    """scale by positive rational so the first non-constant coefficient is +-1"""
    if x.op == "const":
        return x
    t = x.args[0] if x.op == "add" else x
    c, r = _coef(t)
    c = abs(c)
    if c in (0, 1):
        return x
    if x.sort == "I":
        # only divide when all divisible: keep simple
        return x
    return mul(mk("const", (1 / c,), "R"), x)


def le0(x):
    if x.op == "toreal":
        x = x.args[0]
    if x.op == "const":
        return boolc(x.args[0] <= 0)
    return mk("le0", (_norm_lin(x),), "B")


def lt0(x):
    if x.op == "toreal":
        x = x.args[0]
    if x.op == "const":
        return boolc(x.args[0] < 0)
    return mk("lt0", (_norm_lin(x),), "B")


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return lt0(sub(a, b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B":
        return iff(a, b)
    d = sub(a, b)
    if d.op == "const":
        return boolc(d.args[0] == 0)
    if d.op == "toreal":
        d = d.args[0]
    d = _norm_lin(d)
    # sign normal form
    t = d.args[0] if d.op == "add" else d
    c, _ = _coef(t)
    if c < 0:
        d = neg(d)
    return mk("eq0", (d,), "B")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B":
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    sort = a.sort
    if sort != "B":
        sort = "R" if "R" in (a.sort, b.sort) else "I"
        if a.sort != sort:
            a = toreal(a)
        if b.sort != sort:
            b = toreal(b)
        if a is b:
            return a
        if sort == "R":
            ia, ib = _unreal(a), _unreal(b)
            if ia is not None and ib is not None:
                return toreal(ite(c, ia, ib))
    if c.op == "not":
        return ite(c.args[0], b, a)
    # nested same condition
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", (c, a, b), sort)


def min_(a, b):
    return ite(le(a, b), a, b)


def max_(a, b):
    return ite(le(a, b), b, a)


def abs_(a):
    return ite(lt0(a), neg(a), a)


# ------------------------------------------------------------------ substitution
def subst(t, m):
    """m: dict var-term -> term"""
    if not m:
        return t
    memo = {}
    keys = list(m)

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t in m:
            r = m[t]
        else:
            ks = kids(t)
            if not ks:
                r = t
            else:
                nk = tuple(go(k) for k in ks)
                r = t if nk == ks else rebuild(t, nk)
        memo[t] = r
        return r

    return go(t)


def rebuild(t, nk):
    op = t.op
    if op == "app":
        return app(t.args[0], nk, t.sort)
    if op == "add":
        return add(*nk)
    if op == "mul":
        return mul(*nk)
    if op == "inv":
        return inv(nk[0])
    if op == "toreal":
        return toreal(nk[0])
    if op == "floor":
        return floor(nk[0])
    if op == "imod":
        return imod(*nk)
    if op == "idiv":
        return idiv(*nk)
    if op == "not":
        return not_(nk[0])
    if op == "and":
        return and_(*nk)
    if op == "or":
        return or_(*nk)
    if op == "iff":
        return iff(*nk)
    if op == "le0":
        return le0(nk[0])
    if op == "lt0":
        return lt0(nk[0])
    if op == "eq0":
        return eq(nk[0], num(0, nk[0].sort))
    if op == "ite":
        return ite(*nk)
    if op == "agg":
        kind, bv, ranges, bodies = t.args
        n = len(ranges)
        return mk("agg", (kind, bv, tuple(nk[:n]), tuple(nk[n:])), t.sort)
    raise AssertionError(op)


def bvar(level, pos):
    return var(f"%{level}_{pos}", "I")


_tmp = [0]


def tmpvar():
    _tmp[0] += 1
    return var(f"?{_tmp[0]}", "I")


def raw_agg(kind, tmps, ranges, bodies, sort):
    """build an aggregate binding the temporary variables `tmps`"""
    lvl = max([b.lvl for b in bodies] + [0]) + 1
    bv = tuple(bvar(lvl, i) for i in range(len(tmps)))
    m = dict(zip(tmps, bv))
    bodies = tuple(subst(b, m) for b in bodies)
    return mk("agg", (kind, bv, tuple(ranges), bodies), sort)


def deps(t, bvs):
    """does t mention one of the variables bvs (free)?"""
    for b in bvs:
        if b in t.fv:
            return True
    return False


def opened(t, names=None):
    """instantiate an aggregate's bound variables with fresh constants;
    returns (vars, ranges, bodies)"""
    kind, bv, ranges, bodies = t.args
    vs = [fresh("k", "I") for _ in bv]
    m = dict(zip(bv, vs))
    return vs, ranges, tuple(subst(b, m) for b in bodies)


UNROLL = 64


def agg_sum(ranges, fn):
    """sum over 0<=i<n for every range; fn(list of index terms) -> Real/Int term"""
    for j, n in enumerate(ranges):
        if isconst(n) and cval(n) <= UNROLL:
            rest = ranges[:j] + ranges[j + 1:]
            parts = []
            for v in range(int(cval(n))):
                parts.append(agg_sum(rest, lambda ix, v=v, j=j: fn(ix[:j] + [num(v)] + ix[j:])))
            return add(*parts) if parts else num(0, "R")
    if not ranges:
        return fn([])
    tmps = [tmpvar() for _ in ranges]
    body = fn(list(tmps))
    return sum_term(tmps, ranges, body)


def sum_term(tmps, ranges, body):
    """sum over tmps (0<=tmp<range) of body, in canonical form coef*agg"""
    tmps = list(tmps)
    ranges = list(ranges)
    if isconst(body) and cval(body) == 0:
        return num(0, body.sort)
    if body.op == "toreal":
        return toreal(sum_term(tmps, ranges, body.args[0]))
    used = [i for i, v in enumerate(tmps) if v in body.fv]
    if len(used) != len(tmps):
        # index does not occur: multiply by the range length
        c = [ranges[i] for i in range(len(tmps)) if i not in used]
        inner = sum_term([tmps[i] for i in used], [ranges[i] for i in used], body) if used else body
        return mul(inner, *c)
    coef, inner = pull(body, tmps)
    if not deps(inner, tmps):
        return mul(coef, inner, *ranges)
    if coef.op != "const" or cval(coef) != 1:
        return mul(coef, sum_term(tmps, ranges, inner))
    if inner.op == "agg" and inner.args[0] == "sum" and not any(deps(r, tmps) for r in inner.args[2]):
        nt = [tmpvar() for _ in inner.args[1]]
        return sum_term(
            tmps + nt,
            ranges + list(inner.args[2]),
            subst(inner.args[3][0], dict(zip(inner.args[1], nt))),
        )
    ordr = sorted(range(len(tmps)), key=lambda i: (ranges[i].id, _first_occ(inner, tmps[i])))
    tmps = [tmps[i] for i in ordr]
    ranges = [ranges[i] for i in ordr]
    bv = tuple(bvar(inner.lvl + 1, i) for i in range(len(tmps)))
    inner = subst(inner, dict(zip(tmps, bv)))
    coef, inner = pull(inner, bv)
    t = mk("agg", ("sum", bv, tuple(ranges), (inner,)), inner.sort)
    return mul(coef, t)


_occ_memo = {}


def _first_occ(body, v):
    """canonical position of first occurrence of v in a left-to-right walk that
    is insensitive to creation ids of v itself"""
    seen = set()
    pos = [0]

    def walk(t):
        if t is v:
            return True
        if t in seen or v not in t.fv:
            return False
        seen.add(t)
        for k in kids(t):
            pos[0] += 1
            if walk(k):
                return True
        return False

    walk(body)
    return pos[0]


def pull(body, tmps):
    """body = coef * inner with coef independent of tmps"""
    if not deps(body, tmps):
        return body, num(1, body.sort)
    if body.op == "mul":
        out, inn = [], []
        for f in body.args:
            c, i = pull(f, tmps)
            out.append(c)
            inn.append(i)
        return mul(*out), mul(*inn)
    if body.op == "toreal":
        c, i = pull(body.args[0], tmps)
        return toreal(c), toreal(i)
    if body.op == "ite":
        c, a, b = body.args
        if deps(c, tmps):
            if isconst(a) and cval(a) == 0:
                k, i = pull(b, tmps)
                return k, ite(c, num(0, i.sort), i)
            if isconst(b) and cval(b) == 0:
                k, i = pull(a, tmps)
                return k, ite(c, i, num(0, i.sort))
            k1, i1 = pull(a, tmps)
            k2, i2 = pull(b, tmps)
            if k1 is k2:
                return k1, ite(c, i1, i2)
        return num(1, "I"), body
    if body.op == "add":
        ks = [pull(x, tmps) for x in body.args]
        k0 = ks[0][0]
        if k0.op != "const" and all(k is k0 for k, _ in ks):
            return k0, add(*[i for _, i in ks])
        # common factors
        def facs(k):
            return list(k.args) if k.op == "mul" else [k]
        common = [f for f in facs(k0) if f.op != "const"]
        for k, _ in ks[1:]:
            fk = facs(k)
            nc = []
            for f in common:
                if f in fk:
                    nc.append(f)
                    fk.remove(f)
            common = nc
        k, p = primitive(body) if body.sort == "R" else (Fraction(1), body)
        if common:
            parts = []
            for (kk, ii) in ks:
                fk = facs(kk)
                for f in common:
                    fk.remove(f)
                parts.append(mul(*(fk + [ii])))
            inner = add(*parts)
            k, p = primitive(inner) if (inner.op == "add" and inner.sort == "R") else (Fraction(1), inner)
            return mul(mk("const", (k,), "R"), *common), p
        return mk("const", (k,), body.sort), p
    return num(1, "I"), body


def agg_bool(kind, ranges, fn):
    """kind 'all' or 'any'"""
    for j, n in enumerate(ranges):
        if isconst(n) and cval(n) <= UNROLL:
            rest = ranges[:j] + ranges[j + 1:]
            parts = [
                agg_bool(kind, rest, lambda ix, v=v, j=j: fn(ix[:j] + [num(v)] + ix[j:]))
                for v in range(int(cval(n)))
            ]
            return and_(*parts) if kind == "all" else or_(*parts)
    if not ranges:
        return fn([])
    tmps = [tmpvar() for _ in ranges]
    body = fn(list(tmps))
    if body is TRUE or body is FALSE:
        return body  # ranges are assumed non-empty
    used = [i for i, v in enumerate(tmps) if v in body.fv]
    if not used:
        return body
    ordr = sorted(used, key=lambda i: (ranges[i].id, _first_occ(body, tmps[i])))
    if kind == "any":
        return not_(raw_agg("all", [tmps[i] for i in ordr], [ranges[i] for i in ordr], [not_(body)], "B"))
    return raw_agg("all", [tmps[i] for i in ordr], [ranges[i] for i in ordr], [body], "B")


def agg_op(kind, ranges, fn, sort="R"):
    """opaque aggregate; fn(idx) -> list of body terms"""
    tmps = [tmpvar() for _ in ranges]
    bodies = fn(list(tmps))
    return raw_agg(kind, tmps, ranges, list(bodies), sort)


# ------------------------------------------------------------------ traversal
def subterms(ts):
    seen = set()
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        stack.extend(kids(t))
    return seen


def subterms_outer(ts):
    """subterms not under an aggregate binder (the aggregate itself included)"""
    seen = set()
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "agg":
            stack.extend(t.args[2])
            continue
        stack.extend(kids(t))
    return seen


# ------------------------------------------------------------------ printing
def show(t, depth=12):
    if depth <= 0:
        return "..."
    op = t.op
    d = depth - 1
    if op == "const":
        return str(t.args[0])
    if op == "var":
        return t.args[0]
    if op == "app":
        if len(t.args) == 1:
            return t.args[0]
        return f"{t.args[0]}({', '.join(show(a, d) for a in t.args[1:])})"
    if op == "add":
        return "(" + " + ".join(show(a, d) for a in t.args) + ")"
    if op == "mul":
        return "(" + "*".join(show(a, d) for a in t.args) + ")"
    if op == "agg":
        kind, bv, ranges, bodies = t.args
        rs = ", ".join(f"{b.args[0]}<{show(r, d)}" for b, r in zip(bv, ranges))
        return f"{kind}[{rs}]({'; '.join(show(b, d) for b in bodies)})"
    return f"{op}({', '.join(show(a, d) for a in t.args)})"


# ------------------------------------------------------------------ formal derivative
def diff(t, x, memo=None):
    """formal derivative of a ring term (add/mul/inv/const/var) with respect to the atom x"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    z = num(0, "R")
    if t is x:
        r = num(1, "R")
    elif t.op == "add":
        r = add(*[diff(a, x, memo) for a in t.args])
    elif t.op == "mul":
        parts = []
        for i, a in enumerate(t.args):
            d = diff(a, x, memo)
            if d.op == "const" and d.args[0] == 0:
                continue
            parts.append(mul(d, *(t.args[:i] + t.args[i + 1:])))
        r = add(*parts) if parts else z
    elif t.op == "inv":
        d = diff(t.args[0], x, memo)
        r = z if (d.op == "const" and d.args[0] == 0) else neg(mul(d, t, t))
    elif t.op == "toreal":
        r = toreal(diff(t.args[0], x, memo))
    elif x not in subterms([t]):
        r = z
    else:
        raise ValueError(f"derivative of {t.op}")
    memo[t] = r
    return r
