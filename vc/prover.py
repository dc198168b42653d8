"""Discharges verification conditions.

Back ends: z3 (SMT, non-linear real arithmetic + uninterpreted functions) and a
rational-function normal form for denominator-clearing (its result is handed to
z3 for confirmation).  Aggregates are eliminated before z3 sees a query: two
aggregates are merged only when their bodies are proved equal at a fresh index
(sum congruence); universally quantified atoms are instantiated / skolemised.
"""
import subprocess
import time
from fractions import Fraction
import z3
from . import terms as K

STAT = {"z3_calls": 0, "z3_time": 0.0, "ring": 0, "syntactic": 0, "linear": 0, "merge": 0, "merge_try": 0, "cvc5_agree": 0, "cvc5_unknown": 0, "cvc5_disagree": 0, "cvc5_time": 0.0, "z3_max": 0.0}


class Inputs:
    """facts about uninterpreted input functions, instantiated on demand"""

    def __init__(self):
        self.un = {}
        self.bi = {}
        self.globals = []

    def unary(self, f, cb):
        self.un.setdefault(f, []).append(cb)

    def binary(self, f, cb):
        self.bi.setdefault(f, []).append(cb)

    def fact(self, t):
        self.globals.append(t)


BUILTIN_AX = {}


def _ax(name):
    def deco(fn):
        BUILTIN_AX[name] = fn
        return fn

    return deco


@_ax("sqrt")
def _sqrt(t):
    x = t.args[1]
    z = K.num(0, "R")
    return [K.implies(K.ge(x, z), K.and_(K.ge(t, z), K.eq(K.mul(t, t), x)))]


@_ax("sin")
def _sin(t):
    return [K.le(t, K.num(1, "R")), K.ge(t, K.num(-1, "R"))]


_ax("cos")(_sin)


@_ax("pi")
def _pi(t):
    return [K.gt(t, K.num(Fraction("3.14159265358979"))), K.lt(t, K.num(Fraction("3.14159265358980")))]


@_ax("exp")
def _exp(t):
    return [K.gt(t, K.num(0, "R"))]


# ------------------------------------------------------------------ rational normal form
class TooBig(Exception):
    pass


LIMIT = 60000


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mm(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


def p_mul(a, b):
    if len(a) * len(b) > LIMIT:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mm(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


P1 = {(): Fraction(1)}


def ratnorm(t, memo):
    """(numerator, list of denominator factors) as polynomials over atoms"""
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op == "const":
        r = ({(): t.args[0]} if t.args[0] else {}, {})
    elif op == "add":
        parts = [ratnorm(a, memo) for a in t.args]
        den = {}
        for _, d in parts:
            for f, e in d.items():
                den[f] = max(den.get(f, 0), e)
        n = {}
        for pn, d in parts:
            q = pn
            for f, e in den.items():
                for _ in range(e - d.get(f, 0)):
                    q = p_mul(q, dict(f))
            n = p_add(n, q)
        r = (n, den)
    elif op == "mul":
        n = P1
        den = {}
        for a in t.args:
            pn, d = ratnorm(a, memo)
            n = p_mul(n, pn)
            for f, e in d.items():
                den[f] = den.get(f, 0) + e
        r = (n, den)
    elif op == "toreal":
        r = ratnorm(t.args[0], memo)
    elif op == "inv":
        pn, d = ratnorm(t.args[0], memo)
        n = P1
        for f, e in d.items():
            for _ in range(e):
                n = p_mul(n, dict(f))
        if not pn:
            r = ({((t, 1),): Fraction(1)}, {})
        elif len(pn) == 1 and () in pn:
            c = pn[()]
            r = ({m: v / c for m, v in n.items()}, {})
        else:
            # normalise leading coefficient
            key = tuple(sorted(pn.items(), key=lambda x: [(a.id, e) for a, e in x[0]]))
            lead = key[0][1]
            key = tuple((m, c / lead) for m, c in key)
            r = ({m: v / lead for m, v in n.items()}, {key: 1})
    else:
        r = ({((t, 1),): Fraction(1)}, {})
    memo[t] = r
    return r


def ring_zero(d):
    """is the term d identically zero as a rational function of its atoms
    (denominators assumed non-zero)?"""
    try:
        n, _ = ratnorm(d, {})
    except TooBig:
        return False
    return not n


def monomials(t):
    """t as a list of terms without sums inside products"""
    if t.op == "toreal" and t.args[0].op in ("add", "mul"):
        t = t.args[0]
    if t.op == "add":
        return [m for a in t.args for m in monomials(a)]
    if t.op == "mul":
        out = [K.num(1, "R")]
        for f in t.args:
            out = [K.mul(a, b) for a in out for b in monomials(f)]
            if len(out) > 16:
                return out
        return out
    return [K.toreal(t)]


def trig_expansions(ts, cap=4):
    """addition theorems for the sines and cosines of sums among the terms"""
    m = {}

    def sc(ms):
        if len(ms) == 1:
            a = ms[0]
            c, r = K._coef(a)
            n = K.neg(a) if c < 0 else a
            s = K.app("sin", (n,), "R")
            return (K.neg(s) if c < 0 else s), K.app("cos", (n,), "R")
        (s1, c1), (s2, c2) = sc(ms[:1]), sc(ms[1:])
        return K.add(K.mul(s1, c2), K.mul(c1, s2)), K.add(K.mul(c1, c2), K.neg(K.mul(s1, s2)))

    for t in K.subterms(ts):
        if t.op == "app" and t.args[0] in ("sin", "cos"):
            ms = monomials(K.add(*monomials(t.args[1])))
            if 1 < len(ms) <= cap:
                s, c = sc(sorted(ms, key=lambda x: x.id))
                m[t] = s if t.args[0] == "sin" else c
    return m


def split_cases(t, cap=24):
    """[(conditions, ite-free arithmetic term)] covering t, or None when too many"""
    out = []
    todo = [([], t)]
    while todo:
        conds, u = todo.pop()
        c = _first_ite(u)
        if c is None:
            out.append((conds, u))
            if len(out) + len(todo) > cap:
                return None
            continue
        for v, b in ((K.TRUE, True), (K.FALSE, False)):
            cc = c if b else K.not_(c)
            if any(K.not_(x) is cc for x in conds):
                continue
            todo.append((conds + [cc], _resolve(u, c, b, {})))
    return out


ARITH = ("add", "mul", "inv", "toreal", "ite")


def _first_ite(t):
    seen = set()
    st = [t]
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == "ite":
            return u.args[0]
        if u.op in ARITH:
            st.extend(u.args)
    return None


def _resolve(t, c, b, memo):
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "ite" and t.args[0] is c:
        r = _resolve(t.args[1] if b else t.args[2], c, b, memo)
    elif t.op == "ite":
        r = K.ite(t.args[0], _resolve(t.args[1], c, b, memo), _resolve(t.args[2], c, b, memo))
    elif t.op == "add":
        r = K.add(*[_resolve(x, c, b, memo) for x in t.args])
    elif t.op == "mul":
        r = K.mul(*[_resolve(x, c, b, memo) for x in t.args])
    elif t.op == "inv":
        r = K.inv(_resolve(t.args[0], c, b, memo))
    elif t.op == "toreal":
        r = K.toreal(_resolve(t.args[0], c, b, memo))
    else:
        r = t
    memo[t] = r
    return r


def leaf_ratio(x, y):
    """constant q with x = q*y suggested by the first non-zero leaves"""
    cx, cy = split_cases(x), split_cases(y)
    if cx is None or cy is None:
        return None
    for _, u in cx:
        for _, v in cy:
            try:
                n, d = ratnorm(K.toreal(u), {})
                m, e = ratnorm(K.toreal(v), {})
            except TooBig:
                return None
            if not n or not m or len(n) != len(m) or d != e:
                continue
            k = next(iter(n))
            if k not in m:
                continue
            q = n[k] / m[k]
            if all(a in m and n[a] == q * m[a] for a in n):
                return q
    return None


def numer_key(t):
    """numerator of a term as a rational function, up to a constant factor"""
    try:
        n, _ = ratnorm(K.toreal(t), {})
    except TooBig:
        return None
    if not n:
        return None
    key = tuple(sorted(n.items(), key=lambda x: [(a.id, e) for a, e in x[0]]))
    lead = key[0][1]
    return tuple((m, c / lead) for m, c in key)


# ------------------------------------------------------------------ z3 translation
_TR = {False: {}, True: {}}  # terms are hash-consed, so their translations are shared


class Z:
    def __init__(self, abstract=False):
        self.abstract = abstract  # products and reciprocals as uninterpreted functions
        self.nonlinear = False
        self.memo = {}
        self.side = []
        self.aggs = {}
        self.uf = {}

    def srt(self, s):
        return {"B": z3.BoolSort(), "I": z3.IntSort(), "R": z3.RealSort()}[s]

    def tr(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        G = _TR[self.abstract]
        # iterative postorder to avoid recursion limits
        stack = [(t, False)]
        while stack:
            u, done = stack.pop()
            if u in self.memo:
                continue
            if done:
                e = G.get(u)
                if e is None:
                    e = G[u] = self._one(u)
                self.memo[u] = e
                if u.op == "inv":
                    self.nonlinear = True
                    if not self.abstract:
                        b = self._real(u.args[0])
                        self.side.append(z3.If(b == 0, e == 0, e * b == 1))
                elif u.op == "mul":
                    if sum(a.op != "const" for a in u.args) > 1:
                        self.nonlinear = True
                elif u.op == "agg":
                    self.aggs[u] = e
            else:
                stack.append((u, True))
                ks = u.args[2] if u.op == "agg" else K.kids(u)
                for k in ks:
                    if k not in self.memo:
                        stack.append((k, False))
        return self.memo[t]

    def _real(self, t):
        e = self.memo[t]
        return z3.ToReal(e) if t.sort == "I" else e

    def _one(self, t):
        op = t.op
        g = self.memo.__getitem__
        if op == "const":
            v = t.args[0]
            if t.sort == "B":
                return z3.BoolVal(v)
            if t.sort == "I":
                return z3.IntVal(int(v))
            return z3.RealVal(f"{v.numerator}/{v.denominator}")
        if op == "var":
            return z3.Const(t.args[0], self.srt(t.sort))
        if op == "app":
            f, a = t.args[0], t.args[1:]
            if not a:
                return z3.Const("c_" + f, self.srt(t.sort))
            key = (f, tuple(x.sort for x in a), t.sort)
            d = self.uf.get(key)
            if d is None:
                d = z3.Function(f, *[self.srt(x.sort) for x in a], self.srt(t.sort))
                self.uf[key] = d
            return d(*[g(x) for x in a])
        if op == "add":
            if t.sort == "R":
                return z3.Sum([self._real(a) for a in t.args])
            return z3.Sum([g(a) for a in t.args])
        if op == "mul":
            es = [self._real(a) for a in t.args] if t.sort == "R" else [g(a) for a in t.args]
            nc = [i for i, a in enumerate(t.args) if a.op != "const"]
            if len(nc) > 1:
                if self.abstract and t.sort == "R":
                    f = z3.Function(f"mul${len(nc)}", *[z3.RealSort()] * (len(nc) + 1))
                    v = f(*[es[i] for i in nc])
                    for i in range(len(es)):
                        if i not in nc:
                            v = es[i] * v
                    return v
            r = es[0]
            for e in es[1:]:
                r = r * e
            return r
        if op == "toreal":
            return z3.ToReal(g(t.args[0]))
        if op == "floor":
            return z3.ToInt(g(t.args[0]))
        if op == "imod":
            return g(t.args[0]) % g(t.args[1])
        if op == "idiv":
            return g(t.args[0]) / g(t.args[1])
        if op == "inv":
            if self.abstract:
                return z3.Function("inv$", z3.RealSort(), z3.RealSort())(self._real(t.args[0]))
            return z3.Real(f"inv${t.id}")
        if op == "not":
            return z3.Not(g(t.args[0]))
        if op == "and":
            return z3.And([g(a) for a in t.args])
        if op == "or":
            return z3.Or([g(a) for a in t.args])
        if op == "iff":
            return g(t.args[0]) == g(t.args[1])
        if op == "le0":
            return g(t.args[0]) <= 0
        if op == "lt0":
            return g(t.args[0]) < 0
        if op == "eq0":
            return g(t.args[0]) == 0
        if op == "ite":
            c, a, b = t.args
            if t.sort == "R":
                return z3.If(g(c), self._real(a), self._real(b))
            return z3.If(g(c), g(a), g(b))
        if op == "agg":
            return z3.Const(f"agg${t.id}", self.srt(t.sort))
        raise AssertionError(op)


# ------------------------------------------------------------------ the prover
class Result:
    def __init__(self, status, backend, model=None, zz=None, note=""):
        self.status = status  # proved / refuted / unknown
        self.backend = backend
        self.model = model
        self.zz = zz
        self.note = note

    def __bool__(self):
        return self.status == "proved"


_SY = {}


def _syms(t):
    """integer symbols of a purely integer fact (empty for any other fact)"""
    r = _SY.get(t)
    if r is None:
        out = set()
        for u in K.subterms([t]):
            if u.sort == "R":
                out = set()
                break
            if u.op == "var":
                out.add(u)
            elif u.op == "app":
                out.add(u.args[0])
        r = _SY[t] = frozenset(out)
    return r


class Prover:
    def __init__(self, inputs=None, timeout_ms=8000):
        self.inputs = inputs or Inputs()
        self.timeout = timeout_ms
        self.cache = {}
        self.cross = False
        self.dump = None  # optional list collecting SMT-LIB scripts

    # ---- merging of aggregates
    def merge(self, facts, ts, depth):
        """substitution mapping aggregates to a provably equal representative"""
        aggs = sorted(
            (t for t in K.subterms_outer(ts) if t.op == "agg"), key=lambda t: (t.lvl, t.id)
        )
        groups = {}
        m = {}
        for a in aggs:
            kind, bv, ranges, bodies = a.args
            key = (kind, len(bv), len(bodies), a.sort)
            reps = groups.setdefault(key, [])
            for r in reps:
                q = self.agg_equal(facts, a, r, depth)
                if q:
                    m[a] = r if q == 1 else K.mul(K.num(q, "R"), K.toreal(r))
                    STAT["merge"] += 1
                    break
            else:
                reps.append(a)
        return m

    def agg_equal(self, facts, a, b, depth):
        """the ratio a/b when it is a provable constant, else None (always 1 unless a sum)"""
        if a is b:
            return 1
        if depth > 4:
            return None
        kind, bva, ra, ba = a.args
        _, bvb, rb, bb = b.args
        STAT["merge_try"] += 1
        perms = [list(range(len(bva)))]
        if kind.startswith("argmin:"):
            pass
        elif len(bva) == 2:
            perms.append([1, 0])
        elif len(bva) == 3:
            perms = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]
        for pm in perms:
            rb2 = [rb[p] for p in pm]
            if any(
                x is not y and not self.same_range(facts, x, y, depth)
                for x, y in zip(ra, rb2)
            ):
                continue
            vs = [K.var(f"k!{a.id}_{b.id}_{i}", "I") for i in range(len(bva))]  # determined by the pair: proofs are shared
            ma = dict(zip(bva, vs))
            mb = {bvb[p]: v for p, v in zip(pm, vs)}
            f2 = list(facts)
            for v, r in zip(vs, ra):
                f2 += [K.ge(v, K.num(0)), K.lt(v, r)]
            ok = True
            ratio = 1
            for x, y in zip(ba, bb):
                x = K.subst(x, ma)
                y = K.subst(y, mb)
                if x is y:
                    continue
                if kind == "sum" and a.sort == "R" and len(ba) == 1:
                    q = leaf_ratio(x, y)
                    if q is not None and q != 1:
                        if self.prove(f2, K.eq(x, K.mul(K.num(q, "R"), y)), depth + 1, quick=True):
                            ratio = q
                            continue
                if not self.prove(f2, K.eq(x, y), depth + 1, quick=True):
                    ok = False
                    break
            if ok:
                return ratio
        return None

    def same_range(self, facts, x, y, depth):
        """equality of index ranges; aggregate-free ranges need only the integer facts they share symbols with"""
        goal = K.eq(x, y)
        if goal is K.TRUE:
            return True
        if x.lvl or y.lvl:
            return self.prove(facts, goal, depth + 1, quick=True)
        syms = set(_syms(goal))
        cand = [f for f in facts if f.lvl == 0 and _syms(f)]
        keep, grew = [], True
        while grew:
            grew = False
            rest = []
            for f in cand:
                if syms & _syms(f):
                    keep.append(f)
                    syms |= _syms(f)
                    grew = True
                else:
                    rest.append(f)
            cand = rest
        return self.prove(sorted(keep), goal, 2, quick=True)

    # ---- main entry
    in_trig = False

    def prove(self, facts, goal, depth=0, quick=False):
        if goal is K.TRUE:
            STAT["syntactic"] += 1
            return Result("proved", "syntactic")
        key = (frozenset(facts), goal, quick)
        r = self.cache.get(key)
        if r is None:
            r = self._prove(list(facts), goal, depth, quick)
            if r.status != "proved" and not self.in_trig:
                m = trig_expansions([goal])
                if m:
                    self.in_trig = True
                    try:
                        r2 = self._prove([K.subst(f, m) for f in facts], K.subst(goal, m), max(depth, 1), quick)
                    finally:
                        self.in_trig = False
                    if r2.status == "proved":
                        r = r2
            self.cache[key] = r
        return r

    def _prove(self, facts, goal, depth, quick):
        if goal in facts:
            return Result("proved", "syntactic")
        if goal.op == "eq0" and ring_zero(goal.args[0]):
            STAT["ring"] += 1
            return Result("proved", "ring")
        m = self.merge(facts, facts + [goal], depth)
        if m:
            facts = [K.subst(f, m) for f in facts]
            goal = K.subst(goal, m)
            if goal is K.TRUE:
                return Result("proved", "congruence")
            if goal.op == "eq0" and ring_zero(goal.args[0]):
                STAT["ring"] += 1
                return Result("proved", "ring")
        if goal.op == "eq0" and self.by_cases(facts, goal.args[0]):
            STAT["ring"] += 1
            return Result("proved", "ring+cases")
        r = self.smt(facts + [K.not_(goal)], quick)
        if r.status == "unsat":
            return Result("proved", "z3")
        if goal.op == "eq0" and depth < 2 and self.by_linear(facts, goal.args[0], depth):
            return Result("proved", "linearity of sums")
        if r.status == "sat":
            if not quick and depth == 0:
                # second attempt with sign facts about sums
                extra = self.sum_facts(facts, facts + [goal], depth)
                if extra:
                    r2 = self.smt(facts + extra + [K.not_(goal)], quick)
                    if r2.status == "unsat":
                        return Result("proved", "z3")
                    if r2.status == "sat":
                        return Result("refuted", "z3", r2.model, r2.zz)
            return Result("refuted", "z3", r.model, r.zz)
        return Result("unknown", "z3", note=r.note)

    def by_cases(self, facts, d):
        """d = 0, splitting on the conditions of its conditional expressions"""
        if not any(t.op == "inv" for t in K.subterms([d])):
            return False  # polynomial: z3 decides it directly
        cs = split_cases(d)
        if cs is None or len(cs) < 2:
            return False
        for conds, leaf in cs:
            if ring_zero(leaf):
                continue
            if K.FALSE in conds:
                continue
            q = self.smt(facts + conds, True)
            if q.status != "unsat":
                return False
        return True

    def by_linear(self, facts, d, depth):
        """d = 0 for d linear in sums over the same index ranges: the combined summand is zero at every index"""
        ms = monomials(d)
        if len(ms) > 12:
            return False
        groups, rest = {}, []
        for m in ms:
            fs = list(m.args) if m.op == "mul" else [m]
            at = [i for i, f in enumerate(fs) if (f.args[0] if f.op == "toreal" else f).op == "agg" and (f.args[0] if f.op == "toreal" else f).args[0] == "sum"]
            if len(at) != 1:
                rest.append(m)
                continue
            a = fs.pop(at[0])
            a = a.args[0] if a.op == "toreal" else a
            groups.setdefault(a.args[2], []).append((K.mul(K.num(1, "R"), *map(K.toreal, fs)), a))
        if not any(len(g) > 1 for g in groups.values()) or any(len(g) < 2 for g in groups.values()):
            return False
        if rest and not self.prove(facts, K.eq(K.add(*rest), K.num(0, "R")), depth + 1, quick=True):
            return False
        for ranges, g in groups.items():
            vs = [K.fresh("k", "I") for _ in ranges]
            f2 = list(facts)
            for v, r in zip(vs, ranges):
                f2 += [K.ge(v, K.num(0)), K.lt(v, r)]
            tot = K.add(*(K.mul(c, K.toreal(K.subst(a.args[3][0], dict(zip(a.args[1], vs))))) for c, a in g))
            if not self.prove(f2, K.eq(tot, K.num(0, "R")), depth + 1, quick=True):
                return False
        STAT["linear"] += 1
        return True

    def sat(self, facts, t):
        """is facts /\\ t satisfiable?  (unknown counts as satisfiable)"""
        if t is K.FALSE:
            return False
        key = ("sat", frozenset(facts), t)
        r = self.cache.get(key)
        if r is None:
            fs = list(facts) + [t]
            m = self.merge(list(facts), fs, 1)
            if m:
                fs = [K.subst(f, m) for f in fs]
            if K.FALSE in fs:
                r = False
            else:
                q = self.smt(fs, True)
                r = q.status != "unsat"
                if r:
                    extra = self.sum_facts(list(facts), fs, 1)
                    if extra:
                        r = self.smt(fs + extra, True).status != "unsat"
            self.cache[key] = r
        return r

    def sum_facts(self, facts, ts, depth):
        out = []
        for a in K.subterms_outer(ts):
            if a.op == "agg" and a.args[0] == "sum":
                vs, ranges, bodies = K.opened(a)
                f2 = list(facts)
                for v, r in zip(vs, ranges):
                    f2 += [K.ge(v, K.num(0)), K.lt(v, r)]
                z = K.num(0, bodies[0].sort)
                if self.prove(f2, K.gt(bodies[0], z), depth + 1, True):
                    out.append(K.gt(a, z))
                elif self.prove(f2, K.ge(bodies[0], z), depth + 1, True):
                    out.append(K.ge(a, z))
        return out

    # ---- instantiate + call z3
    def smt(self, fs, quick):
        facts = list(fs) + list(self.inputs.globals)
        done_un = set()
        done_bi = set()
        done_ax = set()
        skolem = set()
        inst = set()
        allf = list(dict.fromkeys(facts))
        for rnd in range(4):
            subs = K.subterms_outer(allf)
            new = []
            apps = {}
            for t in sorted(x for x in K.subterms(allf) if x.op == "app" and not x.fv):
                if t.op == "app":
                    apps.setdefault(t.args[0], []).append(t)
                    ax = BUILTIN_AX.get(t.args[0])
                    if ax and t not in done_ax:
                        done_ax.add(t)
                        new += ax(t)
            for f, cbs in self.inputs.un.items():
                for t in apps.get(f, ()):
                    if t not in done_un:
                        done_un.add(t)
                        for cb in cbs:
                            new.append(cb(*t.args[1:]))
            for f, cbs in self.inputs.bi.items():
                l = sorted(apps.get(f, ()))
                for i, t in enumerate(l):
                    for u in l:
                        if t is u or (t, u) in done_bi:
                            continue
                        done_bi.add((t, u))
                        for cb in cbs:
                            new.append(cb(t.args[1:], u.args[1:]))
            for t in subs:
                if t.op == "agg" and t.args[0] == "all":
                    kind, bv, ranges, bodies = t.args
                    if t not in skolem:
                        skolem.add(t)
                        vs, rg, bd = K.opened(t)
                        w = [K.not_(bd[0])]
                        for v, r in zip(vs, rg):
                            w += [K.ge(v, K.num(0)), K.lt(v, r)]
                        new.append(K.or_(t, K.and_(*w)))
                    ends = [(K.num(0),), (K.sub(ranges[0], K.num(1)),)] if len(bv) == 1 else []
                    for binding in ends + list(self.match(bodies[0], bv, apps)):
                        key = (t, binding)
                        if key in inst:
                            continue
                        inst.add(key)
                        m = dict(zip(bv, binding))
                        g = []
                        for v, r in zip(binding, ranges):
                            g += [K.ge(v, K.num(0)), K.lt(v, r)]
                        new.append(K.or_(K.not_(t), K.not_(K.and_(*g)), K.subst(bodies[0], m)))
                elif t.op == "agg" and t.args[0] in ("max", "min") and t not in skolem:
                    # bodies: (in-domain guard, value)
                    skolem.add(t)
                    vs, rg, bd = K.opened(t)
                    w = [bd[0], K.eq(t, bd[1])]
                    for v, r in zip(vs, rg):
                        w += [K.ge(v, K.num(0)), K.lt(v, r)]
                    none = K.agg_bool("all", rg, lambda ix: K.not_(K.subst(bd[0], dict(zip(vs, ix)))))
                    new.append(K.or_(none, K.and_(*w)))
                elif t.op == "agg" and t.args[0].startswith("argmin:") and t not in skolem:
                    # the chosen element is in the domain and attains the minimum
                    _, bv, ranges, bodies = t.args
                    sib = [K.mk("agg", (f"argmin:{j}", bv, ranges, bodies), "I") for j in range(len(bv))]
                    skolem.update(sib)
                    m = dict(zip(bv, sib))
                    low = K.mk("agg", ("min", bv, ranges, bodies), "R")
                    w = [K.subst(bodies[0], m), K.eq(low, K.subst(bodies[1], m))]
                    for v, r in zip(sib, ranges):
                        w += [K.ge(v, K.num(0)), K.lt(v, r)]
                    vs, rg, bd = K.opened(t)
                    none = K.agg_bool("all", rg, lambda ix: K.not_(K.subst(bd[0], dict(zip(vs, ix)))))
                    new.append(K.or_(none, K.and_(*w)))
                if t.op == "agg" and t.args[0] in ("max", "min"):
                    kind, bv, ranges, bodies = t.args
                    # an extreme index (body: the bound variable itself) is compared at the indices of its guard
                    pat = bodies[0] if len(bv) == 1 and bodies[1] is bv[0] else bodies[1]
                    for binding in self.match(pat, bv, apps):
                        key = (t, binding)
                        if key in inst:
                            continue
                        inst.add(key)
                        m = dict(zip(bv, binding))
                        g = [K.subst(bodies[0], m)]
                        for v, r in zip(binding, ranges):
                            g += [K.ge(v, K.num(0)), K.lt(v, r)]
                        val = K.subst(bodies[1], m)
                        c = K.le(val, t) if kind == "max" else K.le(t, val)
                        new.append(K.implies(K.and_(*g), c))
            new = [n for n in new if n is not K.TRUE and n not in allf]
            if not new:
                break
            allf += list(dict.fromkeys(new))
        if K.FALSE in allf:
            return _S("unsat")
        zz = Z()
        es = [zz.tr(f) for f in allf]
        s = z3.Solver()
        s.set("timeout", 2500 if quick else self.timeout)
        s.set("random_seed", 7)
        s.add(*es)
        s.add(*zz.side)
        if zz.nonlinear:
            # refutation with products abstracted is a refutation
            za = Z(abstract=True)
            sa = z3.Solver()
            sa.set("timeout", 1500)
            sa.set("random_seed", 7)
            sa.add(*[za.tr(f) for f in allf])
            t0 = time.time()
            r = sa.check()
            STAT["z3_calls"] += 1
            STAT["z3_time"] += time.time() - t0
            if r == z3.unsat:
                STAT["z3_max"] = max(STAT["z3_max"], time.time() - t0)
                return self.crosscheck(sa, quick)
        if self.dump is not None:
            self.dump.append(s.to_smt2())
        t0 = time.time()
        r = s.check()
        STAT["z3_calls"] += 1
        STAT["z3_time"] += time.time() - t0
        if r == z3.unsat:
            STAT["z3_max"] = max(STAT["z3_max"], time.time() - t0)
            return self.crosscheck(s, quick)
        if r == z3.sat:
            return _S("sat", s.model(), zz)
        return _S("unknown", note=s.reason_unknown())

    def crosscheck(self, s, quick):
        """thorough tier: a second solver on every top-level refutation"""
        if quick or not self.cross:
            return _S("unsat")
        t0 = time.time()
        try:
            p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=8000", "-"], input="(set-logic ALL)\n" + s.to_smt2(), capture_output=True, text=True, timeout=20)
            o = p.stdout.strip().splitlines()[:1]
        except (OSError, subprocess.SubprocessError):
            o = []
        STAT["cvc5_time"] += time.time() - t0
        if o == ["unsat"]:
            STAT["cvc5_agree"] += 1
        elif o == ["sat"]:
            STAT["cvc5_disagree"] += 1
            return _S("unknown", note="cvc5 disagrees with z3")
        else:
            STAT["cvc5_unknown"] += 1
        return _S("unsat")

    def match(self, body, bv, apps):
        """bindings of bv to ground index terms, by matching input applications"""
        outs = set()
        for t in sorted(x for x in K.subterms([body]) if x.op == "app"):
            if len(t.args) < 2:
                continue
            if not all(b in t.args[1:] for b in bv):
                continue
            for g in apps.get(t.args[0], ()):
                if g is t:
                    continue
                bind = {}
                ok = True
                for x, y in zip(t.args[1:], g.args[1:]):
                    if x in bv:
                        if bind.get(x, y) is not y:
                            ok = False
                            break
                        bind[x] = y
                if ok and not any(K.deps(b, bv) for b in bind.values()):
                    outs.add(tuple(bind[b] for b in bv))
        return sorted(outs, key=lambda b: [x.id for x in b])


class _S:
    def __init__(self, status, model=None, zz=None, note=""):
        self.status = status
        self.model = model
        self.zz = zz
        self.note = note
