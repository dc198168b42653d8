"""Contract vocabulary shared by the deductive back end (symbolic) and the
replay back end (real code, concrete inputs).  A scenario is a function
scn(S) -> Case; S supplies inputs, operators and quantified aggregates."""

ANY = object()


class Raises:
    """the call raises one of the named exception types"""

    def __init__(self, *types):
        self.types = types or ("Exception",)


class Arr:
    """array-valued result: fn(*indices in the order of dims) -> element"""

    def __init__(self, dims, fn, attrs=None, name=ANY, coords=None, ordered=False, kind="da", no_coords=(), exact_attrs=None, labels=None, dtype=None, encoding=None):
        self.dims = list(dims)
        self.fn = fn
        self.attrs = attrs or {}
        self.name = name
        self.coords = coords or {}
        self.ordered = ordered
        self.kind = kind  # da | np | scalar (0-d array or number)
        self.no_coords = no_coords
        self.exact_attrs = exact_attrs
        self.dtype = dtype
        self.encoding = encoding  # the complete encoding
        self.labels = labels or {}  # coordinate name -> list of strings


class DS:
    def __init__(self, vars, exact=False, attrs=None, coords=None, order=None, encoding=None):
        self.order = order  # names of the data variables in order
        self.encoding = encoding
        self.vars = vars
        self.exact = exact
        self.attrs = attrs or {}
        self.coords = coords or {}


class Table:
    """pandas table: rows in order over `rows` (an axis or a subset of one), columns
    name -> fn(row), row labels index(row)"""

    def __init__(self, rows, cols, index=None, no_cols=(), exact=None):
        self.rows, self.cols, self.index = rows, dict(cols), index
        self.no_cols = no_cols
        self.exact = exact  # complete set of column names


class Fam:
    """Dataset with one variable per row: name(row) and Arr arr(row)"""

    def __init__(self, rows, name, arr):
        self.rows, self.name, self.arr = rows, name, arr


class Tup:
    def __init__(self, *items):
        self.items = items


class Py:
    """plain Python value (string, bool, list of strings, None ...)"""

    def __init__(self, value):
        self.value = value


class Obj:
    """result must be this very object (by repository name)"""

    def __init__(self, target):
        self.target = target


class Anything:
    """no claim on the result itself"""


class Words:
    """a string made of these blank-separated words"""

    def __init__(self, s):
        self.words = s.split()

    def ok(self, got):
        return isinstance(got, str) and got.split() == self.words

    def __repr__(self):
        return repr(" ".join(self.words))


class Either:
    """one of several acceptable element values (region of a recorded defect:
    the recorded value or the correct one)"""

    def __init__(self, *vals):
        self.vals = vals


class Case:
    def __init__(self, target, args=(), kwargs=None, expect=None, atol=0.0, rtol=1e-9, post=None, pre=None, call=None, known=None, illcond=False, lemmas=None):
        self.lemmas = lemmas  # fn(S) -> [(label, facts, goal)]: consequences of the contract, proved on their own
        self.target = target
        self.args = list(args)
        self.kwargs = dict(kwargs or {})
        if not isinstance(expect, list):
            expect = [(None, expect)]
        self.expect = expect  # ordered list of (condition or None, outcome)
        self.atol = atol
        self.rtol = rtol
        self.srel = 1e-9  # runtime tolerance relative to the largest element
        self.post = post  # extra list of (label, fn(S, result) -> bool)
        self.pre = pre or []
        self.illcond = illcond  # runtime: skip elements decided by rounding only
        self.call = call  # optional fn(S, mod) -> result, for compositions of repository functions
        self.known = known  # known-finding tag: condition under which the listed defect applies


SCN = {}


def scenario(prop, name=None, trials=1.0, also=(), symbolic=True, runtime=True, weight=1, frame=True):
    """register a scenario under a property (and the frame property)"""

    def deco(fn_):
        n = name or fn_.__name__

        def fn(S):
            S.prop = prop
            return fn_(S)

        for p in (prop,) + tuple(also):
            SCN.setdefault(p, {})[n] = dict(fn=fn, trials=trials, symbolic=symbolic, runtime=runtime, name=n, weight=weight, frame=frame)
        return fn_

    return deco


def register(prop, name, fn, **k):
    scenario(prop, name, **k)(fn)


FINDINGS = {}


def finding(prop, key):
    """a recorded genuine defect: the scenario replays the failing input"""

    def deco(fn):
        FINDINGS.setdefault(prop, {})[key] = dict(fn=fn, trials=1.0, symbolic=False, runtime=True, name=key, weight=1)
        return fn

    return deco


def shape_of(o):
    """contents of a plain container: nested containers copied, other values by identity"""
    if isinstance(o, (list, tuple)):
        return (type(o), [shape_of(x) for x in o])
    if isinstance(o, dict):
        return (dict, [(k, shape_of(v)) for k, v in o.items()])
    if isinstance(o, set):
        return (set, sorted(map(repr, o)))
    return o


def same_shape(o, s):
    t = shape_of(o)

    def eq(a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2 and isinstance(a[1], list) and isinstance(b[1], list):
            return a[0] is b[0] and len(a[1]) == len(b[1]) and all(eq(x, y) for x, y in zip(a[1], b[1]))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 2:
            return a[0] == b[0] and eq(a[1], b[1])
        return a is b or (type(a) is type(b) and isinstance(a, (str, int, float, bool)) and a == b)

    return eq(t, s)


def ints(fn, *names):
    """the scenario with integer-typed (never missing) data in the named arrays"""

    def scn(S):
        S.ints = set(names)
        return fn(S)

    return scn


def single(fn, *names):
    """the scenario with single-precision data in the named arrays (all of them, if none is
    named); the numbers are still reals for the proof, and the runtime comparison allows for
    the coarser rounding"""

    def scn(S):
        S.f32 = set(names) or True
        c = fn(S)
        c.rtol, c.srel, c.illcond = max(c.rtol, 1e-2), 1e-3, True
        return c

    return scn


def lazy(fn, *whole):
    """the scenario with every labelled input chunked (dask), with one chunk along the named
    dimensions where the library accepts no more"""

    def scn(S):
        S.lazy, S.onechunk = True, whole
        return fn(S)

    return scn
