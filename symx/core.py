"""Path state, symbolic values and forking.

A *variable* is an unknown integer (a code point, a choice or a plain integer).  Each path keeps
  * dom[v]   the set of values of v still possible judging by single-variable constraints,
  * alias    variables known to be equal to another one,
  * rel      all other (relational) constraints, as Z3 formulas.
A branch on a symbolic condition forks the path when both outcomes are feasible: judged by the
domains when the variables involved occur in no relational constraint (then domains are exact), by
Z3 otherwise.  Paths are re-executed from a prefix of decisions.
"""
import operator
import os
import sys
import codecs
import time
import z3

sys.setrecursionlimit(6000)
MAXC = 0x10FFFF


class CharSet:
    """A set of integers as sorted disjoint closed intervals."""
    __slots__ = ("iv",)

    def __init__(self, iv):
        self.iv = iv

    @staticmethod
    def of(chars):
        return CharSet.from_points([ord(c) if isinstance(c, str) else c for c in chars])

    @staticmethod
    def from_points(pts):
        out = []
        for p in sorted(set(pts)):
            if out and out[-1][1] == p - 1:
                out[-1] = (out[-1][0], p)
            else:
                out.append((p, p))
        return CharSet(tuple(out))

    @staticmethod
    def from_ranges(rs):
        out = []
        for lo, hi in sorted(rs):
            if out and lo <= out[-1][1] + 1:
                if hi > out[-1][1]:
                    out[-1] = (out[-1][0], hi)
            else:
                out.append((lo, hi))
        return CharSet(tuple(out))

    def __bool__(self):
        return bool(self.iv)

    def __and__(self, o):
        a, b, i, j, out = self.iv, o.iv, 0, 0, []
        while i < len(a) and j < len(b):
            lo = a[i][0] if a[i][0] > b[j][0] else b[j][0]
            hi = a[i][1] if a[i][1] < b[j][1] else b[j][1]
            if lo <= hi:
                out.append((lo, hi))
            if a[i][1] < b[j][1]:
                i += 1
            else:
                j += 1
        return CharSet(tuple(out))

    def __sub__(self, o):
        out = []
        b = o.iv
        for lo, hi in self.iv:
            for blo, bhi in b:
                if bhi < lo:
                    continue
                if blo > hi:
                    break
                if blo > lo:
                    out.append((lo, blo - 1))
                lo = bhi + 1
                if lo > hi:
                    break
            if lo <= hi:
                out.append((lo, hi))
        return CharSet(tuple(out))

    def __or__(self, o):
        return CharSet.from_ranges(self.iv + o.iv)

    def shift(self, k):
        return self if not k else CharSet(tuple((a + k, b + k) for a, b in self.iv))

    def has(self, x):
        for lo, hi in self.iv:
            if lo <= x <= hi:
                return True
            if x < lo:
                return False
        return False

    @property
    def single(self):
        iv = self.iv
        if len(iv) == 1 and iv[0][0] == iv[0][1]:
            return iv[0][0]
        return None

    def size(self):
        return sum(b - a + 1 for a, b in self.iv)

    def __eq__(self, o):
        return self.iv == o.iv

    def __hash__(self):
        return hash(self.iv)

    def __repr__(self):
        return "CharSet(" + ",".join(f"{a:x}-{b:x}" for a, b in self.iv[:8]) + ")"


ALL = CharSet(((0, 0xD7FF), (0xE000, MAXC)))
LINE = ALL - CharSet.of("\n")
ASCII = CharSet(((0, 127),))
PRINT = CharSet(((32, 126),))
EMPTY = CharSet(())


class PathEnd(BaseException):
    """Base of the exceptions that end a path."""


class Infeasible(PathEnd):
    pass


class Incomplete(PathEnd):
    """Part of this path is left unexplored (a bound of the engine)."""


class StepLimit(PathEnd):
    pass


class Violation(PathEnd):
    def __init__(self, label, model=None, detail=None):
        super().__init__(label)
        self.label, self.model, self.detail = label, model, detail


STATS = dict(queries=0, ztime=0.0, unknown=0)
STEP_LIMIT = 400_000


class State:
    def __init__(self, prefix=()):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.alts = []
        self.dom = []
        self.names = []
        self.zv = []
        self.alias = {}
        self.rel = []
        self.relvars = set()
        self.solver = None
        self.nasserted = 0
        self.symkeys = False       # a symbolic key was stored in a native dict/set
        self.steps = 0
        self.opaque = []           # memo of uninterpreted functions
        self.incomplete = None
        self.notes = []

    # ------------------------------------------------------------------ variables
    def new_var(self, name, dom):
        self.dom.append(dom)
        self.names.append(name)
        self.zv.append(None)
        return len(self.dom) - 1

    def z(self, v):
        x = self.zv[v]
        if x is None:
            x = self.zv[v] = z3.Int(f"{self.names[v]}")
        return x

    def root(self, v, off=0):
        a = self.alias
        while v in a:
            v, o = a[v]
            off += o
        return v, off

    # ------------------------------------------------------------------ solver
    def dom_expr(self, v, cs=None):
        cs = self.dom[v] if cs is None else cs
        x = self.z(v)
        if not cs.iv:
            return z3.BoolVal(False)
        parts = [x == a if a == b else z3.And(x >= a, x <= b) for a, b in cs.iv]
        return parts[0] if len(parts) == 1 else z3.Or(*parts)

    def _solver(self):
        if self.solver is None:
            self.solver = z3.SimpleSolver()
            self.solver.set("timeout", 20000)
        while self.nasserted < len(self.rel):
            self.solver.add(self.rel[self.nasserted])
            self.nasserted += 1
        return self.solver

    def check(self, *extra, allvars=False, want_model=False):
        s = self._solver()
        t = time.perf_counter()
        s.push()
        try:
            vs = range(len(self.dom)) if allvars else self.relvars
            for v in vs:
                if v in self.alias:
                    continue
                s.add(self.dom_expr(v))
            for e in extra:
                s.add(e)
            r = s.check()
            m = None
            if want_model and r == z3.sat:
                m = self._model(s.model())
        finally:
            s.pop()
            STATS["queries"] += 1
            STATS["ztime"] += time.perf_counter() - t
        if r == z3.unknown:
            STATS["unknown"] += 1
        return (r, m) if want_model else r

    def _model(self, zm):
        vals = {}
        for v in range(len(self.dom)):
            if v in self.alias:
                continue
            x = self.zv[v]
            val = None
            if x is not None:
                e = zm.eval(x, model_completion=False)
                if z3.is_int_value(e):
                    val = e.as_long()
            if val is None or not self.dom[v].has(val):
                val = self.nice(self.dom[v]) if v not in self.relvars or val is None else val
            vals[v] = val
        for v in range(len(self.dom)):
            if v in self.alias:
                r, off = self.root(v)
                vals[v] = vals[r] + off
        return vals

    @staticmethod
    def nice(d):
        for c in (97, 98, 48, 33, 0):
            if d.has(c):
                return c
        for lo, hi in d.iv:
            if hi >= 33:
                return max(lo, 33)
        return d.iv[0][0]

    # ------------------------------------------------------------------ decisions
    def _take(self):
        """Both outcomes are feasible: follow the prefix or fork."""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = 1
            self.alts.append(tuple(self.trace) + (0,))
        self.pos += 1
        self.trace.append(d)
        return d == 1 or d == 2

    def _solve_both(self, texpr, fexpr):
        """Feasibility of both outcomes by Z3 (recorded, so that a replay does not ask again)."""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            return d == 1 or d == 2
        if self.check(texpr) == z3.unsat:
            self.pos += 1
            self.trace.append(3)
            return False
        if self.check(fexpr) == z3.unsat:
            self.pos += 1
            self.trace.append(2)
            return True
        return self._take()

    def branch_unary(self, v, off, cs):
        """Decide whether variable v (+off) is in cs."""
        v, off = self.root(v, off)
        if off:
            cs = cs.shift(-off)
        d = self.dom[v]
        inter = d & cs
        if not inter:
            return False
        rest = d - cs
        if not rest:
            return True
        if v in self.relvars:
            r = self._solve_both(self.dom_expr(v, inter), self.dom_expr(v, rest))
        else:
            r = self._take()
        self.dom[v] = inter if r else rest
        return r

    def narrow(self, v, off, cs):
        v, off = self.root(v, off)
        self.dom[v] = self.dom[v] & cs.shift(-off)
        if not self.dom[v]:
            raise Infeasible

    def assume_formula(self, expr, vs):
        if expr is True:
            return
        if expr is False:
            raise Infeasible
        self.rel.append(expr)
        self.relvars.update(self.root(v)[0] for v in vs)
        if self.pos >= len(self.prefix) and self.check() == z3.unsat:
            raise Infeasible

    def branch_formula(self, expr, vs):
        neg = z3.Not(expr)
        old = set(self.relvars)
        self.relvars.update(self.root(v)[0] for v in vs)
        # unary facts about vs matter for feasibility: relvars now includes them
        r = self._solve_both(expr, neg)
        del old
        self.rel.append(expr if r else neg)
        return r

    def branch_conj(self, unary, pairs):
        """Decide a conjunction of v+off in cs (unary) and v1+o1 == v2+o2 (pairs)."""
        if len(unary) == 1 and not pairs:
            return self.branch_unary(*unary[0])
        vs = {u[0] for u in unary}
        for a, _, b, _ in pairs:
            vs.add(a)
            vs.add(b)
        if vs & self.relvars:
            expr = z3.And(*self._conj_exprs(unary, pairs))
            r = self._solve_both(expr, z3.Not(expr))
            if not r:
                self.rel.append(z3.Not(expr))
                self.relvars |= vs
                return False
        else:
            # feasible: domains intersect for each unary (distinct variables); pairs chain through
            # aliases, so solve those with Z3 unless there is just one
            if len(pairs) + len(unary) > 1 and (pairs and (len(vs) < len(unary) + 2 * len(pairs))):
                expr = z3.And(*self._conj_exprs(unary, pairs))
                save = set(self.relvars)
                self.relvars |= vs
                r = self._solve_both(expr, z3.Not(expr))
                if not r:
                    self.rel.append(z3.Not(expr))
                    return False
                self.relvars = save
            elif not self._take():
                self.rel.append(z3.Not(z3.And(*self._conj_exprs(unary, pairs))))
                self.relvars |= vs
                return False
        for v, off, cs in unary:
            self.narrow(v, off, cs)
        for a, oa, b, ob in pairs:
            self.make_equal(a, oa, b, ob)
        return True

    def _conj_exprs(self, unary, pairs):
        out = []
        for v, off, cs in unary:
            v, off = self.root(v, off)
            out.append(self.dom_expr(v, cs.shift(-off)))
        for a, oa, b, ob in pairs:
            out.append(self.z(a) + oa == self.z(b) + ob if (oa or ob) else self.z(a) == self.z(b))
        return out

    def make_equal(self, a, oa, b, ob):
        a, oa = self.root(a, oa)
        b, ob = self.root(b, ob)
        if a == b:
            if oa != ob:
                raise Infeasible
            return
        # b + ob == a + oa  =>  b = a + (oa - ob)
        k = oa - ob
        self.rel.append(self.z(b) == self.z(a) + k if k else self.z(b) == self.z(a))
        self.dom[a] = self.dom[a] & self.dom[b].shift(-k)
        self.alias[b] = (a, k)
        if b in self.relvars:
            self.relvars.add(a)
        if not self.dom[a]:
            raise Infeasible


ST = None     # the current path


def set_state(st):
    global ST
    ST = st


def cur():
    return ST


# ====================================================================== deferred formulas (oracles)
class F:
    """A formula of an oracle: never forks unless used as a Python condition."""
    __slots__ = ("z", "vs")

    def __init__(self, z, vs):
        self.z, self.vs = z, vs

    def __bool__(self):
        return ST.branch_formula(self.z, self.vs)


def f_and(*fs):
    zs, vs = [], set()
    for f in fs:
        if isinstance(f, F):
            zs.append(f.z)
            vs |= f.vs
        elif not f:
            return False
    if not zs:
        return True
    return F(z3.And(*zs) if len(zs) > 1 else zs[0], vs)


def f_or(*fs):
    zs, vs = [], set()
    for f in fs:
        if isinstance(f, F):
            zs.append(f.z)
            vs |= f.vs
        elif f:
            return True
    if not zs:
        return False
    return F(z3.Or(*zs) if len(zs) > 1 else zs[0], vs)


def f_not(f):
    return F(z3.Not(f.z), f.vs) if isinstance(f, F) else not f


# ====================================================================== integers
class SymInt:
    __slots__ = ("lin", "_z", "vs")

    def __init__(self, lin=None, z=None, vs=None):
        self.lin, self._z = lin, z
        self.vs = vs if vs is not None else frozenset((lin[0],))

    @property
    def __class__(self):
        return int

    @property
    def z(self):
        if self._z is None:
            v, off = self.lin
            self._z = ST.z(v) + off if off else ST.z(v)
        return self._z

    def _known(self):
        if self.lin:
            v, off = ST.root(*self.lin)
            s = ST.dom[v].single
            if s is not None:
                return s + off
        return None

    def _bin(self, o, fn, lin=None):
        k = self._known()
        if type(o) is SymInt:
            ko = o._known()
            if ko is not None:
                o = ko
        if k is not None and not isinstance(o, SymInt) and type(o) is not SymInt:
            return fn(k, o)
        if isinstance(o, bool):
            o = int(o)
        if type(o) is SymInt:
            return SymInt(z=fn(self.z, o.z), vs=self.vs | o.vs)
        if type(o) is not int:
            return NotImplemented
        if lin is not None and self.lin:
            return SymInt(lin=(self.lin[0], self.lin[1] + lin(o)))
        return SymInt(z=fn(self.z, o), vs=self.vs)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda c: c)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda c: -c)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if type(o) in (int, bool):
            return self._bin(o, lambda a, b: a * b)
        if type(o) is SymInt:
            return self._bin(o, lambda a, b: a * b)
        return o * self.__index__()

    __rmul__ = __mul__

    def __neg__(self):
        return self._bin(-1, lambda a, b: a * b)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __floordiv__(self, o):
        return self.__index__() // o

    def __mod__(self, o):
        return self.__index__() % o

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % self.__index__()
        return o % self.__index__()

    def _cmp(self, o, op, cs):
        if isinstance(o, bool):
            o = int(o)
        k = self._known()
        if type(o) is SymInt:
            ko = o._known()
            if ko is not None:
                o = ko
        if type(o) is int:
            if k is not None:
                return op(k, o)
            if self.lin:
                return ST.branch_unary(self.lin[0], self.lin[1], cs(o))
            return ST.branch_formula(op(self.z, o), self.vs)
        if type(o) is SymInt:
            if k is not None:
                return ST.branch_formula(op(z3.IntVal(k), o.z), o.vs)
            if self.lin and o.lin:
                a, b = ST.root(*self.lin), ST.root(*o.lin)
                if a[0] == b[0]:
                    return op(a[1], b[1])
            return ST.branch_formula(op(self.z, o.z), self.vs | o.vs)
        if isinstance(o, float):
            return op(self.__index__(), o)
        return NotImplemented

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda c: CharSet(((c, c),)))
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return not self.__eq__(o)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda c: CharSet(((-BIG, c - 1),)))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda c: CharSet(((-BIG, c),)))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda c: CharSet(((c + 1, BIG),)))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda c: CharSet(((c, BIG),)))

    def __bool__(self):
        return not self == 0

    def __index__(self):
        k = self._known()
        if k is not None:
            return k
        return concretize_int(self)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __invert__(self):
        return -self - 1

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = conjugate = __trunc__
    real = numerator = property(lambda self: self)
    imag = property(lambda self: 0)
    denominator = property(lambda self: 1)

    def is_integer(self):
        return True

    def __round__(self, n=None):
        return self if n is None or n >= 0 else round(self.__index__(), n)

    def bit_length(self):
        return self.__index__().bit_length()

    def bit_count(self):
        return self.__index__().bit_count()

    def __hash__(self):
        return hash(self.__index__())

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<int?>"

    def __str__(self):
        return str(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)


def _enumerated(name, fn):
    """Operators without a formula: the value is enumerated."""
    def forward(self, o):
        return fn(self.__index__(), o.__index__() if type(o) is SymInt else o)

    def backward(self, o):
        return fn(o, self.__index__())
    setattr(SymInt, "__%s__" % name, forward)
    setattr(SymInt, "__r%s__" % name, backward)


for _name, _fn in (("divmod", divmod), ("pow", pow), ("and", operator.and_), ("or", operator.or_), ("xor", operator.xor),
                   ("lshift", operator.lshift), ("rshift", operator.rshift), ("truediv", operator.truediv)):
    _enumerated(_name, _fn)
SymInt.__rfloordiv__ = lambda self, o: o // self.__index__()



BIG = 1 << 70
ENUM_CAP = 64


def concretize_int(s):
    st = ST
    if s.lin:
        for _ in range(ENUM_CAP):
            v, off = st.root(*s.lin)
            d = st.dom[v]
            x = d.single
            if x is not None:
                return x + off
            x = st.nice(d) if d.size() > ENUM_CAP else d.iv[0][0]
            if st.branch_unary(v, 0, CharSet(((x, x),))):
                return x + off
        st.incomplete = "integer enumeration cap"
        raise Incomplete("integer enumeration cap")
    for _ in range(ENUM_CAP):
        # the value tried must be reproducible: minimise by asking for a model is not; use zero-first probing
        x = _probe_int(st, s)
        if st.branch_formula(s.z == x, s.vs):
            return x
    raise Incomplete("integer enumeration cap")


def _probe_int(st, s):
    """A reproducible feasible value: the model value found is stored in the decision trace."""
    if st.pos < len(st.prefix):
        d = st.prefix[st.pos]
        st.pos += 1
        st.trace.append(d)
        return d[1]
    st.relvars.update(st.root(v)[0] for v in s.vs)
    sol = st._solver()
    sol.push()
    try:
        for v in st.relvars:
            if v not in st.alias:
                sol.add(st.dom_expr(v))
        STATS["queries"] += 1
        if sol.check() != z3.sat:
            raise Infeasible
        x = sol.model().eval(s.z, model_completion=True).as_long()
    finally:
        sol.pop()
    st.pos += 1
    st.trace.append(("v", x))
    return x


# ====================================================================== characters and strings
class SymChar:
    __slots__ = ("v", "off")

    def __init__(self, v, off=0):
        self.v, self.off = v, off


def resolve(e):
    """Element -> 1-char str if determined, else itself (in terms of root variables)."""
    if type(e) is str:
        return e
    v, off = ST.root(e.v, e.off)
    s = ST.dom[v].single
    if s is not None:
        return chr(s + off)
    if v is not e.v:
        return SymChar(v, off)
    return e


def mk(elems):
    """A str if everything is determined, a SymStr otherwise."""
    out = [resolve(e) for e in elems]
    for e in out:
        if type(e) is not str:
            return SymStr(tuple(out))
    return "".join(out)


def elems(x):
    if type(x) is SymStr:
        return x.e
    return tuple(x)


def test(e, cs):
    """Is element e in charset cs? (forks)"""
    if type(e) is str:
        return cs.has(ord(e))
    return ST.branch_unary(e.v, e.off, cs)


def can(e, cs):
    """May element e be in cs? (no fork)"""
    if type(e) is str:
        return cs.has(ord(e))
    v, off = ST.root(e.v, e.off)
    return bool(ST.dom[v] & cs.shift(-off))


def conj_eq(a, b):
    """(False) or (unary, pairs) that make element sequences equal."""
    if len(a) != len(b):
        return False
    unary, pairs = [], []
    for x, y in zip(a, b):
        x, y = resolve(x), resolve(y)
        if type(x) is str:
            if type(y) is str:
                if x != y:
                    return False
                continue
            x, y = y, x
        if type(y) is str:
            cs = CharSet(((ord(y), ord(y)),))
            if not can(x, cs):
                return False
            unary.append((x.v, x.off, cs))
        else:
            if x.v == y.v:
                if x.off != y.off:
                    return False
                continue
            if not (ST.dom[x.v].shift(x.off) & ST.dom[y.v].shift(y.off)):
                return False
            pairs.append((x.v, x.off, y.v, y.off))
    # the same variable constrained to two values
    seen = {}
    for v, off, cs in unary:
        val = cs.single - off
        if seen.setdefault(v, val) != val:
            return False
    uniq, got = [], set()
    for u in unary:
        if u[0] not in got:
            got.add(u[0])
            uniq.append(u)
    return uniq, pairs


def seq_eq(a, b):
    c = conj_eq(a, b)
    if c is False:
        return False
    if not c[0] and not c[1]:
        return True
    return ST.branch_conj(*c)


def seq_eq_f(a, b):
    """Equality as a deferred formula."""
    c = conj_eq(a, b)
    if c is False:
        return False
    if not c[0] and not c[1]:
        return True
    vs = {u[0] for u in c[0]} | {p[0] for p in c[1]} | {p[2] for p in c[1]}
    ex = ST._conj_exprs(*c)
    return F(z3.And(*ex) if len(ex) > 1 else ex[0], vs)


def any_eq(x, cands):
    """One decision: does x equal one of the concrete strings cands?"""
    ex = elems(x)
    rel = []
    for c in cands:
        k = conj_eq(ex, tuple(c))
        if k is False:
            continue
        if not k[0] and not k[1]:
            return True
        rel.append(k)
    if not rel:
        return False
    if len(rel) == 1:
        return ST.branch_conj(*rel[0])
    if all(len(k[0]) == 1 and not k[1] for k in rel) and len({k[0][0][:2] for k in rel}) == 1:
        v, off, _ = rel[0][0][0]
        return ST.branch_unary(v, off, CharSet.from_points([k[0][0][2].single for k in rel]))
    vs, zs = set(), []
    for k in rel:
        z = ST._conj_exprs(*k)
        zs.append(z3.And(*z) if len(z) > 1 else z[0])
        vs |= {u[0] for u in k[0]} | {p[0] for p in k[1]} | {p[2] for p in k[1]}
    return ST.branch_formula(z3.Or(*zs), vs)


_CLASS = {}


def unicode_class(name):
    """CharSet of the code points c with getattr(chr(c), name)()."""
    cs = _CLASS.get(name)
    if cs is None:
        cs = _CLASS[name] = CharSet(_ranges(lambda c: getattr(c, name)()))
    return cs


def _ranges(fn):
    rs, start = [], None
    for c in range(MAXC + 2):
        ok = c <= MAXC and not 0xD800 <= c <= 0xDFFF and fn(chr(c))
        if ok and start is None:
            start = c
        elif not ok and start is not None:
            rs.append((start, c - 1))
            start = None
    return tuple(rs)


def _sym_strip(s, chars):
    return SymStr(tuple(s)).rstrip(chars) if s else s


def _predicate(name, fn):
    """CharSet of the characters satisfying fn."""
    cs = _CLASS.get(name)
    if cs is None:
        cs = _CLASS[name] = CharSet(_ranges(fn))
    return cs


HASH_MODE = ["concretize"]


class ident_hash:
    """While active, hashing a symbolic string is by a constant (keys are only being moved)."""

    def __enter__(self):
        HASH_MODE.append("ident")

    def __exit__(self, *a):
        HASH_MODE.pop()
        return False


class SymHash(Exception):
    pass


class SymStr:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return str

    # ---- basics
    def __len__(self):
        return len(self.e)

    def __bool__(self):
        return True

    def __iter__(self):
        for x in self.e:
            yield mk((x,))

    def __getitem__(self, k):
        if type(k) is slice:
            return mk(self.e[k])
        return mk((self.e[k.__index__() if type(k) is SymInt else k],))

    def __eq__(self, o):
        if type(o) is str:
            return seq_eq(self.e, tuple(o))
        if type(o) is SymStr:
            return seq_eq(self.e, o.e)
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        m = HASH_MODE[-1]
        if m == "raise":
            x = mk(self.e)
            if type(x) is str:
                return hash(x)
            raise SymHash
        if m == "ident":
            x = mk(self.e)
            if type(x) is str:
                return hash(x)
            ST.symkeys = True
            return 0x5EED
        return hash(concretize(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        x = mk(self.e)
        if type(x) is str:
            return repr(x)
        return "<sym:" + "".join(c if type(c) is str else "?" for c in self.e) + ">"

    def __str__(self):
        x = mk(self.e)
        if type(x) is str:
            return x
        return concretize(self)

    def __format__(self, spec):
        return format(self.__str__(), spec)

    def __add__(self, o):
        if type(o) is SymStr or isinstance(o, str):
            return mk(self.e + elems(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return mk(elems(o) + self.e)
        return NotImplemented

    def __mul__(self, n):
        return mk(self.e * n.__index__())
    __rmul__ = __mul__

    def __mod__(self, o):
        return concretize(self) % o

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def _lt(self, o, oreq):
        a, b = self.e, elems(o)
        for x, y in zip(a, b):
            if seq_eq((x,), (y,)):
                continue
            return _char_lt(x, y)
        return len(a) < len(b) or (oreq and len(a) == len(b))

    def __lt__(self, o):
        return self._lt(o, False) if isinstance(o, str) else NotImplemented

    def __le__(self, o):
        return self._lt(o, True) if isinstance(o, str) else NotImplemented

    def __gt__(self, o):
        return not self._lt(o, True) if isinstance(o, str) else NotImplemented

    def __ge__(self, o):
        return not self._lt(o, False) if isinstance(o, str) else NotImplemented

    # ---- searching
    def _range(self, start, end):
        s = slice(start, end).indices(len(self.e))
        return s[0], s[1]

    def _find(self, sub, start=None, end=None, rev=False):
        b = elems(sub)
        lo, hi = self._range(start, end)
        pos = range(lo, hi - len(b) + 1)
        for i in (reversed(pos) if rev else pos):
            if seq_eq(self.e[i:i + len(b)], b):
                return i
        return -1

    def find(self, sub, start=None, end=None):
        return self._find(sub, start, end)

    def rfind(self, sub, start=None, end=None):
        return self._find(sub, start, end, True)

    def index(self, sub, start=None, end=None):
        r = self._find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = self._find(sub, start, end, True)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        b = elems(sub)
        lo, hi = self._range(start, end)
        if not b:
            return hi - lo + 1
        n, i = 0, lo
        while i + len(b) <= hi:
            if seq_eq(self.e[i:i + len(b)], b):
                n += 1
                i += len(b)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        lo, hi = self._range(start, end)
        return any(seq_eq(self.e[lo:hi][:len(x)], elems(x)) for x in (p if isinstance(p, tuple) else (p,))
                   if len(x) <= hi - lo)

    def endswith(self, p, start=None, end=None):
        lo, hi = self._range(start, end)
        return any(seq_eq(self.e[hi - len(x):hi], elems(x)) for x in (p if isinstance(p, tuple) else (p,))
                   if len(x) <= hi - lo)

    def removeprefix(self, p):
        return mk(self.e[len(p):]) if self.startswith(p) else self

    def removesuffix(self, p):
        return mk(self.e[:len(self.e) - len(p)]) if len(p) and self.endswith(p) else self

    # ---- splitting and joining
    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._split_ws(maxsplit)
        b = elems(sep)
        if not b:
            raise ValueError("empty separator")
        out, last, i = [], 0, 0
        while i + len(b) <= len(self.e) and maxsplit != 0:
            if seq_eq(self.e[i:i + len(b)], b):
                out.append(mk(self.e[last:i]))
                i += len(b)
                last = i
                maxsplit -= 1
            else:
                i += 1
        out.append(mk(self.e[last:]))
        return out

    def _split_ws(self, maxsplit):
        ws = unicode_class("isspace")
        out, cur_, i, n = [], [], 0, len(self.e)
        while i < n:
            if test(self.e[i], ws):
                i += 1
                continue
            if maxsplit == 0:
                j = n
                while test(self.e[j - 1], ws):
                    j -= 1
                out.append(mk(self.e[i:j]))
                return out
            cur_ = [self.e[i]]
            i += 1
            while i < n and not test(self.e[i], ws):
                cur_.append(self.e[i])
                i += 1
            out.append(mk(cur_))
            maxsplit -= 1
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            r = mk(self.e[::-1])
            return [x[::-1] for x in reversed(r.split(None, maxsplit))]
        b = elems(sep)
        if not b:
            raise ValueError("empty separator")
        out, last, i = [], len(self.e), len(self.e) - len(b)
        while i >= 0 and maxsplit != 0:
            if seq_eq(self.e[i:i + len(b)], b):
                out.append(mk(self.e[i + len(b):last]))
                last = i
                i -= len(b)
                maxsplit -= 1
            else:
                i -= 1
        out.append(mk(self.e[:last]))
        return out[::-1]

    def splitlines(self, keepends=False):
        brk = CharSet.of("\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")
        out, start, i, n = [], 0, 0, len(self.e)
        while i < n:
            if test(self.e[i], brk):
                j = i + 1
                if test(self.e[i], CharSet.of("\r")) and j < n and test(self.e[j], CharSet.of("\n")):
                    j += 1
                out.append(mk(self.e[start:j if keepends else i]))
                start = i = j
            else:
                i += 1
        if start < n:
            out.append(mk(self.e[start:]))
        return out

    def partition(self, sep):
        i = self._find(sep)
        if i < 0:
            return (self, "", "")
        return mk(self.e[:i]), sep, mk(self.e[i + len(sep):])

    def rpartition(self, sep):
        i = self._find(sep, rev=True)
        if i < 0:
            return ("", "", self)
        return mk(self.e[:i]), sep, mk(self.e[i + len(sep):])

    def join(self, it):
        out, first = [], True
        for x in it:
            if not first:
                out.extend(self.e)
            first = False
            if not isinstance(x, str):
                raise TypeError("sequence item: expected str instance")
            out.extend(elems(x))
        return mk(out)

    def replace(self, old, new, count=-1):
        b, c = elems(old), elems(new)
        if not b:
            return concretize(self).replace(old, new, count)
        out, i = [], 0
        while i < len(self.e):
            if count != 0 and i + len(b) <= len(self.e) and seq_eq(self.e[i:i + len(b)], b):
                out.extend(c)
                i += len(b)
                count -= 1
            else:
                out.append(self.e[i])
                i += 1
        return mk(out)

    # ---- stripping
    def _stripper(self, chars):
        if chars is None:
            ws = unicode_class("isspace")
            return lambda x: test(x, ws)
        c = mk(elems(chars))
        if type(c) is str:
            cs = CharSet.of(c)
            return lambda x: test(x, cs)
        return lambda x: any(seq_eq((x,), (y,)) for y in c.e)

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars) if type(r) is SymStr or type(chars) is not SymStr else _sym_strip(r, chars)

    def lstrip(self, chars=None):
        drop = self._stripper(chars)
        i = 0
        while i < len(self.e) and drop(self.e[i]):
            i += 1
        return mk(self.e[i:])

    def rstrip(self, chars=None):
        drop = self._stripper(chars)
        i = len(self.e)
        while i > 0 and drop(self.e[i - 1]):
            i -= 1
        return mk(self.e[:i])

    # ---- classes and case
    def _all(self, name):
        cs = unicode_class(name)
        return all(test(x, cs) for x in self.e)

    def isspace(self):
        return self._all("isspace")

    def isdigit(self):
        return self._all("isdigit")

    def isdecimal(self):
        return self._all("isdecimal")

    def isnumeric(self):
        return self._all("isnumeric")

    def isalpha(self):
        return self._all("isalpha")

    def isalnum(self):
        return self._all("isalnum")

    def isprintable(self):
        return self._all("isprintable")

    def isascii(self):
        return all(test(x, ASCII) for x in self.e)

    def isidentifier(self):
        first, rest = _predicate("idstart", str.isidentifier), _predicate("idpart", lambda c: ("a" + c).isidentifier())
        return all(test(x, rest if i else first) for i, x in enumerate(self.e))

    def _case(self, fn, lo, hi, off):
        rng = CharSet(((ord(lo), ord(hi)),))
        out = []
        for x in self.e:
            if type(x) is str:
                out.extend(getattr(x, fn)())
            elif test(x, rng):
                out.append(SymChar(x.v, x.off + off))
            elif test(x, ASCII):
                out.append(x)
            elif test(x, _unchanged(fn)):
                out.append(x)
            else:
                out.extend(getattr(concretize(mk((x,))), fn)())
        return mk(out)

    def lower(self):
        if any(type(x) is str and x == "\u03a3" for x in self.e):
            return concretize(self).lower()
        return self._case("lower", "A", "Z", 32)

    def casefold(self):
        return self._case("casefold", "A", "Z", 32)

    def upper(self):
        return self._case("upper", "a", "z", -32)

    def _cased(self, good, bad):
        found = False
        for x in self.e:
            if test(x, bad):
                return False
            found = test(x, good) or found
        return found

    def islower(self):
        return self._cased(unicode_class("islower"), _predicate("up", lambda c: c.isupper() or c.istitle()))

    def isupper(self):
        return self._cased(unicode_class("isupper"), _predicate("low", lambda c: c.islower() or c.istitle() and not c.isupper()))

    def capitalize(self):
        first, rest = mk(self.e[:1]), mk(self.e[1:])
        if any(_predicate("odd title", lambda c: c.title() != c.upper()).has(ord(x)) for x in first.e if type(x) is str) \
                if type(first) is not str else first.title() != first.upper():
            return mk(elems(first.title()) + elems(rest.lower()))
        if type(first) is SymStr and test(first.e[0], _predicate("odd title", lambda c: c.title() != c.upper())):
            return mk(elems(concretize(first).title()) + elems(rest.lower()))
        return mk(elems(first.upper()) + elems(rest.lower()))

    def title(self):
        return concretize(self).title()

    def swapcase(self):
        return concretize(self).swapcase()

    def istitle(self):
        return concretize(self).istitle()

    def translate(self, table):
        out = []
        for x in self.e:
            x = resolve(x)
            for code, to in (table.items() if isinstance(table, dict) else enumerate(table)):
                if test(x, CharSet(((code, code),))):
                    if to is not None:
                        out.extend(elems(chr(to) if isinstance(to, int) else to))
                    break
            else:
                out.append(x)
        return mk(out)

    def zfill(self, w):
        pad = ("0",) * max(0, w - len(self.e))
        if pad and self.e and test(self.e[0], CharSet.of("+-")):
            return mk(self.e[:1] + pad + self.e[1:])
        return mk(pad + self.e)

    def center(self, w, fill=" "):
        pad = max(0, w - len(self.e))
        left = pad // 2 + (pad & w & 1)
        return mk(elems(fill) * left + self.e + elems(fill) * (pad - left))

    def expandtabs(self, tabsize=8):
        out, col = [], 0
        for x in self.e:
            if test(x, CharSet.of("\t")):
                n = tabsize - col % tabsize if tabsize > 0 else 0
                out.extend(" " * n)
                col += n
            else:
                out.append(x)
                col = 0 if test(x, CharSet.of("\r\n")) else col + 1
        return mk(out)

    def format_map(self, m):
        from . import rt
        return rt.str_format(self, **m)

    # ---- padding
    def ljust(self, w, fill=" "):
        return mk(self.e + elems(fill) * max(0, w - len(self.e)))

    def rjust(self, w, fill=" "):
        return mk(elems(fill) * max(0, w - len(self.e)) + self.e)

    def format(self, *a, **k):
        from . import rt
        return rt.str_format(self, *a, **k)

    def encode(self, encoding="utf-8", errors="strict"):
        name = codecs.lookup(encoding).name
        top = {"utf-8": MAXC, "ascii": 127, "iso8859-1": 255}.get(name)
        if top is None or errors != "strict":
            return concretize(self).encode(encoding, errors)
        if top < MAXC:
            small = CharSet(((0, top),))
            for i, c in enumerate(self.e):
                c = resolve(c)
                if not (ord(c) <= top if type(c) is str else test(c, small)):
                    raise UnicodeEncodeError(name, "?" * len(self.e), i, i + 1, f"ordinal not in range({top + 1})")
        return SymBytes(self, name)

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(name)
        return getattr(concretize(self), name)


class SymBytes:
    """An encoding of a symbolic string; only ever handed to uninterpreted functions."""

    def __init__(self, s, encoding="utf-8"):
        self.s = s
        self.encoding = encoding

    @property
    def __class__(self):
        return bytes

    def decode(self, *a, **k):
        return self.s

    def __len__(self):
        return len(concretize(self.s).encode(self.encoding))

    def __hash__(self):
        return hash(concretize(self.s).encode(self.encoding))


_UNCH = {}


def _unchanged(fn):
    cs = _UNCH.get(fn)
    if cs is None:
        rs, start = [], None
        for c in range(MAXC + 2):
            ok = c <= MAXC and not 0xD800 <= c <= 0xDFFF and getattr(chr(c), fn)() == chr(c)
            if ok and start is None:
                start = c
            elif not ok and start is not None:
                rs.append((start, c - 1))
                start = None
        cs = _UNCH[fn] = CharSet(tuple(rs))
    return cs


def _char_lt(x, y):
    x, y = resolve(x), resolve(y)
    if type(x) is str and type(y) is str:
        return x < y
    if type(y) is str:
        return test(x, CharSet(((0, ord(y) - 1),)))
    if type(x) is str:
        return test(y, CharSet(((ord(x) + 1, MAXC),)))
    return ST.branch_formula(ST.z(x.v) + x.off < ST.z(y.v) + y.off, {x.v, y.v})


CHAR_CAP = 48


TRACE = os.environ.get("SYMX_TRACE")


def _trace(s):
    """Debugging: one line per enumeration of symbolic text, with where it came from."""
    if any(type(resolve(e)) is not str for e in s.e):
        f, where = sys._getframe(2), []
        while f is not None and len(where) < 9:
            where.append(f"{os.path.basename(f.f_code.co_filename)}:{f.f_lineno}:{f.f_code.co_name}")
            f = f.f_back
        with open(TRACE, "a") as out:
            out.write(" < ".join(where) + "\n")


def concretize(s):
    """Fork over the concrete values of s (fallback for operations without a symbolic version)."""
    if type(s) is SymInt:
        return s.__index__()
    if not isinstance(s, (SymStr, SymBytes)):
        return s
    if type(s) is SymBytes:
        return concretize(s.s).encode(s.encoding)
    out = []
    if TRACE:
        _trace(s)
    for e in s.e:
        e = resolve(e)
        if type(e) is str:
            out.append(e)
            continue
        for _ in range(CHAR_CAP):
            v, off = ST.root(e.v, e.off)
            d = ST.dom[v]
            x = d.single
            if x is None:
                x = ST.nice(d) if d.size() > CHAR_CAP else d.iv[0][0]
            if ST.branch_unary(v, 0, CharSet(((x, x),))):
                out.append(chr(x + off))
                break
        else:
            ST.incomplete = "string enumeration cap"
            raise Incomplete("string enumeration cap")
    return "".join(out)


def is_sym(x):
    t = type(x)
    return t is SymStr or t is SymInt or t is SymBytes


# ====================================================================== structural equality (oracles)
def deep_eq(a, b):
    """Deferred equality of nested plain data."""
    ta, tb = type(a), type(b)
    if ta is SymStr or tb is SymStr:
        if not (isinstance(a, str) and isinstance(b, str)):
            return False
        return seq_eq_f(elems(a), elems(b))
    if ta is SymInt or tb is SymInt:
        if not (isinstance(a, int) and isinstance(b, int)):
            return False
        for x, y in ((a, b), (b, a)):
            if type(x) is SymInt:
                k = x._known()
                if k is not None:
                    return deep_eq(k, y)
        za = a.z if ta is SymInt else z3.IntVal(int(a))
        zb = b.z if tb is SymInt else z3.IntVal(int(b))
        vs = (set(a.vs) if ta is SymInt else set()) | (set(b.vs) if tb is SymInt else set())
        e = z3.simplify(za == zb)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return F(e, vs)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return f_and(*[deep_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        # ordered comparison of items
        return deep_eq(list(a.items()), list(b.items()))
    return a == b


def evaluate(x, model):
    """Value of nested plain data under a model (variable -> int)."""
    t = type(x)
    if t is SymStr:
        return "".join(c if type(c) is str else chr(model[c.v] + c.off) for c in x.e)
    if t is SymInt:
        if x.lin:
            return model[x.lin[0]] + x.lin[1]
        sub = [(ST.z(v), z3.IntVal(model[v])) for v in x.vs]
        return z3.simplify(z3.substitute(x.z, *sub)).as_long()
    if t is SymBytes:
        return evaluate(x.s, model).encode(x.encoding)
    if t in (list, tuple):
        return t(evaluate(y, model) for y in x)
    if t is dict:
        return {evaluate(k, model): evaluate(v, model) for k, v in x.items()}
    return x
