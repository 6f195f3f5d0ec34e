"""What a harness sees: the symbolic and the native version of the same interface.

A harness is a function of (M, S): M gives access to the modules of the code under test (their
instrumented form while exploring, their ordinary form while validating and replaying) and S gives
inputs, assumptions and assertions.  The same function is run in both worlds.
"""
import io
import os
import shutil
import sys
import tempfile
import types

from . import core, rt
from .core import (ALL, ASCII, LINE, PRINT, CharSet, F, State, SymChar, SymInt, SymStr, Violation, deep_eq, elems,
                   evaluate, f_and, f_not, f_or, mk)

DOMAINS = {"all": ALL, "line": LINE, "ascii": ASCII, "print": PRINT}


MISSING = object()


def put_back(obj, name, value):
    """Undo a patch; a name of a module may have been new (a builtin function)."""
    if value is MISSING:
        delattr(obj, name)
    else:
        setattr(obj, name, value)


def domain(d):
    if isinstance(d, CharSet):
        return d
    if d in DOMAINS:
        return DOMAINS[d]
    if d.startswith("-"):              # "-xyz": any character of a line except these
        return LINE - CharSet.of(d[1:])
    return CharSet.of(d)


class Assumption(core.PathEnd):
    """A native run left the assumed input space (cannot happen for values of a model)."""


class Mods:
    """M.parsers.document_parser.DocumentParser, or M("mau.parsers.document_parser")."""

    def __init__(self, mods):
        self._m = mods

    def __call__(self, name):
        return self._m[name]

    def get(self, name):
        return self._m.get(name)

    def __iter__(self):
        return iter(self._m)


class Scratch:
    """A directory of scratch files, created on demand, one per process."""
    dir = None
    pid = None

    @classmethod
    def reset(cls):
        if cls.dir is None or cls.pid != os.getpid():
            cls.dir = tempfile.mkdtemp(prefix="mau-verif-")
            cls.pid = os.getpid()
        else:
            for n in os.listdir(cls.dir):
                p = os.path.join(cls.dir, n)
                if os.path.isdir(p) and not os.path.islink(p):
                    shutil.rmtree(p)
                else:
                    os.unlink(p)
        os.chdir(cls.dir)

    @classmethod
    def drop(cls):
        if cls.dir is not None and cls.pid == os.getpid():
            os.chdir("/")
            shutil.rmtree(cls.dir, ignore_errors=True)
            cls.dir = None


class Base:
    symbolic = False
    domain = staticmethod(domain)

    def lower_bound(self):
        return None

    # structural comparison and connectives, usable on plain data in both worlds
    def eq(self, a, b):
        return deep_eq(a, b)

    def all(self, *c):
        return f_and(*c)

    def any(self, *c):
        return f_or(*c)

    def no(self, c):
        return f_not(c)

    def equal(self, label, got, want):
        self.check(label, deep_eq(got, want), detail=(got, want))


class Symbolic(Base):
    symbolic = True

    def __init__(self, state, params):
        self.st, self.params = state, params
        self.inputs = []           # (name, kind, variables / value list)
        self.observed = []
        self.nchecks = 0
        self.reached = []

    # ---- inputs
    def str(self, name, n, dom="line"):
        d = domain(dom)
        vs = [self.st.new_var(f"{name}.{i}", d) for i in range(n)]
        self.inputs.append((name, "str", vs))
        return mk([SymChar(v) for v in vs])

    def int(self, name, lo=None, hi=None):
        v = self.st.new_var(name, CharSet(((-core.BIG if lo is None else lo, core.BIG if hi is None else hi),)))
        self.inputs.append((name, "int", [v]))
        return SymInt(lin=(v, 0))

    def choice(self, name, options):
        options = list(options)
        v = self.st.new_var(name, CharSet(((0, len(options) - 1),)))
        self.inputs.append((name, "int", [v]))
        lo, hi = 0, len(options) - 1
        while lo < hi:                                  # binary search keeps the paths short
            mid = (lo + hi) // 2
            if self.st.branch_unary(v, 0, CharSet(((lo, mid),))):
                hi = mid
            else:
                lo = mid + 1
        return options[lo]

    def bool(self, name):
        return self.choice(name, (False, True))

    def order(self, name, items):
        """Some permutation of items."""
        items, out = list(items), []
        while len(items) > 1:
            i = self.choice(f"{name}.{len(out)}", range(len(items)))
            out.append(items.pop(i))
        return out + items

    # ---- assumptions, assertions
    def assume(self, cond):
        if isinstance(cond, F):
            self.st.assume_formula(cond.z, cond.vs)
        elif not cond:
            raise core.Infeasible

    def check(self, label, cond, detail=None):
        self.nchecks += 1
        st = self.st
        if isinstance(cond, F):
            st.relvars.update(st.root(v)[0] for v in cond.vs)
            core.STATS["asserts"] = core.STATS.get("asserts", 0) + 1
            r, m = st.check(core.z3.Not(cond.z), allvars=True, want_model=True)
            if r == core.z3.unsat:
                return
            if r == core.z3.unknown:
                raise core.Incomplete("solver answered unknown")
            raise Violation(label, m, detail)
        if not cond:
            raise Violation(label, None, detail)

    def fail(self, label, detail=None):
        self.check(label, False, detail)

    def obs(self, x):
        self.observed.append(x)

    def reach(self, what):
        self.reached.append(what)

    # ---- environment of the code under test
    def files(self, files):
        Scratch.reset()
        for path, text in files.items():
            d = os.path.dirname(path)
            if d:
                os.makedirs(d, exist_ok=True)
            with open(path, "w", encoding="utf-8", newline="") as f:
                f.write(rt.to_placeholders(text))

    def read_file(self, path):
        with open(path, encoding="utf-8", newline="") as f:
            return rt.from_placeholders(f.read())

    def argv(self, args):
        self.patch(sys, "argv", ["mau"] + [rt.to_placeholders(x) for x in args])

    def output(self):
        """Collect what is printed from now on; call the result to read it."""
        self.patch(sys, "stdout", io.StringIO())
        self.patch(sys, "stderr", io.StringIO())
        out = sys.stdout
        return lambda: rt.from_placeholders(out.getvalue())

    def orders(self, fn):
        """The results of fn under different iteration orders of sets."""
        out = []
        for how in (lambda x: x, lambda x: x[::-1], lambda x: x[1:] + x[:1]):
            rt.SET_ORDER[0] = how
            try:
                out.append(fn())
            finally:
                rt.SET_ORDER[0] = None
        return out

    def concretize(self, x):
        return core.concretize(x)

    def digest(self, kind, text):
        """The hexadecimal digest of a text (UTF-8)."""
        return rt.OpaqueDigest(kind, [core.SymStr(tuple(elems(text))).encode("utf-8")], rt.SIZES[kind]).hexdigest()

    def patch(self, obj, name, value):
        self.patches = getattr(self, "patches", [])
        self.patches.append((obj, name, vars(obj).get(name, MISSING) if isinstance(obj, types.ModuleType) else getattr(obj, name)))
        setattr(obj, name, value)

    def unpatch(self):
        for o, n, v in reversed(getattr(self, "patches", [])):
            put_back(o, n, v)
        rt.SET_ORDER[0] = None

    def values(self, model):
        out = {}
        for name, kind, vs in self.inputs:
            x = [model[v] for v in vs]
            out[name] = "".join(map(chr, x)) if kind == "str" else x[0]
        return out


class NativeFail(Exception):
    def __init__(self, label, detail=None):
        super().__init__(label)
        self.label, self.detail = label, detail


class Collected(BaseException):
    pass


class Native(Base):
    collecting = False
    again = None          # runs the same inputs in other processes

    def __init__(self, values, params):
        self.v, self.params = values, params
        self.observed = []
        self.reached = []
        self.patches = []

    def str(self, name, n, dom="line"):
        x = self.v.get(name, "a" * n)
        d = domain(dom)
        if len(x) != n or not all(d.has(ord(c)) for c in x):
            raise Assumption(name)
        return x

    def int(self, name, lo=None, hi=None):
        x = self.v.get(name, lo or 0)
        if lo is not None and x < lo or hi is not None and x > hi:
            raise Assumption(name)
        return x

    def choice(self, name, options):
        return list(options)[self.v.get(name, 0)]

    bool = Symbolic.bool
    order = Symbolic.order

    def assume(self, cond):
        if not cond:
            raise Assumption("assumption")

    def check(self, label, cond, detail=None):
        if not cond:
            raise NativeFail(label, detail)

    def fail(self, label, detail=None):
        raise NativeFail(label, detail)

    def obs(self, x):
        self.observed.append(x)

    def reach(self, what):
        self.reached.append(what)

    def files(self, files):
        Scratch.reset()
        for path, text in files.items():
            d = os.path.dirname(path)
            if d:
                os.makedirs(d, exist_ok=True)
            with open(path, "w", encoding="utf-8", newline="") as f:
                f.write(text)

    def read_file(self, path):
        with open(path, encoding="utf-8", newline="") as f:
            return f.read()

    def argv(self, args):
        self.patch(sys, "argv", ["mau"] + list(args))

    def output(self):
        self.patch(sys, "stdout", io.StringIO())
        self.patch(sys, "stderr", io.StringIO())
        return sys.stdout.getvalue

    def orders(self, fn):
        """Processes with other seeds of hash(), when a counterexample has to be confirmed."""
        mine = repr(fn())
        if self.collecting:
            raise Collected(mine)
        if self.again is None:
            return [mine]
        return [mine] + self.again()

    def concretize(self, x):
        return x

    def digest(self, kind, text):
        import hashlib
        return hashlib.new(kind, text.encode("utf-8")).hexdigest()

    def patch(self, obj, name, value):
        self.patches.append((obj, name, vars(obj).get(name, MISSING) if isinstance(obj, types.ModuleType) else getattr(obj, name)))
        setattr(obj, name, value)

    def unpatch(self):
        for o, n, v in reversed(self.patches):
            put_back(o, n, v)
