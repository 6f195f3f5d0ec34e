"""Runtime of instrumented code: the operations routed here by instrument.py."""
import builtins
import collections
import enum
import functools
import io
import itertools
import operator
import re
import string as _string
import sys
import types

from . import core, rex
from .core import (CharSet, SymBytes, SymChar, SymHash, SymInt, SymStr, StepLimit, any_eq, concretize, elems,
                   ident_hash, is_sym, mk, seq_eq, HASH_MODE)

FunctionType, MethodType = types.FunctionType, types.MethodType
BuiltinType = types.BuiltinFunctionType
BUILTIN_TYPES = (BuiltinType, type(re.compile("").match))
COVER = None          # set of code objects executed (optional)


# ------------------------------------------------------------------ hashing helpers
class _raise_mode:
    def __enter__(self):
        HASH_MODE.append("raise")

    def __exit__(self, *a):
        HASH_MODE.pop()
        return False


def hash_is_sym(k):
    t = type(k)
    if t is str or t is int or k is None or t is bool:
        return False
    if t is SymStr:
        return type(mk(k.e)) is not str
    if t is SymInt:
        return k._known() is None
    if t is tuple:
        return any(hash_is_sym(x) for x in k)
    if isinstance(k, (enum.Enum, type)):
        return False
    if isinstance(k, (list, dict, set)):
        return False
    with _raise_mode():
        try:
            hash(k)
        except SymHash:
            return True
    return False


def plain_key(e):
    t = type(e)
    if t is str or t is int or e is None or t is bool:
        return True
    if t is tuple:
        return all(plain_key(x) for x in e)
    return isinstance(e, (enum.Enum, type))


def has_symkeys(c):
    """May the stored hashes of c be stale?  (A key that was symbolic when stored may be known by now.)"""
    if not core.ST or not core.ST.symkeys:
        return False
    for e in c:
        if type(e) is not str and not plain_key(e):
            return True
    return False


def dget(d, key):
    """d[key] for an element of d found by lookup()."""
    if type(key) is str and not has_symkeys(d):
        return dict.__getitem__(d, key)
    for k, v in d.items():
        if k is key:
            return v
    return dict.__getitem__(d, key)


def rebuild(d, items):
    with ident_hash():
        dict.clear(d) if not isinstance(d, collections.OrderedDict) else d.clear()
        for k, v in items:
            if isinstance(d, collections.OrderedDict):
                collections.OrderedDict.__setitem__(d, k, v)
            else:
                dict.__setitem__(d, k, v)


def dset(d, key, v):
    """d[key] = v for an element of d found by lookup()."""
    if has_symkeys(d):
        rebuild(d, [(k, v if k is key else x) for k, x in d.items()])
        return
    with ident_hash():
        dict.__setitem__(d, key, v) if type(d) is not collections.OrderedDict else d.__setitem__(key, v)


def ddel(d, key):
    if has_symkeys(d):
        rebuild(d, [(k, x) for k, x in d.items() if k is not key])
        return
    with ident_hash():
        del d[key]


def lookup(c, k):
    """The element of hashed container c equal to k, as a 1-tuple, or None.  Forks."""
    if type(k) is SymStr:
        k = mk(k.e)
    if not hash_is_sym(k):
        if not has_symkeys(c):
            try:
                return (k,) if k in c else None
            except SymHash:
                pass
        for e in c:
            if e is k or e == k:
                return (e,)
        return None
    for e in c:
        if e is k or e == k:
            return (e,)
    return None


def contains_hashed(c, k):
    if type(k) is SymStr:
        k = mk(k.e)
        if type(k) is SymStr and not has_symkeys(c):
            return any_eq(k, [e for e in c if type(e) is str])
    return lookup(c, k) is not None


# ------------------------------------------------------------------ operators
def X_in(x, c):
    t = type(c)
    if t is str or t is SymStr:
        if type(x) is SymStr:
            if t is str and len(x.e) == 1:
                return core.test(core.resolve(x.e[0]), CharSet.of(c)) if c else False
            return core.SymStr.find(_sym(c), x) >= 0
        if t is SymStr:
            return c.find(x) >= 0
        return x in c
    if isinstance(c, (dict, set, frozenset)) and not _has_py_contains(t):
        return contains_hashed(c, x)
    if t is type({}.keys()):
        return contains_hashed(c, x)
    if t is type({}.items()):
        return any(X_eq(e, x) for e in c)
    return x in c


def _has_py_contains(t):
    f = getattr(t, "__contains__", None)
    return isinstance(f, FunctionType)


def _sym(s):
    return s if type(s) is SymStr else SymStr(tuple(s))


def X_get(o, k):
    t = type(o)
    if isinstance(o, dict) and not isinstance(getattr(t, "__getitem__", None), FunctionType):
        r = lookup(o, k)
        if r is not None:
            return dget(o, r[0])
        if isinstance(o, collections.defaultdict) and o.default_factory is not None:
            v = X_call(o.default_factory)
            X_set(o, k, v)
            return v
        m = getattr(t, "__missing__", None)
        if m is not None and t is not dict and t is not collections.OrderedDict:
            return m(o, k)
        raise KeyError(k)
    if isinstance(o, enum.EnumMeta) and is_sym(k):
        for name in o.__members__:
            if k == name:
                return o[name]
        raise KeyError(k)
    return o[k]


def X_set(o, k, v):
    t = type(o)
    if isinstance(o, dict) and not isinstance(getattr(t, "__setitem__", None), FunctionType):
        if type(k) is str and not has_symkeys(o):
            o[k] = v
            return
        r = lookup(o, k)
        if r is not None:
            dset(o, r[0], v)
            return
        with ident_hash():
            dict.__setitem__(o, k, v) if t is not collections.OrderedDict else o.__setitem__(k, v)
        return
    o[k] = v


def X_del(o, k):
    if isinstance(o, dict) and not isinstance(getattr(type(o), "__delitem__", None), FunctionType):
        r = lookup(o, k)
        if r is None:
            raise KeyError(k)
        ddel(o, r[0])
        return
    del o[k]


INPLACE = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv,
           "//": operator.ifloordiv, "%": operator.imod, "**": operator.ipow, "<<": operator.ilshift,
           ">>": operator.irshift, "|": operator.ior, "&": operator.iand, "^": operator.ixor, "@": operator.imatmul}


def X_iop(op, a, b):
    """a op= b"""
    if op in "|&-^%":
        if isinstance(a, dict) and op == "|":
            _dict_update(a, b)
            return a
        if isinstance(a, set) and isinstance(b, (set, frozenset, type({}.keys()))):
            cur = X_bin(op, a, b)
            with ident_hash():
                a.clear()
                set.update(a, cur)
            return a
        if op == "%" or isinstance(a, frozenset):
            return X_bin(op, a, b)
    return INPLACE[op](a, b)


def X_aug(o, k, v, op):
    X_set(o, k, X_iop(op, X_get(o, k), v))


CMP = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
PLAIN = frozenset((str, SymStr, int, SymInt, bool, float, bytes, SymBytes, list, tuple, dict, set, frozenset,
                   collections.OrderedDict, collections.defaultdict, collections.Counter, type(None)))
_KEYS = type({}.keys())


def X_eq(a, b):
    """a == b, where hashed containers may hold symbolic elements."""
    ta = type(a)
    if ta is list or ta is tuple:
        if type(b) is not ta:
            return a == b
        return len(a) == len(b) and all(x is y or X_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict) and not isinstance(getattr(ta, "__eq__", None), FunctionType):
        if len(a) != len(b):
            return False
        if isinstance(a, ORDDICTS) and isinstance(b, ORDDICTS):
            return X_eq(list(a.items()), list(b.items()))
        for x, v in a.items():
            r = lookup(b, x)
            if r is None:
                return False
            w = dget(b, r[0])
            if not (v is w or X_eq(v, w)):
                return False
        return True
    if isinstance(a, (set, frozenset, _KEYS)) and isinstance(b, (set, frozenset, _KEYS)):
        return len(a) == len(b) and all(contains_hashed(b, x) for x in a)
    return a == b


def X_cmp(op, a, b):
    ta = type(a)
    if ta is str or ta is int or ta is SymStr or b is None:
        return CMP[op](a, b)
    if op == "==":
        return X_eq(a, b)
    if op == "!=":
        if isinstance(a, (list, tuple, dict, set, frozenset, _KEYS)) and not isinstance(getattr(ta, "__ne__", None), FunctionType):
            return not X_eq(a, b)
        return a != b
    if isinstance(a, (set, frozenset, _KEYS)) and isinstance(b, (set, frozenset, _KEYS)) and (has_symkeys(a) or has_symkeys(b)):
        if op in (">", ">="):
            a, b = b, a
        return (len(a) < len(b) if op in "<>" else len(a) <= len(b)) and all(contains_hashed(b, x) for x in a)
    return CMP[op](a, b)


def X_chain(a, *rest):
    """a op b op c ..., evaluated as Python does"""
    for i, (op, fb) in enumerate(rest):
        b = fb()
        r = X_in(a, b) if op == "in" else not X_in(a, b) if op == "not in" else X_cmp(op, a, b)
        if i == len(rest) - 1 or not r:
            return r
        a = b


def X_bin(op, a, b):
    if op == "%":
        if isinstance(a, str) and not isinstance(a, (int,)):
            return str_mod(a, b)
        return a % b
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return set_op(op, a, b)
    kv = type({}.keys())
    if (type(a) is kv or isinstance(a, (set, frozenset))) and (type(b) is kv or isinstance(b, (set, frozenset))):
        return set_op(op, mkset(a), mkset(b))
    if isinstance(a, dict) and isinstance(b, dict) and op == "|":
        d = type(a)()
        for k, v in a.items():
            X_set(d, k, v)
        for k, v in b.items():
            X_set(d, k, v)
        return d
    if op == "-":
        return a - b
    if op == "|":
        return a | b
    if op == "&":
        return a & b
    return a ^ b


def set_op(op, a, b):
    symbolic = has_symkeys(a) or has_symkeys(b)
    if not symbolic:
        return {"-": operator.sub, "|": operator.or_, "&": operator.and_, "^": operator.xor}[op](a, b)
    if op == "-":
        out = [x for x in a if not contains_hashed(b, x)]
    elif op == "&":
        out = [x for x in a if contains_hashed(b, x)]
    elif op == "|":
        out = list(a) + [x for x in b if not contains_hashed(a, x)]
    else:
        out = [x for x in a if not contains_hashed(b, x)] + [x for x in b if not contains_hashed(a, x)]
    with ident_hash():
        return type(a)(out)


def mkset(items, cls=set):
    out = cls() if cls is set else []
    res = set()
    for x in items:
        if hash_is_sym(x) or has_symkeys(res):
            if lookup(res, x) is None:
                with ident_hash():
                    res.add(x)
        else:
            res.add(x)
    with ident_hash():
        return res if cls is set else cls(res)


def mkdict(pairs):
    d = {}
    for p in pairs:
        if len(p) == 1:
            m = p[0]
            for k in m.keys():
                X_set(d, k, X_get(m, k))
        else:
            X_set(d, p[0], p[1])
    return d


SET_ORDER = [None]    # harness hook: function(list) -> list giving the iteration order of a set


ORDERED = frozenset(("join", "fromkeys", "extend", "enumerate", "zip", "map", "filter", "iter", "chain", "deque", "OrderedDict", "reduce", "dict", "sum",
                     "sorted", "max", "min", "sort", "list", "tuple", "str", "repr", "dumps", "dump"))


def ordered_call(f, a, k):
    """A call under a chosen iteration order of sets."""
    n = getattr(f, "__name__", "")
    s = getattr(f, "__self__", None)
    if isinstance(s, set) and n == "pop" and len(s) > 1:
        x = SET_ORDER[0](list(s))[0]
        with ident_hash():
            s.discard(x)
        return x
    if n in ORDERED and not isinstance(s, (set, frozenset)):
        a = tuple(SET_ORDER[0](list(x)) if isinstance(x, (set, frozenset)) and len(x) > 1 else x for x in a)
    return X_call_any(f, *a, **k)


def X_iter(it):
    if SET_ORDER[0] is not None and isinstance(it, (set, frozenset)) and len(it) > 1:
        return SET_ORDER[0](list(it))
    return it


# ------------------------------------------------------------------ formatting
def to_str(v):
    """str(v) that keeps symbolic text."""
    t = type(v)
    if t is str or t is SymStr:
        return v
    if t is SymInt:
        return int_to_str(v)
    if t in (int, float, bool, type(None)):
        return str(v)
    for name in ("__str__", "__repr__"):
        f = getattr(t, name, None)
        if isinstance(f, FunctionType):
            return f(v)
    if t in (list, tuple, dict, set):
        return plain_repr(v)
    if isinstance(v, Exception) and len(v.args) == 1:
        return to_str(v.args[0])
    return str(v)


def to_repr(v):
    t = type(v)
    if t is SymStr:
        return repr(v)
    if t is SymInt:
        return int_to_str(v)
    f = getattr(t, "__repr__", None)
    if isinstance(f, FunctionType):
        return f(v)
    if t in (list, tuple, dict, set):
        return plain_repr(v)
    return repr(v)


def plain_repr(v):
    # only used for message texts; symbolic parts are shown as <sym:...>
    t = type(v)
    if t is list:
        return "[" + ", ".join(_plain(to_repr(x)) for x in v) + "]"
    if t is tuple:
        return "(" + ", ".join(_plain(to_repr(x)) for x in v) + ("," if len(v) == 1 else "") + ")"
    if t is dict:
        return "{" + ", ".join(_plain(to_repr(a)) + ": " + _plain(to_repr(b)) for a, b in v.items()) + "}"
    if t is set and v:
        return "{" + ", ".join(_plain(to_repr(x)) for x in v) + "}"
    return repr(v)


def _plain(s):
    if type(s) is SymStr:
        return "".join(c if type(c) is str else "?" for c in s.e)
    return s


def int_to_str(v):
    k = v._known()
    return str(k if k is not None else v.__index__())


def X_fmt(parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114 or conv == 97:
            v = to_repr(v)
        elif conv == 115:
            v = to_str(v)
        if spec:
            if type(v) is SymStr:
                v = format_symstr(v, spec)
            else:
                v = format(v, concretize(spec) if type(spec) is SymStr else spec)
        else:
            f = getattr(type(v), "__format__", None)
            if isinstance(f, FunctionType) and type(v) not in (SymStr, SymInt):
                v = f(v, "")
            else:
                v = to_str(v)
        out.append(v)
    if all(type(x) is str for x in out):
        return "".join(out)
    e = []
    for x in out:
        e.extend(elems(x))
    return mk(e)


def format_symstr(v, spec):
    m = re.fullmatch(r"(?:(.)?([<>^]))?(\d*)s?", spec)
    if not m:
        return format(concretize(v), spec)
    fill, al, w = m.group(1) or " ", m.group(2) or "<", int(m.group(3) or 0)
    pad = max(0, w - len(v))
    left = pad if al == ">" else pad // 2 if al == "^" else 0
    return mk((fill,) * left + v.e + (fill,) * (pad - left))


def str_mod(a, b):
    if type(a) is SymStr:
        a = concretize(a)
    if not contains_sym(b):
        return a % b
    args = b if isinstance(b, tuple) else (b,)
    out, i, last = [], 0, 0
    for m in re.finditer(r"%(?:\((\w+)\))?(-?)(\d*)([sdr%])", a):
        if "%" in a[last:m.start()]:
            return a % (concretize_deep(b) if isinstance(b, dict) else tuple(concretize_deep(x) for x in args))
        out.extend(a[last:m.start()])
        last = m.end()
        key, minus, width, kind = m.groups()
        if kind == "%":
            out.append("%")
            continue
        if key is not None:
            v = X_get(b, key)
        else:
            if i == len(args):
                raise TypeError("not enough arguments for format string")
            v = args[i]
            i += 1
        e = elems((to_repr if kind == "r" else to_str)(v))
        pad = (" ",) * max(0, int(width or 0) - len(e))
        out.extend(e + pad if minus else pad + e)
    if "%" in a[last:]:
        return a % (concretize_deep(b) if isinstance(b, dict) else tuple(concretize_deep(x) for x in args))
    if i < len(args) and not isinstance(b, dict):
        raise TypeError("not all arguments converted during string formatting")
    out.extend(a[last:])
    return mk(out)


def str_format(s, *a, **k):
    s = concretize(s)
    if not contains_sym(a) and not contains_sym(k):
        return s.format(*a, **k)
    out, auto = [], 0
    for lit, field, spec, conv in _string.Formatter().parse(s):
        out.extend(lit)
        if field is None:
            continue
        if field == "" or field[:1] in ".[":
            field = str(auto) + field
            auto += 1
        m = re.match(r"[^.\[]*", field)
        head = m.group()
        v = a[int(head)] if head.isdigit() else k[head]
        rest = field[len(head):]
        for attr, item in re.findall(r"\.([^.\[]+)|\[([^\]]+)\]", rest):
            v = getattr(v, attr) if attr else X_get(v, int(item) if item.isdigit() else item)
        out.extend(elems(X_fmt(((v, {"r": 114, "s": 115, "a": 97, None: -1, "": -1}[conv], spec or None),))))
    return mk(out)


# ------------------------------------------------------------------ symbolic arguments of external functions
def contains_sym(x, depth=2):
    t = type(x)
    if t is SymStr:
        return type(mk(x.e)) is not str
    if t is SymInt:
        return x._known() is None
    if t is SymBytes:
        return True
    if depth:
        if t in (list, tuple, set, frozenset):
            return any(contains_sym(y, depth - 1) for y in x)
        if isinstance(x, dict):
            return any(contains_sym(k, depth - 1) or contains_sym(v, depth - 1) for k, v in x.items())
    return False


def concretize_deep(x):
    t = type(x)
    if t is SymStr or t is SymInt or t is SymBytes:
        return concretize(x)
    if t is list or t is tuple:
        return t([concretize_deep(y) for y in x])
    if t is set or t is frozenset:
        return t([concretize_deep(y) for y in x])
    if t is dict:
        return {concretize_deep(k): concretize_deep(v) for k, v in x.items()}
    return x


def wrap_callable(f):
    if f is None or isinstance(f, FunctionType) and "_X_call" in f.__globals__:
        return f
    return lambda *a: X_call(f, *a)


def h_str(*a, **k):
    if not a:
        return str(**k)
    if len(a) > 1:
        return str(*a, **k)
    v = a[0]
    if type(v) is SymBytes:
        return v.s
    return to_str(v)


def has_symtype(x, depth=2):
    """Like contains_sym, also for symbolic values that the path has fixed."""
    t = type(x)
    if t is SymStr or t is SymInt:
        return True
    if depth:
        if t in (list, tuple, set, frozenset):
            return any(has_symtype(y, depth - 1) for y in x)
        if isinstance(x, dict):
            return any(has_symtype(k, depth - 1) or has_symtype(v, depth - 1) for k, v in x.items())
    return False


def h_int(*a, **k):
    if not a or not contains_sym(a[0]):
        return int(*[concretize_deep(x) for x in a], **k)
    v = a[0]
    if type(v) is SymInt:
        return v
    if len(a) > 1 or k:
        return int(concretize(v), *a[1:], **k)
    return str_to_int(v)


DIGITS = CharSet(((48, 57),))


def str_to_int(s):
    s = s.strip()
    e = [core.resolve(x) for x in elems(s)]
    bad = ValueError("invalid literal for int() with base 10")
    neg, i = False, 0
    if not e:
        raise bad
    if core.test(e[0], CharSet.of("+-")):
        neg = core.test(e[0], CharSet.of("-"))
        i = 1
    if i == len(e):
        raise bad
    dec = core.unicode_class("isdecimal")
    val, prev_digit = 0, False
    import z3
    vs = set()
    digits = []
    for x in e[i:]:
        if core.test(x, CharSet.of("_")):
            if not prev_digit:
                raise bad
            prev_digit = False
            continue
        if not core.test(x, dec):
            raise bad
        prev_digit = True
        if core.test(x, DIGITS):
            digits.append(x)
        else:
            digits.append(int(concretize(mk((x,)))))
    if not prev_digit:
        raise bad
    if len(digits) == 1 and type(digits[0]) is SymChar:
        r = SymInt(lin=(digits[0].v, digits[0].off - 48))
        return -r if neg else r
    z = z3.IntVal(0)
    conc = True
    for d in digits:
        if type(d) is int:
            z = z * 10 + d
        elif type(d) is str:
            z = z * 10 + (ord(d) - 48)
        else:
            conc = False
            z = z * 10 + (core.ST.z(d.v) + d.off - 48)
            vs.add(d.v)
    if neg:
        z = -z
    if conc:
        return z3.simplify(z).as_long()
    return SymInt(z=z, vs=frozenset(vs))


def h_ord(c):
    if type(c) is SymStr:
        if len(c.e) != 1:
            raise TypeError("ord() expected a character")
        x = core.resolve(c.e[0])
        return ord(x) if type(x) is str else SymInt(lin=(x.v, x.off))
    return ord(c)


def h_chr(i):
    if type(i) is SymInt and i.lin:
        return mk((SymChar(*i.lin),))
    return chr(concretize(i) if is_sym(i) else i)


def h_hash(x):
    return hash(x)


def h_open(path, *a, **k):
    p = concretize_deep(path)
    return core_open(p, *a, **k)


core_open = open


def h_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def h_sorted(it, key=None, reverse=False):
    return sorted(it, key=wrap_callable(key), reverse=reverse)


def h_dict(*a, **k):
    d = {}
    _dict_update(d, *a, **k)
    return d


def _dict_update(d, *a, **k):
    if a:
        o = a[0]
        if hasattr(o, "keys"):
            for key in X_call(o.keys):
                X_set(d, key, X_get(o, key))
        else:
            for key, v in o:
                X_set(d, key, v)
    for key, v in k.items():
        X_set(d, key, v)


def h_defaultdict(*a, **k):
    d = collections.defaultdict(*a[:1])
    _dict_update(d, *a[1:], **k)
    return d


class OrdDict(dict):
    """collections.OrderedDict without its own index of hashes."""
    _symx_ordered = True

    def popitem(self, last=True):
        if not self:
            raise KeyError("dictionary is empty")
        key = list(self)[-1 if last else 0]
        v = dget(self, key)
        ddel(self, key)
        return key, v

    def move_to_end(self, key, last=True):
        r = lookup(self, key)
        if r is None:
            raise KeyError(key)
        item, rest = [(r[0], dget(self, r[0]))], [(x, v) for x, v in self.items() if x is not r[0]]
        rebuild(self, rest + item if last else item + rest)

    def copy(self):
        return h_ordereddict(self)


def h_ordereddict(*a, **k):
    d = OrdDict()
    _dict_update(d, *a, **k)
    return d


def h_counter(*a, **k):
    if a and not isinstance(a[0], dict) and not k:
        d = collections.Counter()
        for x in a[0]:
            X_set(d, x, (X_get(d, x) if X_in(x, d) else 0) + 1)
        return d
    return collections.Counter(*a, **k)


def h_fromkeys(it, v=None):
    d = {}
    for x in it:
        X_set(d, x, v)
    return d


def h_set(*a):
    return mkset(a[0]) if a else set()


def h_frozenset(*a):
    return mkset(a[0], frozenset) if a else frozenset()


def h_list(*a):
    return list(X_iter(a[0])) if a else []


def h_tuple(*a):
    return tuple(X_iter(a[0])) if a else ()


def h_map(f, *its):
    return map(wrap_callable(f), *its)


def h_filter(f, it):
    return filter(wrap_callable(f), it)


def h_minmax(fn):
    def h(*a, **k):
        if k.get("key"):
            k["key"] = wrap_callable(k["key"])
        return fn(*a, **k)
    return h


def h_enumerate(*a, **k):
    return enumerate(*a, **k)


def h_getattr(o, name, *d):
    return getattr(o, concretize(name) if is_sym(name) else name, *d)


def h_isinstance(o, c):
    return isinstance(o, c)


def h_repr(v):
    return to_repr(v)


def h_print(*a, **k):
    out = k.get("file") or sys.stdout
    if type(out) is SymIO:
        sep, end = k.get("sep"), k.get("end")
        out.write(mk([y for i, x in enumerate(a) for y in (elems(" " if sep is None else sep) if i else ()) + elems(h_str(x))]))
        out.write("\n" if end is None else end)
        return
    if isinstance(sys.stdout, io.StringIO):        # the harness collects what is printed
        print(*[to_placeholders(h_str(x)) for x in a], **{n: to_placeholders(v) for n, v in k.items()})


ORDDICTS = (OrdDict, collections.OrderedDict)


def h_reduce(f, it, *init):
    return functools.reduce(wrap_callable(f), it, *init)


def h_first_callable(fn):
    def h(f, *a):
        return fn(wrap_callable(f), *a)
    return h


def h_accumulate(it, func=None, **k):
    return itertools.accumulate(it, wrap_callable(func), **k)


def h_iter(*a):
    return iter(*a) if len(a) == 1 else iter(wrap_callable(a[0]), a[1])


def h_hash(x):
    return hash(x)          # under the mode of the enclosing operation


def h_hasattr(o, name):
    return hasattr(o, concretize(name) if is_sym(name) else name)


def h_setattr(o, name, v):
    setattr(o, concretize(name) if is_sym(name) else name, v)


def h_operator(op):
    return lambda a, b: X_cmp(op, a, b)


def h_stringio(initial_value="", newline="\n"):
    return SymIO("" if initial_value is None else initial_value, newline)


def h_bisect(fn):
    right = fn.__name__ != "bisect_left"

    def h(a, x, lo=0, hi=None, *, key=None):
        hi = len(a) if hi is None else hi
        while lo < hi:
            mid = (lo + hi) // 2
            v = X_call(key, a[mid]) if key else a[mid]
            if not x < v if right else v < x:
                lo = mid + 1
            else:
                hi = mid
        return lo
    return h


def h_groupby(it, key=None):
    return itertools.groupby(it, wrap_callable(key))


def h_range(*a):
    return range(*[concretize(x) if is_sym(x) else x for x in a])


def h_partial(*a, **k):
    return functools.partial(*a, **k)


def h_bool(*a):
    return bool(*a)


def h_format(v, spec=""):
    return X_fmt(((v, -1, spec or None),))


def h_type(*a):
    if len(a) == 1:
        t = type(a[0])
        return {SymStr: str, SymInt: int, SymBytes: bytes}.get(t, t)
    return type(*a)


def h_reflags(fn_name):
    fn = getattr(re, fn_name)
    sym = getattr(rex, fn_name, None)

    def h(pat, *a, **k):
        if type(pat) is SymStr:
            pat = concretize(pat)
        if sym is not None and contains_sym(a) or contains_sym(k):
            k = {("text" if n == "string" else n): v for n, v in k.items()}
            return sym(pat, *[mk(x.e) if type(x) is SymStr else x for x in a], **k)
        if fn_name in ("sub", "subn") and callable(a[0]):
            a = (wrap_callable(a[0]),) + a[1:]
        return fn(pat, *[x if type(x) is not SymStr else str(x) for x in a], **k)
    return h


# --- hashing of symbolic data: an uninterpreted function with functional consistency
HEX = CharSet.of("0123456789abcdef")
UNINTERPRETED = {}


class OpaqueDigest:
    def __init__(self, kind, parts, size):
        self.kind, self.parts, self.size = kind, list(parts), size
        self.name = kind

    def update(self, data):
        self.parts.append(data)

    def copy(self):
        return OpaqueDigest(self.kind, self.parts, self.size)

    def hexdigest(self):
        import hashlib
        if not any(type(p) is SymBytes for p in self.parts):
            return getattr(hashlib, self.kind)(b"".join(self.parts)).hexdigest()
        codecs = {p.encoding for p in self.parts if type(p) is SymBytes}
        if len(codecs) > 1:
            raise core.Incomplete("digest of texts in several encodings")
        codec = codecs.pop()
        s = mk([x for p in self.parts for x in elems(p.s if type(p) is SymBytes else p.decode(codec))])
        st = core.ST
        this = self.kind + codec
        for kind, arg, res in st.opaque:
            if kind == this and len(arg) == len(s) and arg == s:
                return res
        res = getattr(hashlib, self.kind)(s.encode(codec)).hexdigest() if type(s) is str else mk([SymChar(st.new_var(f"{self.kind}{len(st.opaque)}_{i}", HEX)) for i in range(self.size)])
        st.opaque.append((this, s, res))
        return res

    def digest(self):
        import hashlib
        if not any(type(p) is SymBytes for p in self.parts):
            return getattr(hashlib, self.kind)(b"".join(self.parts)).digest()
        raise core.Incomplete("binary digest of symbolic data")


SIZES = {"md5": 32, "sha1": 40, "sha256": 64, "sha512": 128, "sha224": 56, "sha384": 96}


def h_digest(kind, size):
    def h(*a, **k):
        return OpaqueDigest(kind, [concretize_deep(x) if type(x) is not SymBytes else x for x in a or [k[n] for n in ("string", "data") if n in k]], size)
    return h


def h_hashnew(name, *a, **k):
    import hashlib
    if name in SIZES:
        return h_digest(name, SIZES[name])(*a, **k)
    return hashlib.new(name, *[concretize_deep(x) for x in a], **k)


FUNC = {}


def _reg():
    import copy
    import dataclasses
    import hashlib
    for f, h in [
        (str, h_str), (int, h_int), (ord, h_ord), (chr, h_chr), (sum, h_sum), (sorted, h_sorted), (dict, h_dict),
        (set, h_set), (frozenset, h_frozenset), (list, h_list), (tuple, h_tuple), (map, h_map), (filter, h_filter),
        (min, h_minmax(min)), (max, h_minmax(max)), (getattr, h_getattr), (repr, h_repr), (print, h_print),
        (functools.reduce, h_reduce), (itertools.groupby, h_groupby), (range, h_range), (format, h_format),
        (collections.defaultdict, h_defaultdict), (collections.OrderedDict, h_ordereddict),
        (collections.Counter, h_counter), (type, h_type), (open, h_open), (dict.fromkeys, h_fromkeys),
    ]:
        FUNC[f] = h
    for n in ("match", "search", "fullmatch", "findall", "finditer", "sub", "subn", "split"):
        FUNC[getattr(re, n)] = h_reflags(n)
    for n, s in SIZES.items():
        FUNC[getattr(hashlib, n)] = h_digest(n, s)
    FUNC[hashlib.new] = h_hashnew
    # functions that only move their arguments around
    for f in (isinstance, issubclass, len, iter, next, enumerate, zip, reversed, any, all, id, callable, hasattr,
              setattr, delattr, bool, hash, functools.partial, copy.copy, copy.deepcopy, dataclasses.asdict,
              dataclasses.astuple, dataclasses.replace, dataclasses.fields, dataclasses.field, itertools.chain,
              itertools.takewhile, itertools.dropwhile, itertools.islice, itertools.zip_longest, itertools.product,
              itertools.repeat, itertools.count, itertools.accumulate, itertools.starmap, itertools.pairwise,
              itertools.tee, operator.attrgetter, operator.itemgetter, collections.deque, collections.namedtuple,
              collections.ChainMap, itertools.chain.from_iterable, object, slice, property, BaseException,
              types.SimpleNamespace, functools.cmp_to_key, functools.wraps, vars, super, abs, divmod):
        FUNC[f] = MOVE
    import bisect
    for f in (itertools.takewhile, itertools.dropwhile, itertools.filterfalse, itertools.starmap, functools.cmp_to_key):
        FUNC[f] = h_first_callable(f)
    FUNC.update({itertools.accumulate: h_accumulate, iter: h_iter, hash: h_hash, hasattr: h_hasattr, setattr: h_setattr,
                 io.StringIO: h_stringio, operator.contains: lambda c, x: X_in(x, c), operator.getitem: X_get,
                 operator.setitem: X_set, operator.delitem: X_del, operator.mod: lambda a, b: X_bin("%", a, b),
                 operator.sub: lambda a, b: X_bin("-", a, b), operator.or_: lambda a, b: X_bin("|", a, b),
                 operator.and_: lambda a, b: X_bin("&", a, b), operator.xor: lambda a, b: X_bin("^", a, b),
                 operator.ior: lambda a, b: X_iop("|", a, b), operator.iadd: operator.iadd,
                 bisect.bisect: h_bisect(bisect.bisect_right), bisect.bisect_right: h_bisect(bisect.bisect_right),
                 bisect.bisect_left: h_bisect(bisect.bisect_left)})
    for n, op in (("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
        FUNC[getattr(operator, n)] = h_operator(op)
    for f in (operator.add, operator.mul, operator.concat, operator.not_, operator.truth, operator.is_, operator.is_not,
              operator.index, itertools.compress, itertools.cycle, itertools.permutations, itertools.combinations,
              functools.partialmethod, operator.methodcaller):
        FUNC[f] = MOVE


MOVE = object()


def X_call(f, /, *a, **k):
    if SET_ORDER[0] is not None:
        return ordered_call(f, a, k)
    return X_call_any(f, *a, **k)


def X_call_any(f, /, *a, **k):
    st = core.ST
    if st is not None:
        st.steps += 1
        if st.steps > core.STEP_LIMIT:
            raise StepLimit("step limit")
    t = type(f)
    if t is FunctionType:
        if "_X_call" in f.__globals__:
            return f(*a, **k)
        if a and hasattr(f, "registry") and hasattr(f, "dispatch"):
            return X_call(f.dispatch(h_type(a[0])), *a, **k)
        w = getattr(f, "__wrapped__", None)
        if w is None:
            f = twin(f)
        return ext_call(f, a, k)
    if t is MethodType:
        s = f.__self__
        ts = type(s)
        if ts is SymStr:
            fn = f.__func__
            if f.__name__ == "format":
                return str_format(s, *a, **k)
            return fn(s, *a, **k)
        fn = f.__func__
        if isinstance(fn, FunctionType):
            if "_X_call" in fn.__globals__:
                return f(*a, **k)
            g = fn.__module__ or ""
            if g.startswith("symx."):
                return f(*a, **k)
        return ext_call(f, a, k)
    if t in BUILTIN_TYPES:
        s = f.__self__
        ts = type(s)
        if ts is str:
            return str_method(s, f, a, k)
        if isinstance(s, dict):
            return dict_method(s, f, a, k)
        if isinstance(s, (set, frozenset)):
            return set_method(s, f, a, k)
        if isinstance(s, list) or isinstance(s, collections.deque):
            if f.__name__ == "sort":
                if k.get("key"):
                    k["key"] = wrap_callable(k["key"])
            return f(*a, **k)
        if ts is re.Pattern:
            return pattern_method(s, f, a, k)
        return ext_call(f, a, k)
    if t is functools.partial:
        return X_call(f.func, *f.args, *a, **{**f.keywords, **k})
    if isinstance(f, type):
        h = FUNC.get(f)
        if h is not None:
            return ext_call(f, a, k)
        if isinstance(f, enum.EnumMeta):
            return enum_call(f, a, k)
        if f.__module__ in WORLD_MODULES:
            return f(*a, **k)
        if issubclass(f, BaseException):
            return f(*a, **k)
        return ext_call(f, a, k)
    if t is functools._lru_cache_wrapper:
        if contains_sym(a) or contains_sym(k):
            return X_call(f.__wrapped__, *a, **k)
        return f(*a, **k)
    if t is types.MethodWrapperType:
        return wrapper_method(f.__self__, f.__name__, f, a, k)
    if t is operator.itemgetter:
        ks = f.__reduce__()[1]
        return X_get(a[0], ks[0]) if len(ks) == 1 else tuple(X_get(a[0], x) for x in ks)
    if t is operator.methodcaller:
        r, args = f.__reduce__()
        if type(r) is functools.partial:
            return X_call(getattr(a[0], r.args[0]), *args, **r.keywords)
        return X_call(getattr(a[0], args[0]), *args[1:])
    if t is types.MethodDescriptorType or t is types.WrapperDescriptorType:
        if a:
            oc = f.__objclass__
            if t is types.WrapperDescriptorType:
                return wrapper_method(a[0], f.__name__, f.__get__(a[0]), a[1:], k)
            if oc is str:
                if type(a[0]) is SymStr:
                    return getattr(a[0], f.__name__)(*a[1:], **k)
                return str_method(a[0], getattr(a[0], f.__name__), a[1:], k)
            if issubclass(oc, (set, frozenset)):
                return set_method(a[0], f.__get__(a[0]), a[1:], k)
            if oc is dict:
                return dict_method(a[0], getattr(dict, f.__name__).__get__(a[0]), a[1:], k)
        return f(*a, **k)
    c = getattr(t, "__call__", None)
    if isinstance(c, FunctionType):
        if "_X_call" in c.__globals__:
            return f(*a, **k)
        return ext_call(f, a, k)
    return ext_call(f, a, k)


WORLD_MODULES = set()
EXT_LOG = {}
MARSHAL = {}         # external function/method name -> "placeholder"


WRAPPERS = {n: getattr(operator, n) for n in ("__add__", "__mul__", "__mod__", "__iadd__", "__sub__", "__or__", "__and__",
                                              "__xor__", "__ior__", "__iand__", "__isub__", "__ixor__")}
COMPARE = {"__eq__": "==", "__ne__": "!=", "__lt__": "<", "__le__": "<=", "__gt__": ">", "__ge__": ">="}


def wrapper_method(s, n, f, a, k):
    """A special method called by name."""
    if type(s) in (object, type) or n in ("__init__", "__setattr__", "__new__"):
        return f(*a, **k)
    if n == "__contains__":
        return X_in(a[0], s)
    if n == "__getitem__":
        return X_get(s, a[0])
    if n == "__setitem__":
        return X_set(s, *a)
    if n == "__delitem__":
        return X_del(s, *a)
    if n in COMPARE and type(s) in PLAIN:
        if type(a[0]) not in PLAIN or not (isinstance(a[0], type(s)) or isinstance(s, type(a[0]))):
            return f(*a)
        return X_cmp(COMPARE[n], s, a[0])
    if n in ("__str__", "__repr__"):
        return to_str(s) if n == "__str__" else to_repr(s)
    if n in WRAPPERS and type(s) in PLAIN and contains_sym(a):
        return {"__or__": lambda x, y: X_bin("|", x, y), "__and__": lambda x, y: X_bin("&", x, y),
                "__sub__": lambda x, y: X_bin("-", x, y), "__xor__": lambda x, y: X_bin("^", x, y),
                "__mod__": lambda x, y: X_bin("%", x, y), "__ior__": lambda x, y: X_iop("|", x, y),
                "__iand__": lambda x, y: X_iop("&", x, y), "__isub__": lambda x, y: X_iop("-", x, y),
                "__ixor__": lambda x, y: X_iop("^", x, y)}.get(n, WRAPPERS[n])(s, a[0])
    with ident_hash():
        return f(*a, **k)


# pure Python functions of the standard library, instrumented in the same way as the package
TWIN_MODULES = {"textwrap": None, "html": None}
TWINS = {}
TWIN_FUNCS = {re.escape: "_re_escape"}


def _re_escape(pattern):
    return mk([y for c in elems(pattern) for y in (("\\", c) if core.test(core.resolve(c), RE_SPECIAL) else (c,))])


RE_SPECIAL = CharSet.of("()[]{}?*+-|^$\\.&~# \t\n\r\v\f")


def twin(f):
    """The instrumented counterpart of a pure Python library function."""
    if f is re.escape:
        return _re_escape
    m = f.__module__
    if m not in TWIN_MODULES:
        return f
    if TWIN_MODULES[m] is None:
        import ast
        from .instrument import Tr
        mod = sys.modules[m]
        with open(mod.__file__, encoding="utf-8") as fh:
            tree = ast.fix_missing_locations(Tr().visit(ast.parse(fh.read(), mod.__file__)))
        g = {"__name__": m, "__package__": mod.__package__, "__file__": mod.__file__}
        g.update(HOOKS)
        exec(compile(tree, mod.__file__, "exec"), g)
        TWIN_MODULES[m] = g
    return TWIN_MODULES[m].get(f.__name__, f)


class SymIO:
    """io.StringIO holding symbolic text."""
    _symx_transparent = True

    def __init__(self, initial_value="", newline="\n"):
        self.parts, self.pos = list(elems(initial_value)), 0

    def write(self, s):
        e = list(elems(s))
        self.parts[self.pos:self.pos + len(e)] = e
        self.pos += len(e)
        return len(e)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def getvalue(self):
        return mk(self.parts)

    def read(self, n=-1):
        n = len(self.parts) if n is None or n < 0 else n
        r = mk(self.parts[self.pos:self.pos + n])
        self.pos += len(r)
        return r

    def readline(self, n=-1):
        i = self.pos
        while i < len(self.parts) and not core.test(core.resolve(self.parts[i]), CharSet.of("\n")):
            i += 1
        r = mk(self.parts[self.pos:i + 1])
        self.pos += len(r)
        return r

    def readlines(self):
        return list(self)

    def __iter__(self):
        return self

    def __next__(self):
        r = self.readline()
        if not len(r):
            raise StopIteration
        return r

    def seek(self, pos, whence=0):
        self.pos = pos if whence == 0 else len(self.parts) + pos
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        del self.parts[self.pos if size is None else size:]
        return len(self.parts)

    def close(self):
        pass

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def ext_call(f, a, k):
    """A call that leaves instrumented code."""
    try:
        h = FUNC.get(f)
    except TypeError:
        h = None
    if h is MOVE:
        with ident_hash():
            return f(*a, **k)
    if h is not None:
        return h(*a, **k)
    g = getattr(f, "__globals__", None) or getattr(getattr(f, "__func__", None), "__globals__", None)
    if g is not None and (g.get("__name__", "").startswith(("harness", "symx")) or "_X_call" in g):
        return f(*a, **k)
    m = getattr(type(f), "_symx_transparent", False) or getattr(f, "_symx_transparent", False)
    if m:
        return f(*a, **k)
    s = getattr(f, "__self__", None)
    if s is not None and getattr(type(s), "_symx_transparent", False):
        return f(*a, **k)
    if placeholder_ok(f):
        return placeholder_call(f, a, k)
    if contains_sym(a) or contains_sym(k) or (getattr(f, "__module__", "") or "").startswith("yaml"):
        name = getattr(f, "__qualname__", str(f))
        EXT_LOG[name] = EXT_LOG.get(name, 0) + 1
        a = tuple(concretize_deep(x) for x in a)
        k = {n: concretize_deep(v) for n, v in k.items()}
    elif has_symtype(a) or has_symtype(k):
        a = tuple(concretize_deep(x) for x in a)
        k = {n: concretize_deep(v) for n, v in k.items()}
    r = f(*a, **k)
    if core.ST is not None and FILE_TEXT:
        if type(r) is str:
            return from_placeholders(r)
        if getattr(f, "__qualname__", "") in ("safe_load", "ArgumentParser.parse_args"):
            return from_placeholders_deep(r)
    return r


def from_placeholders_deep(x):
    """The values an external reader (of YAML, of arguments) found in text it does not interpret."""
    if type(x) is str:
        return from_placeholders(x)
    if type(x) is list:
        return [from_placeholders_deep(y) for y in x]
    if type(x) is dict:
        return {from_placeholders_deep(a): from_placeholders_deep(b) for a, b in x.items()}
    if type(x).__name__ == "Namespace":
        for n, v in list(vars(x).items()):
            setattr(x, n, from_placeholders_deep(v))
    return x


# ------------------------------------------------------------------ placeholders (opaque movement of text)
PH_BASE = 0xF0000
FILE_TEXT = {}        # placeholder code point -> element


def reset_placeholders():
    FILE_TEXT.clear()
    _PH_BACK.clear()


_PH_BACK = {}


def to_placeholders(x):
    """Symbolic characters as private code points (for code that only moves text)."""
    t = type(x)
    if t is SymStr:
        out = []
        for e in x.e:
            e = core.resolve(e)
            if type(e) is str:
                out.append(e)
            else:
                key = (e.v, e.off)
                cp = _PH_BACK.get(key)
                if cp is None:
                    cp = _PH_BACK[key] = PH_BASE + len(_PH_BACK)
                    FILE_TEXT[chr(cp)] = e
                out.append(chr(cp))
        return "".join(out)
    if t is SymInt:
        return x.__index__()
    if t is list or t is tuple:
        return t([to_placeholders(y) for y in x])
    if t is dict or isinstance(x, dict):
        return {to_placeholders(a): to_placeholders(b) for a, b in x.items()}
    return x


def from_placeholders(s):
    if not FILE_TEXT or not any(c in FILE_TEXT for c in s):
        return s
    return mk([FILE_TEXT.get(c, c) for c in s])


def placeholder_ok(f):
    q = getattr(f, "__qualname__", "")
    mod = getattr(f, "__module__", "") or ""
    return mod.startswith("jinja2") and q == "Template.render" or mod.startswith("logging") or q == "TextIOWrapper.write"


def placeholder_call(f, a, k):
    r = f(*[to_placeholders(x) for x in a], **{n: to_placeholders(v) for n, v in k.items()})
    return from_placeholders(r) if isinstance(r, str) else r


# ------------------------------------------------------------------ methods of built-in types
def str_method(s, f, a, k):
    if not a and not k:
        return f()
    n = f.__name__
    if n == "join":
        items = list(a[0])
        for x in items:
            if type(x) is SymStr:
                return SymStr.join(_sym(s) if s else EMPTY_STR, items)
        return f(items)
    if contains_sym(a) or contains_sym(k):
        if n == "format":
            return str_format(s, *a, **k)
        if n == "format_map":
            return str_format(s, **a[0])
        m = SymStr.__dict__.get(n)
        if m is not None:
            return m(_sym(s), *a, **k)
        return f(*[concretize_deep(x) for x in a], **k)
    if n == "format" and any(isinstance(getattr(type(x), "__str__", None), FunctionType) for x in a):
        return str_format(s, *a, **k)
    return f(*[x if type(x) is not SymStr else str(x) for x in a], **k)


EMPTY_STR = SymStr(())


def dict_method(d, f, a, k):
    n = f.__name__
    if n in ("items", "keys", "values", "copy", "clear", "popitem", "__len__", "__iter__"):
        if n == "copy":
            with ident_hash():
                return f()
        return f(*a)
    if n == "update":
        if isinstance(d, collections.Counter):
            return f(*a, **k)
        return _dict_update(d, *a, **k)
    if n == "get":
        r = lookup(d, a[0])
        return dget(d, r[0]) if r is not None else (a[1] if len(a) > 1 else k.get("default"))
    if n == "pop":
        r = lookup(d, a[0])
        if r is None:
            if len(a) > 1:
                return a[1]
            raise KeyError(a[0])
        v = dget(d, r[0])
        ddel(d, r[0])
        return v
    if n == "setdefault":
        r = lookup(d, a[0])
        if r is not None:
            return dget(d, r[0])
        v = a[1] if len(a) > 1 else None
        X_set(d, a[0], v)
        return v
    if n == "__contains__":
        return contains_hashed(d, a[0])
    if n == "__getitem__":
        return X_get(d, a[0])
    if n == "__setitem__":
        return X_set(d, *a)
    if n == "fromkeys":
        return h_fromkeys(*a)
    if n == "move_to_end":
        r = lookup(d, a[0])
        if r is None:
            raise KeyError(a[0])
        last = a[1] if len(a) > 1 else k.get("last", True)
        item, rest = [(r[0], dget(d, r[0]))], [(x, v) for x, v in d.items() if x is not r[0]]
        rebuild(d, rest + item if last else item + rest)
        return None
    with ident_hash():
        return f(*a, **k)


def set_method(s, f, a, k):
    n = f.__name__
    if n == "add":
        if lookup(s, a[0]) is None:
            with ident_hash():
                f(*a)
        return None
    if n in ("discard", "remove"):
        r = lookup(s, a[0])
        if r is None:
            if n == "remove":
                raise KeyError(a[0])
            return None
        rest = [x for x in s if x is not r[0]]
        with ident_hash():
            s.clear()
            s.update(rest)
        return None
    if n in COMPARE and a:
        return X_cmp(COMPARE[n], s, a[0])
    if n == "__contains__":
        return contains_hashed(s, a[0])
    if n in ("union", "update", "difference", "intersection", "symmetric_difference", "difference_update",
             "intersection_update"):
        op = {"union": "|", "update": "|", "difference": "-", "difference_update": "-", "intersection": "&",
              "intersection_update": "&", "symmetric_difference": "^"}[n]
        cur = s
        for o in a:
            cur = set_op(op, cur, o if isinstance(o, (set, frozenset)) else mkset(o))
        if n == "union" and not a:
            return s.copy()
        if n.endswith("update"):
            with ident_hash():
                s.clear()
                set.update(s, cur)
            return None
        return cur
    if n == "issubset":
        return all(X_in(x, a[0]) for x in s)
    if n == "symmetric_difference_update":
        return X_iop("^", s, mkset(a[0])) and None
    if n == "issuperset":
        return all(contains_hashed(s, x) for x in a[0])
    if n == "isdisjoint":
        return not any(contains_hashed(s, x) for x in a[0])
    with ident_hash():
        return f(*a, **k)


def pattern_method(p, f, a, k):
    if contains_sym(a) or contains_sym(k):
        fn = getattr(rex, f.__name__, None)
        if fn is not None:
            k = {("text" if n == "string" else n): v for n, v in k.items()}
            a = list(a)
            if f.__name__ in ("match", "search") and len(a) > 1:
                return fn(p, a[0], 0, *a[1:], **k)
            return fn(p, *[mk(x.e) if type(x) is SymStr else x for x in a], **k)
    return f(*[x if type(x) is not SymStr else str(x) for x in a], **k)


def enum_call(cls, a, k):
    if len(a) == 1 and not k and contains_sym(a[0]):
        for m in cls:
            if m.value == a[0]:
                return m
        missing = getattr(cls, "_missing_", None)
        if missing is not None and isinstance(getattr(missing, "__func__", None), FunctionType) and \
                "_X_call" in missing.__func__.__globals__:
            r = missing(a[0])
            if r is not None:
                return r
        raise ValueError("not a valid " + cls.__qualname__)
    return cls(*[x if type(x) is not SymStr else str(x) for x in a], **k)


# ------------------------------------------------------------------ namespace given to instrumented modules
def namespace(finder):
    real_import = builtins.__import__

    def world_import(name, globals=None, locals=None, fromlist=(), level=0):
        mods = getattr(finder, "modules", None)
        if mods is None:
            return real_import(name, globals, locals, fromlist, level)
        full = name
        if level:
            pkg = globals.get("__package__") or globals["__name__"].rpartition(".")[0]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            full = pkg + ("." + name if name else "")
        if full == finder.package or full.startswith(finder.package + "."):
            if full in mods:
                if fromlist:
                    return mods[full]
                return mods[full.split(".")[0]]
        return real_import(name, globals, locals, fromlist, level)

    b = dict(builtins.__dict__)
    b["__import__"] = world_import
    return {"__builtins__": b, **HOOKS}


HOOKS = {"_X_call": X_call, "_X_in": X_in, "_X_get": X_get, "_X_set": X_set, "_X_del": X_del,
            "_X_aug": X_aug, "_X_bin": X_bin, "_X_fmt": X_fmt, "_X_dict": mkdict, "_X_mkset": mkset,
            "_X_iter": X_iter, "_X_cmp": X_cmp, "_X_iop": X_iop, "_X_chain": X_chain}


_reg()
