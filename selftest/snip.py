import re, io, functools, itertools, operator, collections, string, enum, contextlib
from dataclasses import dataclass
from typing import NamedTuple
RE1 = re.compile(r"[^\\=,]+")
RE2 = re.compile(r"(?P<a>[a-z])(b|c)?", re.I)
D = {"a": 1, "bc": 2, "*": 3}
FS = frozenset("abc*")
def p_match(s):
    m = RE1.match(s); return m.group(0) if m else None
def p_match_pos(s):
    m = RE1.match(s, 1); return m.group() if m else None
def p_search(s):
    m = RE1.search(s); return m and (m.start(), m.end(), m[0])
def p_groups(s):
    m = RE2.match(s); return m and (m.group("a"), m.group(2), m.groupdict(), m.groups())
def p_fullmatch(s): return RE1.fullmatch(s) is not None
def p_findall(s): return RE1.findall(s)
def p_finditer(s): return [m.group() for m in RE1.finditer(s)]
def p_sub(s): return RE1.sub("-", s)
def p_subf(s): return RE1.sub(lambda m: m.group() + "!", s)
def p_split(s): return RE1.split(s)
def p_re_bound(s):
    match = RE1.match
    return bool(match(s))
def mw_contains(s): return D.__contains__(s), FS.__contains__(s), [1].__contains__(s), "abc".__contains__(s)
def mw_eq(s): return "ab".__eq__(s), s.__eq__("ab"), s.__ne__("ab")
def mw_getitem(s): return s.__getitem__(0), s.__len__(), s.__add__("x")
def op_eq(s): return operator.eq(s, "ab"), operator.ne("a", s), operator.contains("abc", s[0]), operator.contains(D, s), operator.not_(s), operator.itemgetter(0, 1)(s)
def op_mc(s): return operator.methodcaller("strip", "x")(s), operator.methodcaller("upper")(s), operator.methodcaller("split", "=")(s)
def op_get(s): return operator.getitem(D, "a"), operator.concat(s, "x"), operator.add(s, s)
def filterf(s): return "".join(filter(None, [s, "", s])), list(filter(str.isdigit, s)), list(itertools.filterfalse(lambda c: c == "a", s))
def takew(s): return "".join(itertools.takewhile(lambda c: c != "=", s)), "".join(itertools.takewhile("ab".__contains__, s)), list(itertools.dropwhile(str.isspace, s))
def sio(s):
    b = io.StringIO(); b.write(s); b.write("x"); print(s, end="", file=b); return b.getvalue()
def sio2(s): return [l for l in io.StringIO(s)], io.StringIO(s).read(2)
def strmeth(s): return str.strip(s), str.join(",", [s, s]), str.upper(s), str.startswith(s, ("a", "b"))
def mapm(s): return list(map(str.strip, [s, "a "])), list(map(len, [s])), list(map(ord, s[:1])), any(map(str.isdigit, s))
def trans(s): return s.translate(str.maketrans({"a": "xx", "b": None})), s.translate(str.maketrans("=", "-"))
def caps(s): return s.capitalize(), s.title(), s.swapcase()
def isid(s): return s.isidentifier(), s.isupper(), s.islower(), s.istitle()
def zf(s): return s.zfill(5), s.center(7, "*"), s.expandtabs(2), s.ljust(5), f"{s:>5}", f"{s:*^5}", "%5s" % s, "{:<4}|".format(s)
def fsets(s): return set(s) <= set("abc"), set([s]) == {"abc"}, {s} | {"a"} == {"a"}, {"a"} < {s, "a"}, frozenset([s]) >= {"a"}, {s}.issubset({"a", "b"})
def augset(s):
    x = {"a"}; x |= {s}; y = {"a", "b"}; y -= {s}; z = {"a"}; z &= {s}; return sorted(x), len(y), len(z)
def augdict(s):
    d = {"a": 1}; d |= {s: 2}; return list(d.items())
class O: pass
def augattr(s):
    o = O(); o.d = {"a": 1}; e = o.d; o.d |= {s: 2}; return list(e.items()), e is o.d
def deq(s): return {s: 1} == {"ab": 1}, [s] == ["ab"], (s, 1) < ("ab", 2), {"k": s} == {"k": "ab"}
def dcomp(s): return {c: i for i, c in enumerate(s)}, {c for c in s} == {"a"}, dict(zip(s, s))
def cnt(s): return collections.Counter(s)["a"], collections.Counter(s).most_common(1)[0][1]
def ddict(s):
    d = collections.defaultdict(list); d[s].append(1); d["a"].append(2); return list(d.items())
def odict(s):
    d = collections.OrderedDict(); d[s] = 1; d["a"] = 2; d.move_to_end(s); return list(d.items())
def matchst(s):
    match s:
        case "ab" | "cd": return 1
        case str() if s.startswith("x"): return 2
        case _: return 3
def matchseq(s):
    match s.split("="):
        case [k]: return k, None
        case [k, v]: return k, v
        case [k, *r]: return k, r
def matchmap(s):
    match {"k": s}:
        case {"k": "ab"}: return 1
        case {"k": x}: return x
def walrus(s):
    if (m := re.match("a+", s)) and (n := len(m.group())) > 1: return n
    return 0
def lru(s):
    return _cached(s)
@functools.lru_cache(maxsize=None)
def _cached(s): return s.strip("a") + "x"
@functools.cache
def _cached2(s): return s + "y"
def cache2(s): return _cached2(s)
@functools.singledispatch
def sd(x): return "other"
@sd.register
def _(x: str): return x + "s"
@sd.register(list)
def _l(x): return [sd(y) for y in x]
def sdisp(s): return sd(s), sd([s]), sd(1)
@dataclass(frozen=True, order=True)
class DC:
    a: str
    b: int = 0
def dcl(s): return DC(s) == DC("ab"), DC(s) < DC("b"), hash(DC("x")) == hash(DC("x")), DC(s) in [DC("ab")]
def dclset(s): return len({DC(s), DC("ab")})
class NT(NamedTuple):
    a: str
    b: int
def nt(s): return NT(s, 1) == NT("ab", 1), NT(s, 1)._replace(b=2), {NT(s, 1): 3}.get(NT("ab", 1))
class E(enum.Enum):
    A = "a"; AB = "ab"
def enm(s):
    try: return E(s).name
    except ValueError: return None
def enm2(s): return next((m.name for m in E if m.value == s), None), s in [m.value for m in E], s in E._value2member_map_
def supp(s):
    with contextlib.suppress(KeyError): return D[s]
    return None
def red(s): return functools.reduce(lambda a, c: a + c, s, ""), functools.reduce(operator.add, s)
def grp(s): return [(k, "".join(g)) for k, g in itertools.groupby(s)], [(k, len(list(g))) for k, g in itertools.groupby(s, str.isspace)]
def chn(s): return list(itertools.chain(s, "a")), list(itertools.zip_longest(s, "a")), list(itertools.accumulate(s)), list(itertools.pairwise(s))
def bis(s):
    import bisect
    return bisect.bisect(["b", "d"], s)
def srt(s): return sorted([s, "ab", "b"]), max([s, "b"]), min("b", s), sorted([s, "b"], key=len), sorted([s, "b"], reverse=True)
def toint(s): return int(s) if s.isdigit() else -1
def toint2(s):
    try: return int(s)
    except ValueError: return None
def tofloat(s):
    try: return float(s)
    except ValueError: return None
def fmt(s): return "{}-{x}".format(s, x=s), "%s=%r" % (s, 1), f"{s!s}", string.Template("$a").substitute(a=s), "{0[0]}".format(s)
def fmtm(s): return "{a}{b}".format_map({"a": s, "b": 1})
def gattr(s): return getattr(O, s, 5), hasattr(O, s)
def vattr(s):
    o = O(); setattr(o, "x", s); return vars(o)["x"], o.__dict__["x"]
def sl(s): return s[::-1], s[1:], s[:-1], s[-1:], s[::2], s[slice(1, None)]
def cmpc(s): return "a" <= s[0] <= "z", s[0] in "a" in "ab", 97 <= ord(s[0]) < 123
def unp(s):
    a, *b = s; return a, b
def unp2(s):
    k, _, v = s.partition("="); return k, v
def unp3(s):
    try: k, v = s.split("=")
    except ValueError: return None
    return k, v
def lst(s):
    l = list(s); l.insert(0, "x"); l.reverse(); return l.index("x"), l.count("a"), "".join(l), ("a" in l)
def lstrm(s):
    l = ["b", s, "a"]
    try: l.remove("a")
    except ValueError: pass
    return l
def deqq(s):
    d = collections.deque(s); c = d.popleft(); d.append(c); return "".join(d)
def itr(s):
    it = iter(s); return next(it), "".join(it), next(it, None)
def itsent(s):
    it = iter(s); return "".join(iter(lambda: next(it, "="), "="))
def gen(s):
    def g():
        for c in s:
            if c == "=": return
            yield c
        yield from "z"
    return list(g())
def anyall(s): return any(c in "ab" for c in s), all(c.isalnum() for c in s), sum(c == "a" for c in s), sum(1 for c in s if c == "a")
def whl(s):
    i = 0
    while i < len(s) and s[i] not in {"=", " "}: i += 1
    return s[:i], s[i:]
def rng(s): return [i for i in range(len(s)) if s[i] == "a"], next((i for i, c in enumerate(s) if c == "a"), -1)
def mult(s): return s * 2, 2 * s, s + s, "".join([s] * 2)
def truth(s): return bool(s), not s, s and 1, s or 2, len(s) > 0
def ident(s): return s is s, s == s, id(s) == id(s), hash("a") == hash("a")
def hsh(s): return {hash(s): 1}[hash(s)], hash(s) == hash("ab")
def tp(s): return {("a", s): 1}.get(("a", "ab")), ("a", s) in {("a", "ab")}
def chm(s): return collections.ChainMap({"a": 1}, {"b": 2}).get(s), s in collections.ChainMap({"a": 1}, {"b": 2})
def dwl(s): return re.escape(s)
def shx(s):
    import textwrap
    return textwrap.dedent(s), textwrap.indent(s, "  ")
def js(s):
    import json
    return json.dumps(s)
def htm(s):
    import html
    return html.escape(s)
def byt(s): return s.encode().decode(), len(s.encode("utf-8"))
def dget2(s): return D.get(s), D.get(s, 0), D.setdefault("a", s), list(D), dict(D, **{"z": s}), {**D, s: 1}
def dpop(s):
    d = {"a": 1, "b": 2}; return d.pop(s, None), list(d)
def ddel2(s):
    d = {"a": 1, "b": 2}
    if s in d: del d[s]
    return list(d)
def sdisc(s):
    x = {"a", "b"}; x.discard(s); return len(x)
def exc(s):
    try: raise ValueError(s)
    except ValueError as e: return str(e), e.args[0]
def cm(s):
    @contextlib.contextmanager
    def c():
        yield s + "x"
    with c() as y: return y
def part(s): return functools.partial(str.replace, s, "a")("b"), functools.partial(str.startswith)(s, "a")
def lam(s): return (lambda x, *, k="": x + k)(s, k=s)
def cls(s):
    class P:
        def __init__(self, v): self.v = v
        def __eq__(self, o): return self.v == o.v
        def __hash__(self): return hash(self.v)
        def __str__(self): return "<" + self.v + ">"
        def __len__(self): return len(self.v)
        def __contains__(self, c): return c in self.v
        def __iter__(self): return iter(self.v)
        def __getitem__(self, i): return self.v[i]
    p = P(s)
    return str(p), f"{p}", len(p), "a" in p, list(p), p[0], p == P("ab"), len({p, P("ab")}), P("ab") in {p: 1}
def chainset(s):
    d = {"a": 1}; x = d[s] = 5; y, d["b"] = s, 2; d[s + "z"], [z, *d["c"]] = 1, s
    return list(d.items()), x, y, z
def augl(s):
    d = {s: [1]}; e = d[s]; d[s] += [2]; n = {"k": 1}; n["k"] += 1; n[s] = n.get(s, 0) + 1; return list(d.items()), e, list(n.items())
def memo(s, c={}):
    if s not in c: c[s] = s + "!"
    return c[s], len(c)
def delm(s):
    d = {"a": 1, "b": 2, "c": 3}; del d["a"], d["b"]; return list(d)
def nestf(s):
    tot = []
    def add(x):
        nonlocal tot
        tot = tot + [x]
    for c in s: add(c)
    return tot
def elsefor(s):
    for c in s:
        if c == "a": break
    else: return "none"
    return "a"
def tryf(s):
    try: return {"a": 1}[s]
    except KeyError as e: return "no", e.args[0] == s
    finally: pass
def setcomp(s): return len({c.lower() for c in s}), {c: 1 for c in s if c != "a"}, [x for y in [s, "q"] for x in y]
def ternary(s): return ("x" if s[0] == "a" else "y") + (s[1:2] or "-")
def starargs(s):
    def f(*a, k=None, **kw): return a, k, list(kw.items())
    return f(*s, k=s, **{"z": s})
def fstr(s): return f"{s[0]!s:>3}|{len(s):03d}|{s!r:.5}" if False else f"{s[0]!s:>3}|{len(s):03d}"
def osp(s):
    import os.path
    return os.path.join("d", s) if "/" not in s else ""
def rj(s): return s.rjust(4, "*"), s.ljust(4) + "|", s.partition("a"), s.rpartition("a"), s.rsplit("a", 1), s.splitlines(True)
def cmpstr(s): return s < "b", s >= "ab", "b" > s, min(s), max(s), sorted(s)
def ords(s): return [ord(c) - 32 for c in s], chr(ord(s[0]) + 1)
def cntm(s): return s.count("a"), s.find("b"), s.rfind("b"), s.index("a") if "a" in s else -1
def repl(s): return s.replace("a", "bb"), s.replace("ab", ""), s.replace("a", "x", 1)
def prefixes(s): return s.removeprefix("a"), s.removesuffix("a"), s.startswith(("ab", "x")), s.endswith("b"), s.lstrip("ab"), s.strip(" =")
def cached(s):
    from functools import lru_cache
    @lru_cache
    def g(x): return x + "1"
    return g(s), g(s)
def dictview(s):
    d = {s: 1, "a": 2}; return d.keys() & {"a"} == {"a"}, len(d.keys() | {"b"}), s in d.keys(), 1 in d.values(), (s, 1) in d.items()
def frozen(s): return frozenset({s}) == frozenset({"ab"}), {frozenset({"ab"}): 1}.get(frozenset({"ab"}))
def sumst(s): return sum(len(x) for x in s.split("=")), sum([[c] for c in s], [])
def wh(s):
    out = ""
    it = list(s)
    while it:
        c = it.pop(0)
        match c:
            case "=": break
            case "a" | "b": out += c.upper()
            case _ if c.isspace(): continue
            case _: out += c
    return out
