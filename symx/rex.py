"""Python regular expressions over symbolic strings: a backtracking matcher with sre's semantics."""
import re
from re import _constants as C
from re import _parser as P
from .core import (ALL, CharSet, SymStr, conj_eq, elems, mk, seq_eq, test, unicode_class, MAXC)

_CAT = {}


def _category(cat, ascii_):
    key = (cat, ascii_)
    cs = _CAT.get(key)
    if cs is None:
        name = {C.CATEGORY_DIGIT: r"\d", C.CATEGORY_NOT_DIGIT: r"\D", C.CATEGORY_SPACE: r"\s",
                C.CATEGORY_NOT_SPACE: r"\S", C.CATEGORY_WORD: r"\w", C.CATEGORY_NOT_WORD: r"\W"}[cat]
        rx = re.compile(name, re.ASCII if ascii_ else 0)
        rs, start = [], None
        for c in range(MAXC + 2):
            ok = c <= MAXC and not 0xD800 <= c <= 0xDFFF and rx.match(chr(c)) is not None
            if ok and start is None:
                start = c
            elif not ok and start is not None:
                rs.append((start, c - 1))
                start = None
        cs = _CAT[key] = CharSet(tuple(rs))
    return cs


def _caseset(cs, flags):
    if not flags & re.IGNORECASE:
        return cs
    pts = set()
    for lo, hi in cs.iv:
        if hi - lo > 5000:
            continue
        for c in range(lo, hi + 1):
            for s in (chr(c).lower(), chr(c).upper()):
                if len(s) == 1:
                    pts.add(ord(s))
    return cs | CharSet.from_points(pts)


_SETS = {}


def _set(items, flags):
    key = (repr(items), flags)
    cs = _SETS.get(key)
    if cs is not None:
        return cs
    out, neg = CharSet(()), False
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            out = out | CharSet(((av, av),))
        elif op is C.RANGE:
            out = out | CharSet((av,))
        elif op is C.CATEGORY:
            out = out | _category(av, bool(flags & re.ASCII))
        else:
            raise NotImplementedError(op)
    out = _caseset(out, flags)
    if neg:
        out = ALL - out
    _SETS[key] = out
    return out


NL = CharSet.of("\n")
DOT = ALL - NL


class _Matcher:
    def __init__(self, tree, text, flags):
        self.t = text
        self.n = len(text)
        self.flags = flags
        self.groups = {}

    # each m_* is a generator of end positions, in sre's order of preference
    def seq(self, items, i, k=0):
        if k == len(items):
            yield i
            return
        for j in self.node(items[k], i):
            yield from self.seq(items, j, k + 1)

    def charset(self, node):
        op, av = node
        if op is C.LITERAL:
            return _caseset(CharSet(((av, av),)), self.flags)
        if op is C.NOT_LITERAL:
            return ALL - _caseset(CharSet(((av, av),)), self.flags)
        if op is C.ANY:
            return ALL if self.flags & re.DOTALL else DOT
        if op is C.IN:
            return _set(av, self.flags)
        return None

    def node(self, node, i):
        op, av = node
        cs = self.charset(node)
        if cs is not None:
            if i < self.n and test(self.t[i], cs):
                yield i + 1
            return
        if op is C.AT:
            if self.at(av, i):
                yield i
            return
        if op is C.SUBPATTERN:
            group, add, sub, p = av
            old = self.flags
            self.flags = (self.flags | add) & ~sub
            saved = dict(self.groups)
            for j in self.seq(p.data, i):
                prev = self.groups.get(group)
                if group is not None:
                    self.groups[group] = (i, j)
                f2 = self.flags
                self.flags = old
                yield j
                self.flags = f2
                if group is not None:
                    if prev is None:
                        self.groups.pop(group, None)
                    else:
                        self.groups[group] = prev
            self.flags = old
            self.groups = saved
            return
        if op is C.BRANCH:
            for alt in av[1]:
                yield from self.seq(alt.data, i)
            return
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, p = av
            hi = None if hi is C.MAXREPEAT else hi
            if len(p.data) == 1:
                cs = self.charset(p.data[0])
                if cs is not None:
                    yield from self.rep_char(op, cs, lo, hi, i)
                    return
            if op is C.MAX_REPEAT:
                yield from self.rep_max(p.data, lo, hi, i, 0)
            elif op is C.MIN_REPEAT:
                yield from self.rep_min(p.data, lo, hi, i, 0)
            else:
                for j in self.rep_max(p.data, lo, hi, i, 0):
                    yield j
                    break
            return
        if op is C.GROUPREF:
            g = self.groups.get(av)
            if g is None:
                return
            part = self.t[g[0]:g[1]]
            if i + len(part) <= self.n and seq_eq(self.t[i:i + len(part)], part):
                yield i + len(part)
            return
        if op is C.ASSERT or op is C.ASSERT_NOT:
            direction, p = av
            ok = False
            if direction > 0:
                for _ in self.seq(p.data, i):
                    ok = True
                    break
            else:
                lo, hi = p.getwidth()
                if lo <= i:
                    for j in self.seq(p.data, i - lo):
                        if j == i:
                            ok = True
                            break
            if ok == (op is C.ASSERT):
                yield i
            return
        if op is C.ATOMIC_GROUP:
            for j in self.seq(av.data, i):
                yield j
                break
            return
        if op is C.GROUPREF_EXISTS:
            g, yes, no = av
            p = yes if g in self.groups else no
            if p is None:
                yield i
            else:
                yield from self.seq(p.data, i)
            return
        raise NotImplementedError(f"regex {op}")

    def rep_char(self, op, cs, lo, hi, i):
        limit = self.n if hi is None else min(self.n, i + hi)
        if op is C.MIN_REPEAT:
            j = i
            while j - i < lo:
                if j >= self.n or not test(self.t[j], cs):
                    return
                j += 1
            while True:
                yield j
                if j >= limit or not test(self.t[j], cs):
                    return
                j += 1
        j = i
        while j < limit and test(self.t[j], cs):
            j += 1
        if op is C.POSSESSIVE_REPEAT:
            if j - i >= lo:
                yield j
            return
        while j - i >= lo:
            yield j
            j -= 1

    def rep_max(self, items, lo, hi, i, count):
        if hi is None or count < hi:
            for j in self.seq(items, i):
                if j == i and count >= lo:
                    continue
                yield from self.rep_max(items, lo, hi, j, count + 1)
        if count >= lo:
            yield i

    def rep_min(self, items, lo, hi, i, count):
        if count >= lo:
            yield i
        if hi is None or count < hi:
            for j in self.seq(items, i):
                if j == i and count >= lo:
                    continue
                yield from self.rep_min(items, lo, hi, j, count + 1)

    def at(self, av, i):
        if av is C.AT_BEGINNING:
            if self.flags & re.MULTILINE:
                return i == 0 or test(self.t[i - 1], NL)
            return i == 0
        if av is C.AT_BEGINNING_STRING:
            return i == 0
        if av is C.AT_END_STRING:
            return i == self.n
        if av is C.AT_END:
            if i == self.n:
                return True
            if self.flags & re.MULTILINE:
                return test(self.t[i], NL)
            return i == self.n - 1 and test(self.t[i], NL)
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            w = _category(C.CATEGORY_WORD, bool(self.flags & re.ASCII))
            a = i > 0 and test(self.t[i - 1], w)
            b = i < self.n and test(self.t[i], w)
            return (a != b) == (av is C.AT_BOUNDARY)
        raise NotImplementedError(av)


class SymMatch:
    def __init__(self, pat, text, start, end, groups, gd, ngroups):
        self.re, self.string = pat, text
        self._g = dict(groups)
        self._g[0] = (start, end)
        self._gd, self._n = gd, ngroups
        self.pos, self.endpos = 0, len(text)

    def _idx(self, k):
        if isinstance(k, str):
            if k not in self._gd:
                raise IndexError("no such group")
            return self._gd[k]
        if k > self._n:
            raise IndexError("no such group")
        return k

    def _one(self, k, default=None):
        s = self._g.get(self._idx(k))
        return default if s is None else self.string[s[0]:s[1]]

    def group(self, *ks):
        if not ks:
            return self._one(0)
        if len(ks) == 1:
            return self._one(ks[0])
        return tuple(self._one(k) for k in ks)

    def __getitem__(self, k):
        return self._one(k)

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self._n + 1))

    def groupdict(self, default=None):
        return {k: self._one(i, default) for k, i in self._gd.items()}

    def start(self, k=0):
        s = self._g.get(self._idx(k))
        return -1 if s is None else s[0]

    def end(self, k=0):
        s = self._g.get(self._idx(k))
        return -1 if s is None else s[1]

    def span(self, k=0):
        return self.start(k), self.end(k)

    @property
    def lastindex(self):
        ks = [k for k in self._g if k]
        return max(ks) if ks else None

    @property
    def lastgroup(self):
        i = self.lastindex
        for k, v in self._gd.items():
            if v == i:
                return k
        return None

    def expand(self, tmpl):
        return _expand(tmpl, self)


_TREES = {}


def _tree(pat, flags=0):
    if isinstance(pat, re.Pattern):
        pattern, flags = pat.pattern, pat.flags
    else:
        pattern = pat
    key = (pattern, flags)
    t = _TREES.get(key)
    if t is None:
        tree = P.parse(pattern, flags)
        fl = tree.state.flags | flags
        t = _TREES[key] = (tree, fl, dict(tree.state.groupdict), tree.state.groups - 1)
    return t


def _match_at(pat, text, i, flags, full=False):
    tree, fl, gd, ng = _tree(pat, flags)
    m = _Matcher(tree, elems(text), fl)
    for j in m.seq(tree.data, i):
        if full and j != len(text):
            continue
        return SymMatch(pat, text, i, j, m.groups, gd, ng)
    return None


def match(pat, text, flags=0, pos=0):
    return _match_at(pat, text, pos, flags)


def fullmatch(pat, text, flags=0):
    return _match_at(pat, text, 0, flags, True)


def search(pat, text, flags=0, pos=0):
    for i in range(pos, len(text) + 1):
        m = _match_at(pat, text, i, flags)
        if m is not None:
            return m
    return None


def finditer(pat, text, flags=0):
    i, last_empty = 0, -1
    while i <= len(text):
        m = None
        for s in range(i, len(text) + 1):
            mm = _match_at(pat, text, s, flags)
            if mm is not None and mm.end() == mm.start() and mm.start() == last_empty:
                # sre does not return an empty match right after a match ending there
                mm = _nonempty_at(pat, text, s, flags)
            if mm is not None:
                m = mm
                break
        if m is None:
            return
        yield m
        i = m.end()
        last_empty = i


def _nonempty_at(pat, text, i, flags):
    tree, fl, gd, ng = _tree(pat, flags)
    m = _Matcher(tree, elems(text), fl)
    for j in m.seq(tree.data, i):
        if j != i:
            return SymMatch(pat, text, i, j, m.groups, gd, ng)
    return None


def findall(pat, text, flags=0):
    out = []
    for m in finditer(pat, text, flags):
        if m._n == 0:
            out.append(m.group())
        elif m._n == 1:
            out.append(m._one(1, ""))
        else:
            out.append(m.groups(""))
    return out


def _expand(repl, m):
    if type(repl) is SymStr:
        raise NotImplementedError("symbolic replacement template")
    tmpl = P.parse_template(repl, re.compile(m.re) if isinstance(m.re, str) else m.re)
    out = []
    for x in tmpl:
        if isinstance(x, int):
            out.extend(elems(m._one(x, "") or ""))
        else:
            out.extend(x)
    return mk(out)


def subn(pat, repl, text, count=0, flags=0):
    out, last, n = [], 0, 0
    e = elems(text)
    for m in finditer(pat, text, flags):
        out.extend(e[last:m.start()])
        if callable(repl):
            out.extend(elems(repl(m)))
        elif "\\" in repl:
            out.extend(elems(_expand(repl, m)))
        else:
            out.extend(elems(repl))
        last = m.end()
        n += 1
        if count and n >= count:
            break
    out.extend(e[last:])
    return mk(out), n


def sub(pat, repl, text, count=0, flags=0):
    return subn(pat, repl, text, count, flags)[0]


def split(pat, text, maxsplit=0, flags=0):
    out, last, n = [], 0, 0
    for m in finditer(pat, text, flags):
        if maxsplit and n >= maxsplit:
            break
        out.append(text[last:m.start()])
        out.extend(m.groups())
        last = m.end()
        n += 1
    out.append(text[last:])
    return out
