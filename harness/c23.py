"""C23 A failed parsing attempt leaves the token stream untouched."""
from harness.common import handler, new_env

BOUNDS = {"quick": "streams of up to 3 tokens of 3 types with arbitrary values of 1 character, histories of up to 5 operations out of 12 with attempts "
                   "nested up to 3 deep; collection over 5 tokens; parsers with 3 functions over 4 tokens",
          "thorough": "histories of 6 operations, collection over 6 tokens, parsers over 5 tokens"}
OUTSIDE = "the current token before anything was read; the list of stop tokens given to collect, which receives the end of the input"


class Broken(Exception):
    pass


def stream(M, S, n, types, dom, last="EOF"):
    T, K = M("mau.token").Token, M("mau.token").TokenType
    C = M("mau.text_buffer").Context
    out = []
    for i in range(n):
        t = S.choice("t%d" % i, types) if len(types) > 1 else types[0]
        out.append(T(K[t], S.str("v%d" % i, 1, dom), C(0, i, 0, i + 1, "f")))
    return out + [T(K[last], "", C(1, 0, 1, 0, "f"))]


class Ref:
    """How many tokens have been consumed."""

    def __init__(self, S, tokens):
        self.S, self.tokens, self.pos = S, tokens, 0

    def at(self, k=0):
        return self.tokens[min(self.pos + k, len(self.tokens) - 1)]

    def fits(self, t, ttype, tvalue, fn):
        return (ttype is None or t.type == ttype) and (tvalue is None or bool(t.value == tvalue)) and (fn is None or bool(fn(t.value)))

    def collect(self, stops, keep):
        out = []
        while not self.stop(self.at(), stops):
            if self.at().type.value == "LITERAL" and bool(self.at().value == "\\"):
                e = self.at()
                self.pos += 1
                if self.at().type.value == "EOF" and bool(self.at().value == ""):
                    out.append(e)
                    break
                if keep or not self.stop(self.at(), stops):
                    out.append(e)
            out.append(self.at())
            self.pos += 1
        return out

    @staticmethod
    def stop(t, stops):
        return t.type.value == "EOF" and bool(t.value == "") or any(t.type == x.type and bool(t.value == x.value) for x in stops)


def histories(M, S):
    """Any sequence of operations and nested attempts."""
    K = M("mau.token").TokenType
    T = M("mau.token").Token
    mod = M("mau.parsers.managers.tokens_manager")
    E, Other = mod.TokenError, M("mau.message").MauException
    tokens = stream(M, S, S.params["n"], S.params["types"], "ab\"\\")
    tm, ref = mod.TokensManager(tokens), Ref(S, tokens)
    left = [S.params["ops"]]
    want = {"any": (None, None, None), "type": (K.TEXT, None, None), "value": (K.TEXT, "a", None), "only value": (None, "b", None), "no value": (None, "", None),
            "function": (None, None, lambda v: v == "a" or v == "\\"), "all": (K.LITERAL, "\"", lambda v: True)}

    def here():
        S.check("next token", tm.peek_token() is ref.at(), [ref.pos])

    def block(depth):
        while left[0]:
            left[0] -= 1
            op = S.choice("op%d" % left[0], [o for o in S.params["menu"] if depth or o not in ("end", "fail", "break", "error")])
            if op == "start":
                if depth == 3:
                    return
                save, done, what = ref.pos, False, None
                try:
                    with tm:
                        what = block(depth + 1)
                        done = what is None
                        if what is not None:
                            raise what
                except (Broken, Other, ValueError) as e:
                    S.check("only a failed attempt is hidden", what is not None and e is what and type(e) is not E, [type(e).__name__])
                    ref.pos = save
                else:
                    S.check("other failures are not hidden", what is None or type(what) is E, [type(what).__name__])
                    if not done:
                        ref.pos = save
            elif op == "end":
                return None
            elif op == "fail":
                return E()
            elif op == "break":
                return S.choice("exception%d" % left[0], [Broken, ValueError])()
            elif op == "error":
                return Other(M("mau.message").MauParserErrorMessage(text="x"))
            elif op == "collect":
                keep = S.choice("keep%d" % left[0], [False, True])
                stops = [T.generate(K.LITERAL, "\"")]
                got, exp = tm.collect(list(stops), keep), ref.collect(stops, keep)
                S.check("collected", len(got) == len(exp) and all(a is b for a, b in zip(got, exp)), [len(got), len(exp)])
            elif op == "is":
                w = want[S.choice("want%d" % left[0], S.params["want"])]
                S.check("peek is", tm.peek_token_is(*w) == ref.fits(ref.at(), *w))
            else:
                w = want[S.choice("want%d" % left[0], S.params["want"])]
                good = ref.fits(ref.at(), *w)
                exp = ref.at()
                try:
                    got = tm.peek_token(*w) if op == "peek" else tm.get_token(*w)
                except E as e:
                    S.check("fitting token refused", not good, [op])
                    if depth:
                        return e
                else:
                    S.check("other token accepted", good, [op])
                    S.check("token returned", got is exp, [op])
                    if op == "get":
                        S.check("token being parsed", tm.current_token is exp)
                        ref.pos += 1
            here()
        return None

    while left[0]:
        block(0)
        here()
    rest = []
    for _ in range(len(tokens) + 1):
        rest.append(tm.get_token())
        S.check("rest of the stream", rest[-1] is ref.at())
        ref.pos += 1
    S.obs([t.value for t in rest])


def far(M, S):
    """Attempts inside attempts, however many tokens they read before they fail."""
    mod = M("mau.parsers.managers.tokens_manager")
    n, depth = S.params["n"], S.params["depth"]
    T, K, C = M("mau.token").Token, M("mau.token").TokenType, M("mau.text_buffer").Context
    w = S.str("w", 1)
    tokens = [T(K.TEXT, "a" + w, C(0, i, 0, i + 1, "f")) for i in range(n)] + [T(K.EOF, "", C(1, 0, 1, 0, "f"))]
    tm, at = mod.TokensManager(tokens), [0]

    def attempt_(d):
        start = at[0]
        reads, ok = S.choice("reads%d" % d, S.params["reads"]), S.choice("ok%d" % d, [True, False])
        done = False
        with tm:
            for _ in range(reads):
                if tm.get_token() is not tokens[min(at[0], n)]:
                    S.fail("token")
                at[0] = min(at[0] + 1, n)
            if d:
                attempt_(d - 1)
            S.check("inside", tm.peek_token() is tokens[at[0]])
            if not ok:
                raise mod.TokenError()
            done = True
        if not done:
            at[0] = start
        S.check("after", tm.peek_token() is tokens[at[0]], [d, at[0]])

    attempt_(depth)
    S.obs(at[0])
    attempt_(0) if at[0] < n else None


def collecting(M, S):
    K, T = M("mau.token").TokenType, M("mau.token").Token
    TM = M("mau.parsers.managers.tokens_manager").TokensManager
    n = S.params["n"]
    tokens = stream(M, S, n, S.params["types"], S.params["dom"])
    skip = S.choice("skip", range(S.params.get("skip", 0) + 1))
    stops = S.params["stops"]
    keep, join = S.choice("keep", [False, True]), S.choice("join", ["", " "])
    stops = [T.generate(K[a], b) for a, b in stops]
    tm, ref = TM(tokens), Ref(S, tokens)
    for _ in range(skip):
        tm.get_token()
        ref.pos += 1
    exp = ref.collect(stops, keep)
    got = tm.collect_join(list(stops), join, keep)
    S.obs([got.value, got.context.asdict()])
    values = [t.value for t in exp if bool(t.value != "")]
    text = ""
    for i, v in enumerate(values):
        text = text + (join if i else "") + v
    S.equal("text", got.value, text)
    S.equal("type", got.type.value, "TEXT")
    c = got.context
    if exp and exp[-1].type.value != "EOF":
        a, b = exp[0].context, exp[-1].context
        S.equal("position", [c.start_line, c.start_column, c.end_line, c.end_column, c.source], [a.start_line, a.start_column, b.end_line, b.end_column, "f"])
    S.check("next token is the stop", tm.peek_token() is ref.at() and Ref.stop(ref.at(), stops))


def parsers(M, S):
    """Each function of a parser starts from the same token."""
    BP = M("mau.parsers.base_parser").BaseParser
    K = M("mau.token").TokenType
    E = M("mau.parsers.managers.tokens_manager").TokenError
    n, m = S.params["n"], S.params["functions"]
    tokens = stream(M, S, n, ["TEXT"], "abc")
    got, plan = [], {}

    def act(i, pos):
        if (i, pos) not in plan:
            ok = S.choice("ok%d.%d" % (i, pos), [True, False])
            plan[i, pos] = (ok, S.choice("eats%d.%d" % (i, pos), range(1, S.params["eats"] + 1) if ok else range(S.params["eats"] + 1)))
        return plan[i, pos]

    class P(BP):
        def _process_functions(self):
            return [lambda i=i: self.run(i) for i in range(m)]

        def run(self, i):
            t = self.tm.peek_token()
            pos = [x is t for x in tokens].index(True)
            ok, eats = act(i, pos)
            got.append([i, pos, ok, eats])
            for _ in range(eats):
                self.tm.get_token(K.TEXT)
            if not ok:
                raise E()
            return True

        def finalise(self):
            got.append("end")

    p = P(tokens, handler(M), new_env(M))
    try:
        p.parse()
    except M("mau.message").MauException as e:
        got.append(["error", e.message.text, e.message.context.start_column])
    S.obs(got)
    exp, pos = [], 0
    while pos < n:
        for i in range(m):
            ok, eats = act(i, pos)
            exp.append([i, pos, ok, eats])
            if ok and pos + eats <= n:
                pos += eats
                break
        else:
            exp.append(["error", "Cannot parse token.", pos])
            break
    else:
        exp.append("end")
    S.equal("steps", got, exp)


def cases(tier):
    deep = tier != "quick"
    M1 = ("start", "get", "end", "fail", "collect", "break")
    M2 = ("start", "get", "peek", "is", "end", "error")
    L = [("LITERAL", "\"")]
    out = [("history1", histories, dict(n=2, types=["TEXT", "LITERAL"], ops=4, menu=M1, want=["any", "value"])),
           ("history2", histories, dict(n=2, types=["TEXT", "LITERAL"], ops=3, menu=M2, want=["type", "only value", "no value", "all"])),
           ("history3", histories, dict(n=3, types=["TEXT"], ops=5, menu=("start", "get", "end", "fail"), want=["any", "function"])),
           ("history4", histories, dict(n=1, types=["LITERAL"], ops=5, menu=("start", "get", "end", "fail", "error"), want=["any"])),
           ("history0", histories, dict(n=0, types=["TEXT"], ops=4, menu=M1, want=["any", "type", "no value"])),
           ("collect", collecting, dict(n=4, types=["LITERAL", "TEXT"], dom="\"\\ab", stops=L, skip=1)),
           ("collect5", collecting, dict(n=5, types=["LITERAL"], dom="\"\\a", stops=L)),
           ("collect two", collecting, dict(n=4, types=["LITERAL"], dom="\"\\:a", stops=L + [("LITERAL", ":")])),
           ("collect all", collecting, dict(n=4, types=["TEXT", "LITERAL"], dom="\\a ", stops=[])),
           ("parsers", parsers, dict(n=3, functions=2, eats=2)), ("parsers3", parsers, dict(n=2, functions=3, eats=3))]
    out.append(("far", far, dict(n=200, depth=2, reads=[0, 1, 45, 110] if not deep else [0, 1, 7, 13, 45, 64, 110])))
    if deep:
        out += [("history5", histories, dict(n=3, types=["TEXT"], ops=6, menu=("start", "get", "end", "fail"), want=["any", "value"])),
                ("history6", histories, dict(n=3, types=["TEXT", "LITERAL"], ops=4, menu=M1, want=["any", "value"])),
                ("collect6", collecting, dict(n=6, types=["LITERAL"], dom="\"\\a", stops=L)),
                ("parsers4", parsers, dict(n=4, functions=2, eats=2)), ("parsers5", parsers, dict(n=3, functions=3, eats=2))]
    return out
