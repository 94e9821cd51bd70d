"""A small Rust lexer and item finder, used to cut functions out of /repo's source verbatim."""
import re

class Lost(Exception):
    """An anchor (file, item, loop, call) a contract is attached to is not there any more."""

TOK = re.compile(r"""
 (?P<ws>\s+)
|(?P<lc>//[^\n]*)
|(?P<bc>/\*)
|(?P<rawstr>b?r(?P<h>\#*)")
|(?P<str>b?"(?:[^"\\]|\\.)*")
|(?P<life>'[A-Za-z_]\w*(?!'))
|(?P<chr>b?'(?:[^'\\]|\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F]+\}|\\.)')
|(?P<id>[A-Za-z_]\w*)
|(?P<num>\d[\w]*(?:\.\d[\w]*)?)
|(?P<op>::|->|=>|\.\.=|\.\.|.)
""", re.X | re.S)


def lex(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Lost("cannot lex at %d" % i)
        k = m.lastgroup
        e = m.end()
        if k == "h" or m.group("rawstr") is not None:
            k = "str"
            close = '"' + m.group("h")
            e = s.index(close, m.end()) + len(close)
        elif k == "bc":
            d, j = 1, m.end()
            while d:
                a, b = s.find("/*", j), s.find("*/", j)
                if a != -1 and a < b:
                    d, j = d + 1, a + 2
                else:
                    d, j = d - 1, b + 2
            e, k = j, "lc"
        elif k == "num" and e < len(s) and s[m.start():e].endswith("."):
            pass
        out.append((k, s[i:e], i, e))
        i = e
    return out


def code(toks):
    return [t for t in toks if t[0] not in ("ws", "lc")]


OPEN = {"(": ")", "[": "]", "{": "}"}


def match(c, i):
    """index of the token closing the bracket at c[i]"""
    d = 0
    for j in range(i, len(c)):
        if c[j][1] in OPEN and c[j][0] == "op":
            d += 1
        elif c[j][1] in (")", "]", "}") and c[j][0] == "op":
            d -= 1
            if d == 0:
                return j
    raise Lost("unbalanced brackets")


def strip_comments(s):
    """drop comments (doc comments included) and attributes"""
    out = []
    for k, t, a, b in lex(s):
        if k == "lc":
            out.append("\n" if "\n" in t else " ")
        else:
            out.append(t)
    s = "".join(out)
    return s


def strip_attrs(s):
    c = code(lex(s))
    cuts = []
    i = 0
    while i < len(c):
        if c[i][1] == "#" and i + 1 < len(c) and c[i + 1][1] in ("[", "!"):
            k = i + 1 if c[i + 1][1] == "[" else i + 2
            j = match(c, k)
            cuts.append((c[i][2], c[j][3]))
            i = j
        i += 1
    for a, b in reversed(cuts):
        s = s[:a] + s[b:]
    return s


class Fn:
    def __init__(self, file, container, name, sig, body, line):
        self.file, self.container, self.name, self.sig, self.body, self.line = file, container, name, sig, body, line


def norm(s):
    return re.sub(r"\s+", " ", " ".join(t[1] for t in code(lex(s)))).strip()


class Source:
    """one Rust file, comments and #[cfg(test)] modules removed"""

    def __init__(self, path, rel):
        self.path, self.rel = path, rel
        raw = open(path).read()
        self.raw = raw
        toks = lex(raw)
        buf = []
        for k, t, a, b in toks:
            buf.append(re.sub(r"[^\n]", " ", t) if k == "lc" else t)
        self.text = "".join(buf)  # same offsets as raw
        self.c = code(lex(self.text))
        self.items = []
        self._scan(0, len(self.c), None)

    def line(self, off):
        return self.text.count("\n", 0, off) + 1

    def _scan(self, i, end, container):
        c = self.c
        test = False
        start = i
        while i < end:
            k, t, a, b = c[i]
            if t == "#" and c[i + 1][1] in ("[", "!"):
                j0 = i + 1 if c[i + 1][1] == "[" else i + 2
                j = match(c, j0)
                at = "".join(x[1] for x in c[j0:j + 1])
                if re.search(r"cfg\(.*\btest\b", at) and "not(" not in at:
                    test = True
                i = j + 1
                continue
            if k == "id" and t in ("impl", "trait", "mod") and self._item_start(i):
                j = i
                while c[j][1] not in ("{", ";"):
                    j = match(c, j) if c[j][1] in ("(", "[") else j
                    j += 1
                if c[j][1] == ";":
                    i = j + 1
                    test = False
                    continue
                e = match(c, j)
                hdr = norm(self.text[c[i][2]:c[j][2]])
                if not test:
                    self.items.append((t, hdr, c[i][2], c[j][3], c[e][2], c[e][3]))
                    self._scan(j + 1, e, hdr if t != "mod" else container)
                test = False
                i = e + 1
                continue
            if k == "id" and t == "fn":
                name = c[i + 1][1]
                s = i
                while s > start and c[s - 1][1] in ("pub", "const", "unsafe", "async", ")", "crate", "(", "super"):
                    s -= 1
                j = i
                while c[j][1] not in ("{", ";"):
                    j = match(c, j) if c[j][1] in ("(", "[") else j
                    j += 1
                if c[j][1] == ";":
                    i = j + 1
                    test = False
                    continue
                e = match(c, j)
                if not test:
                    self.items.append(("fn", (container, name), c[s][2], c[j][2], c[j][3], c[e][2], c[e][3]))
                test = False
                i = e + 1
                continue
            if k == "id" and t in ("struct", "enum", "const", "type", "static", "union") and self._item_start(i):
                j = i
                while c[j][1] not in ("{", ";"):
                    j = match(c, j) if c[j][1] in ("(", "[") else j
                    j += 1
                e = match(c, j) if c[j][1] == "{" and t in ("struct", "enum", "union") else j
                while t in ("const", "static") and c[e][1] != ";":
                    e = match(c, e) if c[e][1] in OPEN else e
                    e += 1
                if not test:
                    self.items.append((t, c[i + 1][1], c[i][2], c[e][3]))
                test = False
                i = e + 1
                continue
            if t in OPEN and k == "op":
                i = match(c, i) + 1
                continue
            if t == ";":
                test = False
            i += 1

    def _item_start(self, i):
        if i == 0:
            return True
        p = self.c[i - 1][1]
        return p in ("}", ";", "]", "{", "pub", ")", "unsafe")

    def find_fn(self, name, container=None):
        """container: None = free function, or a regex searched in the normalised impl/trait header"""
        hits = [x for x in self.items if x[0] == "fn" and x[1][1] == name and (
            (container is None and x[1][0] is None) or
            (container is not None and x[1][0] is not None and re.search(container, x[1][0])))]
        if len(hits) != 1:
            raise Lost("%s: fn %s in %s: %d candidates" % (self.rel, name, container, len(hits)))
        x = hits[0]
        sig = strip_attrs(self.text[x[2]:x[3]])
        body = self.text[x[3]:x[6]]
        return Fn(self.rel, x[1][0], name, sig.strip(), body, self.line(x[2]))

    def fns(self):
        return [x[1] for x in self.items if x[0] == "fn"]

    def find_item(self, kind, name):
        hits = [x for x in self.items if x[0] == kind and x[1] == name]
        if len(hits) != 1:
            raise Lost("%s: %s %s: %d candidates" % (self.rel, kind, name, len(hits)))
        x = hits[0]
        return self.text[x[2]:x[3]]


def loops(body):
    """[(keyword offset, body-open offset, body-close offset, kind)] of the loops in source order"""
    c = code(lex(body))
    out = []
    i = 0
    while i < len(c):
        k, t, a, b = c[i]
        if k == "id" and t == "fn":  # nested function: not ours
            j = i
            while c[j][1] not in ("{", ";"):
                j = match(c, j) if c[j][1] in ("(", "[") else j
                j += 1
            i = (match(c, j) if c[j][1] == "{" else j) + 1
            continue
        if k == "id" and t in ("for", "while", "loop") and not (i and c[i - 1][1] == "<"):
            if t == "for" and i + 1 < len(c) and c[i + 1][1] == "<":
                i += 1
                continue
            j = i + 1
            while c[j][1] != "{":
                j = match(c, j) if c[j][1] in ("(", "[") else j
                j += 1
            e = match(c, j)
            out.append((a, c[j][2], c[e][2], t))
        i += 1
    return out


def nested_fns(body):
    """[(start, end, name)] of fn items inside a body"""
    c = code(lex(body))
    out, i = [], 0
    while i < len(c):
        if c[i][0] == "id" and c[i][1] == "fn" and i + 1 < len(c) and c[i + 1][0] == "id":
            j = i
            while c[j][1] not in ("{", ";"):
                j = match(c, j) if c[j][1] in ("(", "[") else j
                j += 1
            e = match(c, j)
            out.append((c[i][2], c[e][3], c[i + 1][1]))
            i = e
        i += 1
    return out


def no_continue(body):
    """`continue` in a `for` loop, where what follows can be moved into the branch that does not continue"""
    n = 0
    for k in range(len(loops(body)) - 1, -1, -1):
        kw, o, cl, kind = loops(body)[k]
        if kind != "for" or not re.search(r"\bcontinue\b", body[o:cl]):
            continue
        t, m = _tail(body[o:cl + 1])
        body, n = body[:o] + t + body[cl + 1:], n + m
    return body, n


def _upto(c, i, stops):
    while i < len(c) and c[i][1] not in stops:
        i = match(c, i) + 1 if c[i][1] in OPEN and c[i][0] == "op" else i + 1
    return i


def _ifs(c, i):
    """the if at c[i]: [(head from, block open, block close)], index after it"""
    out = []
    while True:
        j = _upto(c, i + 1, ("{",))
        e = match(c, j)
        out.append((i, j, e))
        if e + 1 < len(c) and c[e + 1][1] == "else":
            if c[e + 2][1] == "if":
                i = e + 2
                continue
            f = match(c, e + 2)
            out.append((None, e + 2, f))
            e = f
        return out, e + 1


def _arms(c, j):
    """the match block at c[j]: [(pattern from, arrow, body from, body to)]; body to is exclusive"""
    e, i, out = match(c, j), j + 1, []
    while i < e:
        a = _upto(c, i, ("=>",))
        if c[a + 1][1] == "{":
            t = match(c, a + 1) + 1
            if t < e and c[t][1] in (".", "?"):
                t = min(_upto(c, t, (",", "}")), e)
        else:
            t = min(_upto(c, a + 1, (",", "}")), e)
        out.append((i, a, a + 1, t))
        i = t + 1 if t < e and c[t][1] == "," else t
    return out


def _ends(c, j, e):
    """the block c[j]..c[e] ends in continue: index of the continue, else None"""
    k = e - 1 if c[e - 1][1] != ";" else e - 2
    return k if k > j and c[k][1] == "continue" and c[k - 1][1] in ("{", ";", "}") else None


def _names(c):
    return set(t[1] for t in c if t[0] == "id" and t[1][0].islower() and t[1] not in ("ref", "mut", "if", "else", "let", "match"))


def _tail(b):
    """b: a block in the last place of a loop body"""
    c = code(lex(b))
    end = len(c) - 1
    s = lambda i, j: b[c[i][2]:c[j - 1][3]] if i < j else ""
    i = 1
    while i < end:
        t = c[i][1]
        if t == "continue" and c[i + 1][1] in (";", "}"):
            return b[:c[i][2]] + "}", 1
        if t in ("for", "while", "loop") or c[i][0] == "life":
            i = match(c, _upto(c, i, ("{",))) + 1
            continue
        if t in ("if", "match", "{"):
            if t == "if":
                br, after = _ifs(c, i)
            elif t == "match":
                j = _upto(c, i + 1, ("{",))
                after = match(c, j) + 1
            else:
                after = match(c, i) + 1
            if c[after][1] not in (".", "?") and c[after][0] in ("op", "id"):
                if c[after][1] == ";":
                    after += 1
                stmt = s(i, after)
                if not re.search(r"\bcontinue\b", stmt):
                    i = after
                    continue
                if after >= end:  # nothing follows: every branch is in the last place
                    if t == "{":
                        x, m = _tail(s(i, after))
                        return b[:c[i][2]] + x + "}", m
                    ed, m = [], 0
                    if t == "if":
                        for h, j, e in br:
                            x, k = _tail(s(j, e + 1))
                            m += k
                            ed.append((c[j][2], c[e][3], x))
                    else:
                        for pf, a, f, g in _arms(c, j):
                            if c[f][1] == "continue" and g == f + 1:
                                x, k = "{}", 1
                            elif c[f][1] == "{" and match(c, f) + 1 == g:
                                x, k = _tail(s(f, g))
                            else:
                                continue
                            m += k
                            ed.append((c[f][2], c[g - 1][3], x))
                    for f, g, x in reversed(ed):
                        b = b[:f] + x + b[g:]
                    return b, m
                rest = s(after, end)
                if t == "if":
                    go = [x for x in br if _ends(c, x[1], x[2]) is None]
                    if br[-1][0] is not None:  # no else
                        if go:
                            return b, 0
                        x = s(i, after).rstrip(";") + " else {" + rest + "}"
                    elif len(go) == 1:
                        h, j, e = go[0]
                        x = b[c[i][2]:c[j][2]] + "{" + b[c[j][2]:c[e][3]] + rest + "}" + b[c[e][3]:c[after - 1][3]].rstrip(";")
                        if h is not None and re.search(r"\blet\b", s(h, j)) and _names(c[h:j]) & _names(c[after:end]):
                            return b, 0
                    else:
                        return b, 0
                elif t == "match":
                    arms = _arms(c, j)
                    go = [x for x in arms if not (c[x[2]][1] == "continue" or c[x[2]][1] == "{" and _ends(c, x[2], x[3] - 1) is not None)]
                    if len(go) != 1 or _names(c[go[0][0]:go[0][1]]) & _names(c[after:end]):
                        return b, 0
                    pf, a, f, g = go[0]
                    x = b[c[i][2]:c[f][2]] + "{ {" + s(f, g) + ";} " + rest + "}" + (" " if c[g][1] == "," else "") + b[c[g - 1][3]:c[after - 1][3]].rstrip(";")
                else:
                    return b, 0
                x, m = _tail("{" + x + "}")
                return b[:c[i][2]] + x[1:-1] + "}", m + 1
        e = _upto(c, i, (";", "}"))
        if t == "let" and re.search(r"\bcontinue\b", s(i, e)):
            q = _upto(c, i, ("=", "else"))
            pat, rest = s(i + 1, q), s(e + 1, end)
            r = _upto(c, q, ("else",))
            x = None
            if r < e and c[q + 1][1] not in ("if", "match"):  # let-else
                if c[r + 1][1] == "{" and _ends(c, r + 1, match(c, r + 1)) is not None:
                    x = "if let " + pat + " " + s(q, r) + " {" + rest + "} else " + s(r + 1, e)
            elif c[q + 1][1] == "if":
                br, after = _ifs(c, q + 1)
                go = [y for y in br if _ends(c, y[1], y[2]) is None]
                if after == e and len(go) == 1 and br[-1][0] is None:
                    h, j, f = go[0]
                    own = _names(c[h:j]) - _names(c[i + 1:q]) if h is not None and re.search(r"\blet\b", s(h, j)) else set()
                    if not own & _names(c[e + 1:end]):
                        x = b[c[q + 1][2]:c[j][2]] + "{ let " + pat + " = " + s(j, f + 1) + "; " + rest + "}" + b[c[f][3]:c[e - 1][3]]
            elif c[q + 1][1] == "match":
                j = _upto(c, q + 2, ("{",))
                arms = _arms(c, j)
                go = [y for y in arms if not (c[y[2]][1] == "continue" or c[y[2]][1] == "{" and _ends(c, y[2], y[3] - 1) is not None)]
                if match(c, j) + 1 == e and len(go) == 1:
                    pf, a, f, g = go[0]
                    if not (_names(c[pf:a]) - _names(c[i + 1:q])) & _names(c[e + 1:end]):
                        x = b[c[q + 1][2]:c[f][2]] + "{ let " + pat + " = " + s(f, g) + "; " + rest + "}" + b[c[g - 1][3]:c[e - 1][3]]
            if x is None:
                return b, 0
            x, m = _tail("{" + x + "}")
            return b[:c[i][2]] + x[1:-1] + "}", m + 1
        i = e + 1
    return b, 0



def open_closures(body):
    """closures without a contract (what they give is unknown to the verifier), those handed to a thread left out"""
    c = code(lex(body))
    out, i = [], 0
    while i < len(c):
        t = c[i]
        if t[1] in ("|", "||") and t[0] == "op" and i and (c[i - 1][1] in ("(", ",", "=", "{", "}", ";", "=>", "[") or c[i - 1][1] in ("return", "move", "else")):
            j = i
            if t[1] == "|":
                j = i + 1
                while c[j][1] != "|":
                    j = match(c, j) + 1 if c[j][1] in OPEN else j + 1
            if c[j + 1][1] not in ("->", "requires", "ensures") and not any("spawn" in x[1] for x in c[max(0, i - 3):i]):
                out.append(body[t[2]:c[j][3]])
            i = j
        i += 1
    return out
