"""Mechanical extraction of items from Rust source text.

What is kept: the text of the item, token for token. What is dropped or added is exactly:
 - attributes and comments in front of the item and inside it are dropped;
 - the return type of a function gets a name (`-> T` becomes `-> (r: T)`), and its contract
   is inserted between signature and body, loop invariants between loop header and loop body;
 - textual substitutions a template asks for with `subst` (listed in the template, counted).
"""
import re


class Lost(Exception):
    """An anchor that the extraction relies on is not in the source any more."""


def blank(src):
    """src with the contents of comments, strings and chars blanked, same length."""
    out = list(src)
    i, n = 0, len(src)

    def wipe(a, b):
        for k in range(a, min(b, n)):
            if out[k] != "\n":
                out[k] = " "

    while i < n:
        c = src[i]
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            wipe(i, j)
            i = j
        elif src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            wipe(i, j)
            i = j
        elif c == '"':
            j = i + 1
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            wipe(i + 1, j)
            i = j + 1
        elif c == "'":
            m = re.match(r"'(\\(x..|u\{[^}]*\}|.)|[^\\'])'", src[i:i + 14], re.S)
            if m:
                wipe(i + 1, i + m.end() - 1)
                i += m.end()
            else:
                i += 1
        else:
            i += 1
    return "".join(out)


PAIR = {"{": "}", "(": ")", "[": "]"}


def close(b, i):
    """Index behind the bracket matching the one at i (b blanked)."""
    o, c, d = b[i], PAIR[b[i]], 0
    for j in range(i, len(b)):
        if b[j] == o:
            d += 1
        elif b[j] == c:
            d -= 1
            if d == 0:
                return j + 1
    raise Lost("unbalanced " + o)


def strip(text):
    """Without comments and attributes."""
    b = blank(text)
    t = re.sub(r"/\*.*?\*/", "", text, flags=re.S)
    # remove // comments: positions where blank() wiped from a `//`
    out, i = [], 0
    b2 = blank(t)
    while i < len(t):
        if t.startswith("//", i) and b2[i] == " ":
            while i < len(t) and t[i] != "\n":
                i += 1
        else:
            out.append(t[i])
            i += 1
    t = "".join(out)
    b = blank(t)
    out, i = [], 0
    while i < len(t):
        m = re.match(r"#!?\[", b[i:i + 3])
        if m:
            i = close(b, i + m.end() - 1)
        else:
            out.append(t[i])
            i += 1
    return re.sub(r"\n\s*\n+", "\n", "".join(out))


class File:
    def __init__(self, path):
        try:
            self.src = strip(open(path).read())
        except OSError as e:
            raise Lost(str(e))
        self.b = blank(self.src)
        self.path = path

    def body_of(self, pattern):
        """(start, end) of the braces behind the text that matches pattern."""
        ms = list(re.finditer(pattern, self.b, re.S))
        if len(ms) != 1:
            raise Lost(f"{self.path}: {len(ms)} matches of {pattern!r}")
        i = self.b.find("{", ms[0].end() - 1)
        return ms[0].start(), i, close(self.b, i)

    def item(self, pattern):
        """A whole item (struct, enum, macro): from the match to its closing bracket."""
        m = re.search(pattern, self.b)
        if m:  # a tuple struct ends at its semicolon
            t = re.compile(r"[{;]").search(self.b, m.end() - 1)
            if t and t[0] == ";":
                return self.src[m.start():t.end()]
        s, i, e = self.body_of(pattern)
        return self.src[s:e]

    def fn(self, scope, name):
        """(signature, body) of function `name`, within the braces behind `scope` if given."""
        lo, hi = 0, len(self.src)
        if scope:
            _, lo, hi = self.body_of(scope)
        ms = [m for m in re.finditer(r"\b(pub(\([^)]*\))?\s+)?(const\s+)?(unsafe\s+)?fn\s+%s\b" % name, self.b) if lo <= m.start() < hi]
        if not scope and len(ms) > 1:  # the one outside of any braces
            ms = [m for m in ms if self.b[:m.start()].count("{") == self.b[:m.start()].count("}")]
        if len(ms) != 1:
            raise Lost(f"{self.path}: {len(ms)} functions {name} in {scope!r}")
        s = ms[0].start()
        # the body starts at the first `{` outside parentheses
        j, d = ms[0].end(), 0
        while True:
            c = self.b[j]
            if c in "([":
                j = close(self.b, j)
                continue
            if c == "{":
                break
            if c == ";":
                raise Lost(f"{name} has no body")
            j += 1
        e = close(self.b, j)
        return self.src[s:j].strip(), self.src[j:e]


def loops(body):
    """Positions of the opening braces of the loops in a body, in order of appearance."""
    b = blank(body)
    res = []
    for m in re.finditer(r"\b(while|loop|for)\b", b):
        j = m.end()
        if m[1] == "for" and re.match(r"\s*<", b[j:]):
            continue
        while b[j] != "{":
            j = close(b, j) if b[j] in "([" else j + 1
        # struct literals or match in a loop header do not occur in idiomatic headers
        res.append((m.start(), j))
    return res


def name_return(sig, ret="r"):
    """`-> T where W` becomes `-> (r: T) where W`."""
    b = blank(sig)
    # find `->` at depth 0 behind the parameter list
    i = b.index("(", re.search(r"\bfn\s+\w+", b).end()) if "<" not in b[:b.index("(")] else None
    if i is None:
        # skip generics
        j = re.search(r"\bfn\s+\w+", b).end()
        d = 0
        while True:
            if b[j] == "<":
                d += 1
            elif b[j] == ">" and b[j - 1] != "-":
                d -= 1
                if d == 0:
                    break
            j += 1
        i = b.index("(", j)
    e = close(b, i)
    m = re.match(r"\s*->\s*", b[e:])
    w = re.search(r"\bwhere\b", b[e:])
    wi = e + w.start() if w else len(sig)
    if not m:
        return sig[:wi], sig[wi:]
    return sig[:e] + f" -> ({ret}: " + sig[e + m.end():wi].strip() + ") ", sig[wi:]
