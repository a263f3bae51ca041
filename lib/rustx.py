"""Mechanical extraction of Rust items from /repo's current source.

A small Rust lexer plus a brace matcher.  Nothing here knows what the extracted
functions are supposed to do: it locates an item by its path, cuts its text out
verbatim, and splices contracts (from a unit template) at structural positions
(after the signature, after the n-th loop header, at function entry, ...).
"""
import re


class LostAnchor(Exception):
    """The item / loop / token pattern a contract is attached to is not there any more."""


TOK = re.compile(
    r"""(?P<ws>\s+)
  |(?P<lc>//[^\n]*)
  |(?P<bc>/\*)
  |(?P<rstr>b?r(?P<h>\#*)"(?:.|\n)*?"(?P=h))
  |(?P<str>[bc]?"(?:[^"\\]|\\(?:.|\n))*")
  |(?P<char>b?'(?:[^'\\\n]|\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.))')
  |(?P<life>'[A-Za-z_][A-Za-z0-9_]*)
  |(?P<num>\d[0-9a-zA-Z_]*(?:\.\d[0-9a-zA-Z_]*(?:[eE][+-]?\d+)?)?)
  |(?P<id>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
  |(?P<p>::|->|=>|\.\.=|\.\.\.|\.\.|<<=|>>=|&&|\|\||==|!=|<=|>=|\+=|-=|\*=|/=|%=|\^=|&=|\|=|.)
""",
    re.X,
)


class T:
    __slots__ = ("k", "s", "a", "b")

    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b = k, s, a, b

    def __repr__(self):
        return f"{self.k}:{self.s!r}"


def lex(src):
    """All tokens without whitespace and comments."""
    i, out = 0, []
    n = len(src)
    while i < n:
        m = TOK.match(src, i)
        if not m:
            raise LostAnchor(f"cannot tokenise at offset {i}")
        k = m.lastgroup
        if k == "h":
            k = "rstr"
        if k == "bc":
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        if k not in ("ws", "lc"):
            out.append(T(k, m.group(0), m.start(), m.end()))
        i = m.end()
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = set(OPEN.values())


def match_close(toks, i):
    """toks[i] is an opening bracket: index of its closing bracket."""
    d = 0
    for j in range(i, len(toks)):
        s = toks[j].s
        if toks[j].k == "p":
            if s in OPEN:
                d += 1
            elif s in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise LostAnchor("unbalanced brackets")


ITEM_KW = {"fn", "struct", "enum", "impl", "trait", "mod", "const", "static", "type", "use", "macro_rules", "union", "extern"}
QUAL = {"pub", "const", "unsafe", "async", "extern", "default"}


class Item:
    def __init__(self, kind, name, src, attrs, start, end, sig_start, body, toks, header):
        self.kind, self.name, self.src = kind, name, src
        self.attrs = attrs  # list of attribute texts
        self.start, self.end = start, end  # char offsets, without attributes
        self.sig_start = sig_start
        self.body = body  # (open_tok_index, close_tok_index) in toks or None
        self.toks = toks
        self.header = header  # whitespace-normalised header text
        self.cfg_test = any(re.search(r"cfg\s*\(\s*test\s*\)|^#\s*\[\s*test\s*\]", a) for a in attrs)

    def text(self):
        return self.src[self.start : self.end]

    def body_span(self):
        o, c = self.body
        return self.toks[o].a, self.toks[c].b


def norm(toks):
    return " ".join(t.s for t in toks)


def items(src, toks=None, lo=0, hi=None):
    """Parse the items in toks[lo:hi]."""
    if toks is None:
        toks = lex(src)
    if hi is None:
        hi = len(toks)
    out = []
    i = lo
    while i < hi:
        attrs = []
        while i < hi and toks[i].s == "#":
            j = i + 1
            if toks[j].s == "!":
                j += 1
            e = match_close(toks, j)
            attrs.append(src[toks[i].a : toks[e].b])
            i = e + 1
        if i >= hi:
            break
        st = i
        # qualifiers
        j = i
        while j < hi:
            if toks[j].s == "pub":
                j += 1
                if j < hi and toks[j].s == "(":
                    j = match_close(toks, j) + 1
                continue
            if toks[j].s in ("unsafe", "async", "default"):
                j += 1
                continue
            if toks[j].s == "const" and j + 1 < hi and toks[j + 1].s in ("fn", "unsafe", "extern", "async"):
                j += 1
                continue
            if toks[j].s == "extern" and j + 2 < hi and toks[j + 1].k == "str":
                j += 2
                continue
            break
        if j >= hi:
            break
        kw = toks[j].s
        # find the end: ';' or '{...}' at depth 0
        k = j + 1
        body = None
        while k < hi:
            s = toks[k].s
            if toks[k].k == "p":
                if s in "([":
                    k = match_close(toks, k) + 1
                    continue
                if s == "{":
                    e = match_close(toks, k)
                    if kw in ("const", "static", "use", "type"):
                        k = e + 1
                        continue
                    body = (k, e)
                    k = e
                    break
                if s == ";":
                    break
            k += 1
        if k >= hi:
            k = hi - 1
        name = None
        if kw in ("fn", "struct", "enum", "trait", "mod", "const", "static", "type", "union"):
            name = toks[j + 1].s
        elif kw == "macro_rules":
            name = toks[j + 2].s
        hdr_end = body[0] if body else k
        header = norm(toks[j:hdr_end])
        if kw in ITEM_KW:
            out.append(Item(kw, name, src, attrs, toks[st].a, toks[k].b, toks[j].a, body, toks, header))
        i = k + 1
        if kw == "macro_rules" and i < hi and toks[i].s == ";":
            i += 1
    return out


def impl_key(h):
    """An impl header without its generic parameter list, where clause and whitespace."""
    h = re.sub(r"\s+", "", re.sub(r"\bwhere\b.*$", "", h))
    assert h.startswith("impl"), h
    r = h[4:]
    if r.startswith("<"):
        d = 0
        for i, c in enumerate(r):
            if c == "<":
                d += 1
            elif c == ">" and r[i - 1] != "-":
                d -= 1
                if d == 0:
                    r = r[i + 1 :]
                    break
    return r


def find_item(src, path):
    """path: list of selectors. A selector is 'fn name', 'struct name', 'enum name', 'const name',
    'mod name', 'trait name' or a regex for a whole normalised impl header ('impl ...')."""
    toks = lex(src)
    level = items(src, toks)
    chain = []
    for n, sel in enumerate(path):
        sel = sel.strip()
        cands = []
        for it in level:
            if it.cfg_test:
                continue
            if sel.startswith("impl"):
                if it.kind == "impl" and impl_key(it.header) == impl_key(sel):
                    cands.append(it)
            else:
                kw, nm = sel.split(None, 1)
                if it.kind == kw and it.name == nm:
                    cands.append(it)
        if n + 1 < len(path) and len(cands) > 1:
            # several impl blocks match: search all of them for the rest
            found = []
            for c in cands:
                try:
                    found.append(_descend(src, c, path[n + 1 :]))
                except LostAnchor:
                    pass
            if len(found) == 1:
                return found[0]
            raise LostAnchor(f"{path}: {len(found)} matches")
        if len(cands) != 1:
            raise LostAnchor(f"selector {sel!r}: {len(cands)} matches")
        chain.append(cands[0])
        if n + 1 < len(path):
            c = cands[0]
            if not c.body:
                raise LostAnchor(f"{sel!r} has no body")
            level = items(src, c.toks, c.body[0] + 1, c.body[1])
    return chain[-1]


def _descend(src, it, rest):
    level = items(src, it.toks, it.body[0] + 1, it.body[1])
    sel = rest[0].strip()
    kw, nm = sel.split(None, 1)
    c = [x for x in level if x.kind == kw and x.name == nm and not x.cfg_test]
    if len(c) != 1:
        raise LostAnchor(f"selector {sel!r}: {len(c)} matches")
    if len(rest) == 1:
        return c[0]
    return _descend(src, c[0], rest[1:])


def loops(toks, lo, hi):
    """Loops between token indices, in source order: (kw_index, kind, open_brace_index)."""
    out = []
    i = lo
    while i < hi:
        t = toks[i]
        if t.k == "id" and t.s in ("while", "for", "loop"):
            if t.s == "for" and i + 1 < hi and toks[i + 1].s == "<":
                i += 1
                continue
            j = i + 1
            while j < hi:
                s = toks[j].s
                if toks[j].k == "p":
                    if s in "([":
                        j = match_close(toks, j) + 1
                        continue
                    if s == "{":
                        break
                j += 1
            if j < hi:
                out.append((i, t.s, j))
        i += 1
    return out
