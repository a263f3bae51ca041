"""Instantiate a unit template: copy the template's own Verus text (spec functions, lemmas,
models of external traits) and replace every //@extract block with the item cut out of /repo's
current source, contracts spliced in.  See DESIGN.md, "Extraction"."""
import os, re
from rustx import lex, items, find_item, loops, match_close, LostAnchor

REPO = os.environ.get("VP_REPO", "/repo")
UNITS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "units")

LOGMAC = re.compile(r"\b(?:tracing::)?(?:trace|debug|info|warn|error)!\s*\(")


class Fn:
    """One extracted function (for the evidence)."""

    def __init__(self, src_file, path, name):
        self.src_file, self.path, self.name = src_file, path, name
        self.dropped = []
        self.lines = None
        self.out_lines = None
        self.has_contract = False
        self.trusted = False


def drop_log_macros(text, dropped):
    while True:
        m = LOGMAC.search(text)
        if not m:
            return text
        toks = lex(text)
        k = next(i for i, t in enumerate(toks) if t.a == m.start())
        o = next(i for i in range(k, len(toks)) if toks[i].s == "(")
        c = match_close(toks, o)
        e = toks[c].b
        if c + 1 < len(toks) and toks[c + 1].s == ";":
            e = toks[c + 1].b
            rep = ""
        else:
            rep = "()"
        dropped.append("log macro")
        text = text[: m.start()] + rep + text[e:]


def strip_inner_attrs_comments(text):
    """Drop comments and attributes inside an item."""
    toks = lex(text)
    cut = []
    i = 0
    while i < len(toks):
        if toks[i].s == "#" and i + 1 < len(toks) and toks[i + 1].s == "[":
            e = match_close(toks, i + 1)
            cut.append((toks[i].a, toks[e].b))
            i = e + 1
            continue
        i += 1
    for a, b in reversed(cut):
        text = text[:a] + " " * 0 + text[b:]
    # comments
    out, pos = [], 0
    toks = lex(text)
    for t in toks:
        gap = text[pos : t.a]
        gap = re.sub(r"//[^\n]*", "", gap)
        gap = re.sub(r"/\*(.|\n)*?\*/", " ", gap)
        out.append(gap)
        out.append(t.s)
        pos = t.b
    return "".join(out)


def byte_strings(text, dropped):
    """b"..." -> &[..u8] (same value and, after the unsizing coercion, same type)."""
    toks = lex(text)
    for t in reversed(toks):
        if t.k == "str" and t.s.startswith("b"):
            body = t.s[2:-1]
            try:
                bs = body.encode("latin1").decode("unicode_escape").encode("latin1")
            except Exception:
                continue
            text = text[: t.a] + "&[" + ", ".join(f"{x}u8" for x in bs) + "]" + text[t.b :]
            dropped.append("byte string literal written as array")
    return text


def assert_macros(text, dropped):
    """assert!(x, ..) -> must_hold(x); assert_eq!(a, b, ..) -> must_hold((a) == (b)): never failing is an obligation."""
    while True:
        toks = lex(text)
        for k in range(len(toks) - 2):
            if toks[k].s in ("assert", "assert_eq", "assert_ne", "debug_assert", "debug_assert_eq") and toks[k + 1].s == "!" and toks[k + 2].s == "(":
                d, args, e = 0, [toks[k + 2].b], None
                for q in range(k + 2, len(toks)):
                    if toks[q].k == "p" and toks[q].s in "([{":
                        d += 1
                    elif toks[q].k == "p" and toks[q].s in ")]}":
                        d -= 1
                        if d == 0:
                            e = q
                            break
                    elif toks[q].s == "," and d == 1:
                        args += [toks[q].a, toks[q].b]
                args.append(toks[e].a)
                parts = [text[args[i] : args[i + 1]].strip() for i in range(0, len(args), 2)]
                name = toks[k].s.replace("debug_", "")
                new = f"must_hold({parts[0]})" if name == "assert" else f"must_hold(({parts[0]}) {'==' if name == 'assert_eq' else '!='} ({parts[1]}))"
                text = text[: toks[k].a] + new + text[toks[e].b :]
                dropped.append("assertion macro written as a call that requires its condition")
                break
        else:
            return text


def type_item(item, text, ops, info):
    """struct / enum / const: `//@pub` makes everything public, `//@derive A,B` keeps those derives
    (they must be in the source), `//@default_enum` writes out what #[derive(Default)] means."""
    toks = lex(text)
    its = items(text, toks)
    it = its[0]
    ins = []
    if any(o[0] == "pub" for o in ops):
        if toks[0].s != "pub":
            ins.append((toks[0].a, "pub "))
        if item.kind == "struct" and it.body:
            i = it.body[0] + 1
            d = 0
            start = True
            while i < it.body[1]:
                s = toks[i].s
                if start and toks[i].k == "id":
                    if s == "pub":
                        if toks[i + 1].s == "(":
                            e = match_close(toks, i + 1)
                            ins.append((toks[i + 1].a, None, toks[e].b))
                    else:
                        ins.append((toks[i].a, "pub "))
                    start = False
                if toks[i].k == "p":
                    if s in "([{<":
                        d += 1
                    elif s in ")]}>":
                        d -= 1
                    elif s == "," and d == 0:
                        start = True
                i += 1
        elif item.kind == "struct":
            # tuple struct
            o = next(i for i, t in enumerate(toks) if t.s == "(")
            e = match_close(toks, o)
            start = True
            d = 0
            for i in range(o + 1, e):
                s = toks[i].s
                if start:
                    if s != "pub":
                        ins.append((toks[i].a, "pub "))
                    start = False
                if toks[i].k == "p":
                    if s in "([{<":
                        d += 1
                    elif s in ")]}>":
                        d -= 1
                    elif s == "," and d == 0:
                        start = True
    pos, out = 0, []
    for x in sorted(ins, key=lambda x: x[0]):
        out.append(text[pos : x[0]])
        if x[1] is None:
            pos = x[2]
        else:
            out.append(x[1])
            pos = x[0]
    out.append(text[pos:])
    res = "".join(out)
    attrs = " ".join(item.attrs)
    for o in ops:
        if o[0] == "derive":
            for d in o[1].split(","):
                if not re.search(r"\bderive\s*\([^)]*\b" + d.strip() + r"\b", attrs):
                    raise LostAnchor(f"{info.name}: derive({d}) not found")
            res = f"#[derive({o[1]})]\n" + res
        if o[0] == "attr":
            res = o[1] + "\n" + res
        if o[0] == "default_enum":
            m = re.search(r"#\[default\]\s*(?:(?:///?[^\n]*\n|#\[[^\]]*\])\s*)*([A-Za-z_0-9]+)", item.text())
            if not m:
                raise LostAnchor(f"{info.name}: no #[default] variant")
            res += f"\nimpl Default for {item.name} {{ fn default() -> (r: Self) ensures r == {item.name}::{m.group(1)} {{ {item.name}::{m.group(1)} }} }}\n"
            info.dropped.append("derive(Default) written out")
    return res


def for_parts(text, toks, kw, ob):
    inn = None
    d = 0
    for j in range(kw + 1, ob):
        s = toks[j].s
        if toks[j].k == "p" and s in "([{":
            d += 1
        elif toks[j].k == "p" and s in ")]}":
            d -= 1
        elif s == "in" and d == 0:
            inn = j
            break
    return text[toks[kw + 1].a : toks[inn - 1].b], text[toks[inn + 1].a : toks[ob - 1].b]


def string_matches(text, dropped):
    """`match S { "a" | "b" => .., }` and `match (S, e) { ("a", true) => .., }`: the string is replaced by
    the number of the literal it equals, the literals by their numbers.  (The verifier does not relate a
    literal pattern to the string's value.)  Matches of another form are left to string_patterns."""
    n = 0
    while True:
        toks = lex(text)
        done = True
        for k, t in enumerate(toks):
            if t.s != "match" or t.k != "id":
                continue
            j, d = k + 1, 0
            while not (toks[j].s == "{" and d == 0):
                if toks[j].k == "p":
                    d += (toks[j].s in "([{") - (toks[j].s in ")]}")
                j += 1
            end = match_close(toks, j)
            # arms: (pattern start, guard or =>)
            arms, a = [], j + 1
            while a < end:
                b, d, guard = a, 0, None
                while not (toks[b].s == "=>" and d == 0):
                    if toks[b].k == "p":
                        d += (toks[b].s in "([{") - (toks[b].s in ")]}")
                    if toks[b].s == "if" and d == 0 and guard is None:
                        guard = b
                    b += 1
                arms.append((a, guard if guard is not None else b))
                body = b + 1
                if toks[body].s == "{":
                    a = match_close(toks, body) + 1
                    if a < end and toks[a].s == ",":
                        a += 1
                else:
                    d = 0
                    while body < end and not (toks[body].s == "," and d == 0):
                        if toks[body].k == "p":
                            d += (toks[body].s in "([{") - (toks[body].s in ")]}")
                        body += 1
                    a = body + 1
            if not any(toks[q].k == "str" and toks[q].s.startswith('"') for a, e in arms for q in range(a, e)):
                continue

            def comps(a, e):
                """component token ranges of `( .. , .. )`, or None"""
                if toks[a].s != "(" or match_close(toks, a) != e - 1:
                    return None
                out, d, st = [], 0, a + 1
                for q in range(a + 1, e - 1):
                    if toks[q].k == "p":
                        d += (toks[q].s in "([{") - (toks[q].s in ")]}")
                    if toks[q].s == "," and d == 0:
                        out.append((st, q))
                        st = q + 1
                if st < e - 1:
                    out.append((st, e - 1))
                return out

            sc = comps(k + 1, j)
            pats = [comps(a, e) for a, e in arms]
            if sc is not None and len(sc) > 1:
                # which component
                cols = {i for p in pats if p and len(p) == len(sc) for i, (a, e) in enumerate(p) if any(toks[q].k == "str" for q in range(a, e))}
                if len(cols) != 1 or any(p is None and not (e - a == 1 and toks[a].s == "_") for p, (a, e) in zip(pats, arms)):
                    continue
                col = cols.pop()
                where = [p[col] for p in pats if p]
                target = sc[col]
            else:
                where, target = arms, (k + 1, j)
            # each pattern there: literals joined by |, or _
            ok = all(
                all(toks[q].k == "str" or toks[q].s == "|" for q in range(a, e)) or (e - a == 1 and toks[a].s == "_")
                for a, e in where
            )
            if not ok:
                continue
            lits, reps = [], []
            for a, e in where:
                for q in range(a, e):
                    if toks[q].k == "str":
                        if toks[q].s not in lits:
                            lits.append(toks[q].s)
                        reps.append((toks[q].a, toks[q].b, f"{lits.index(toks[q].s)}u32"))
            ex = text[toks[target[0]].a : toks[target[1] - 1].b]
            chain = " else ".join(f"if smat{n} == {l} {{ {i}u32 }}" for i, l in enumerate(lits)) + " else { 4294967295u32 }"
            reps.append((toks[target[0]].a, toks[target[1] - 1].b, f"(match {ex} {{ smat{n} => {{ {chain} }} }})"))
            n += 1
            for x, y, r in sorted(reps, reverse=True):
                text = text[:x] + r + text[y:]
            done = False
            break
        if done:
            return text
        if n == 1:
            dropped.append("match on a string written as a match on the number of the literal it equals")


def string_patterns(text, dropped):
    """match arms with string literal patterns: bind and compare in a guard instead
    (the verifier does not relate such a pattern to the string's value)."""
    n = 0
    while True:
        toks = lex(text)
        hit = None
        for k, t in enumerate(toks):
            if t.s != "match" or t.k != "id":
                continue
            j, d = k + 1, 0
            while not (toks[j].s == "{" and d == 0):
                if toks[j].k == "p":
                    d += (toks[j].s in "([{") - (toks[j].s in ")]}")
                j += 1
            end = match_close(toks, j)
            a = j + 1
            while a < end and hit is None:
                # pattern .. => body
                b, d, guard = a, 0, None
                while not (toks[b].s == "=>" and d == 0):
                    if toks[b].k == "p":
                        d += (toks[b].s in "([{") - (toks[b].s in ")]}")
                    if toks[b].s == "if" and d == 0 and guard is None:
                        guard = b
                    b += 1
                pe = guard if guard is not None else b
                for q in range(a, pe):
                    if toks[q].k == "str" and toks[q].s.startswith('"'):
                        r = q
                        lits = [toks[q].s]
                        while r + 2 < pe and toks[r + 1].s == "|" and toks[r + 2].k == "str":
                            lits.append(toks[r + 2].s)
                            r += 2
                        hit = (q, r, lits, guard, b)
                        break
                body = b + 1
                if toks[body].s == "{":
                    a = match_close(toks, body) + 1
                    if a < end and toks[a].s == ",":
                        a += 1
                else:
                    d = 0
                    while body < end and not (toks[body].s == "," and d == 0):
                        if toks[body].k == "p":
                            d += (toks[body].s in "([{") - (toks[body].s in ")]}")
                        body += 1
                    a = body + 1
            if hit:
                break
        if not hit:
            return text
        q, r, lits, guard, b = hit
        v = f"vpat{n}"
        n += 1
        cond = "(" + " || ".join(f"{v} == {l}" for l in lits) + ")"
        if guard is None:
            text = text[: toks[q].a] + v + text[toks[r].b : toks[b].a] + f" if {cond} " + text[toks[b].a :]
        else:
            g0, g1 = toks[guard].b, toks[b].a
            text = text[: toks[q].a] + v + text[toks[r].b : g0] + f" {cond} && ({text[g0:g1]}) " + text[g1:]
        if n == 1:
            dropped.append("string literal patterns written as guards")


def fmt_macros(text, info):
    """format!(LIT, ..) -> Shown::new().lit(..).disp(&(..))...text(); write!(w, LIT, ..) -> w.put(Shown..)"""
    while True:
        toks = lex(text)
        k = next((i for i in range(len(toks) - 2) if toks[i].s in ("format", "write") and toks[i + 1].s == "!" and toks[i + 2].s == "("), None)
        if k is None:
            return text
        c = match_close(toks, k + 2)
        args, a, d = [], k + 3, 0
        for i in range(k + 3, c + 1):
            if i == c or (toks[i].s == "," and d == 0):
                if i > a:
                    args.append((a, i, text[toks[a].a : toks[i - 1].b]))
                a = i + 1
            elif toks[i].k == "p":
                d += (toks[i].s in "([{") - (toks[i].s in ")]}")
        w = None
        if toks[k].s == "write":
            w = args.pop(0)[2]
        if not args or not re.fullmatch(r'"[^"]*"', args[0][2]):
            raise LostAnchor(f"{info.name}: format text {args[:1]!r}")
        lit, rest = args[0][2][1:-1], [x[2] for x in args[1:]]
        chain, pos = "Shown::new()", 0
        for m in re.finditer(r"\{\{|\}\}|\{([^{}]*)\}", lit):
            if m.start() > pos:
                chain += f'.lit("{lit[pos:m.start()]}")'
            pos = m.end()
            if m.group(0) in ("{{", "}}"):
                chain += f'.lit("{m.group(0)[0]}")'
            elif m.group(1) == "":
                if not rest:
                    raise LostAnchor(f"{info.name}: format arguments")
                chain += f".disp(&({rest.pop(0)}))"
            elif re.fullmatch(r"[A-Za-z_][A-Za-z_0-9]*", m.group(1)):
                chain += f".disp(&({m.group(1)}))"
            else:
                raise LostAnchor(f"{info.name}: format placeholder {m.group(0)}")
        if pos < len(lit):
            chain += f'.lit("{lit[pos:]}")'
        if rest:
            raise LostAnchor(f"{info.name}: format arguments")
        new = f"{w}.put({chain})" if w is not None else chain + ".text()"
        text = text[: toks[k].a] + new + text[toks[c].b :]
        info.dropped.append("format text written out piece by piece")


def build_fn(item, ops, info):
    text = item.text()
    text = strip_inner_attrs_comments(text)
    text = drop_log_macros(text, info.dropped)
    text = byte_strings(text, info.dropped)
    if item.kind == "fn":
        text = assert_macros(text, info.dropped)
        text = string_matches(text, info.dropped)
        text = string_patterns(text, info.dropped)
    if any(o[0] == "fmt" for o in ops):
        text = fmt_macros(text, info)
    for o in ops:
        if o[0] == "sub":
            _, pat, rep, must = o
            new, n = re.subn(pat, rep, text)
            if must and n == 0 and not info.trusted:
                raise LostAnchor(f"rewrite pattern {pat!r} does not occur in {info.name}")
            if n:
                info.dropped.append(f"rewrite {pat} => {rep}")
            text = new
    if item.kind != "fn":
        return type_item(item, text, ops, info)
    for o in ops:
        if o[0] == "hoist":
            # a nested function, extracted as an item of its own elsewhere in the unit
            tk = lex(text)
            outer = items(text, tk)[0]
            inner = [x for x in items(text, tk, outer.body[0] + 1, outer.body[1]) if x.kind == "fn" and x.name == o[1]]
            if len(inner) != 1:
                raise LostAnchor(f"{info.name}: nested fn {o[1]} not found")
            text = text[: inner[0].start] + text[inner[0].end :]
            info.dropped.append(f"nested fn {o[1]} hoisted")
    toks = lex(text)
    its = items(text, toks)
    if not its or its[0].kind != "fn" or not its[0].body:
        raise LostAnchor(f"{info.name}: not a function after rewriting")
    it = its[0]
    bo, bc = it.body
    edits = []  # (offset, order, text)  insertion only / (offset, end, text) replacement
    rep = []
    # strip const
    sig_toks = toks[: bo]
    for i, t in enumerate(sig_toks):
        if t.s == "fn":
            break
        if t.s == "const":
            rep.append((t.a, t.b, ""))
    # return name
    retname = next((o[1] for o in ops if o[0] == "ret"), "r")
    arrow = None
    d = 0
    for i in range(0, bo):
        s = toks[i].s
        if toks[i].k == "p":
            if s in "([{":
                d += 1
            elif s in ")]}":
                d -= 1
            elif s == "->" and d == 0:
                arrow = i
                break
    if arrow is not None:
        # type extends up to body or 'where'
        e = bo
        for j in range(arrow + 1, bo):
            if toks[j].s == "where":
                e = j
                break
        a, b = toks[arrow + 1].a, toks[e - 1].b
        rep.append((a, b, f"({retname}: {text[a:b]})"))
    spec = "\n".join(o[1] for o in ops if o[0] == "spec")
    if spec.strip():
        info.has_contract = True
        edits.append((toks[bo].a, 0, "\n" + spec + "\n"))
    if info.trusted:
        # contract only: proved in another unit
        sig = text[: toks[bo].a]
        for a, b, t in sorted([r for r in rep if r[1] <= toks[bo].a], reverse=True):
            sig = sig[:a] + t + sig[b:]
        return "#[verifier::external_body] " + sig + "\n" + spec + "\n{ unimplemented!() }"
    for o in ops:
        if o[0] == "attr":
            edits.append((toks[0].a, 0, o[1] + "\n"))
    entry = "\n".join(o[1] for o in ops if o[0] == "entry")
    info.probe_points = []
    mh = re.match(r"(?:\s*hide\([^)]*\);)*", entry)
    edits.append((toks[bo].b, 0, "\n" + entry[:mh.end()] + "\n/*PROBE:entry*/\n" + entry[mh.end():] + "\n"))
    ext = "\n".join(o[1] for o in ops if o[0] == "exit")
    if ext.strip():
        # ghost code at the end of the body; a result is bound to `tailv` first
        if arrow is None:
            edits.append((toks[bc].a, 9, "\n;" + ext + "\n"))
        else:
            edits.append((toks[bo].b, 9, "\nlet tailv = {\n"))
            edits.append((toks[bc].a, 9, "\n};\n" + ext + "\ntailv\n"))
    ls = loops(toks, bo + 1, bc)
    nloopspecs = [o for o in ops if o[0] in ("loop", "loopstart", "loopend", "desugar", "loopinit")]
    declared = sorted({o[1] for o in ops if o[0] == "loop"})
    want = next((o[1] for o in ops if o[0] == "nloops"), len(declared))
    if len(ls) != want:
        raise LostAnchor(f"{info.name}: {len(ls)} loops, contract written for {want}")
    for n, (kw, kind, ob) in enumerate(ls):
        cl = match_close(toks, ob)
        inv = "\n".join(o[3] for o in ops if o[0] == "loop" and o[1] == n)
        kinds = [o[2] for o in ops if o[0] == "loop" and o[1] == n]
        if kinds and kinds[0] != kind:
            raise LostAnchor(f"{info.name}: loop {n} is a {kind!r}, contract written for {kinds[0]!r}")
        start = "\n".join(o[2] for o in ops if o[0] == "loopstart" and o[1] == n)
        end = "\n".join(o[2] for o in ops if o[0] == "loopend" and o[1] == n)
        init = "\n".join(o[2] for o in ops if o[0] == "loopinit" and o[1] == n)
        des = any(o[0] == "desugar" and o[1] == n for o in ops)
        ind = any(o[0] == "index" and o[1] == n for o in ops)
        if ind:
            if kind != "for":
                raise LostAnchor(f"{info.name}: loop {n} is not a for loop")
            pat, ex = for_parts(text, toks, kw, ob)
            m = re.fullmatch(r"(?s)(.*?)\.iter\(\)(\.enumerate\(\))?(\.rev\(\))?", ex)
            byval = False
            if m:
                e, en, rv = m.group(1), m.group(2), m.group(3)
            elif ex.startswith("&") and not ex.startswith("&mut"):
                e, en, rv = ex[1:].strip(), None, None
            elif re.fullmatch(r"(?s)seq\((.*)\)(\.enumerate\(\))?", ex):
                # `seq(E)`: E is an owned sequence of Copy elements (written by a //@sub)
                en = ex.endswith(".enumerate()") or None
                e, rv, byval = (ex[: -len(".enumerate()")] if en else ex)[4:-1], None, True
            else:
                raise LostAnchor(f"{info.name}: loop {n} iterates over {ex!r}")
            amp = "" if byval else "&"
            at = f"ix{n} - 1" if not rv else f"vs{n}.len() - ix{n}"
            el = f"{amp}vs{n}[{at}]"
            if en:
                mm = re.fullmatch(r"\(\s*(&?\s*[A-Za-z_0-9]+)\s*,\s*(.*)\)", pat, re.S)
                if not mm:
                    raise LostAnchor(f"{info.name}: loop {n} pattern {pat!r}")
                binds = f"let {mm.group(1)} = {at}; let {mm.group(2)} = {el};"
            else:
                binds = f"let {pat} = {el};"
            info.dropped.append(f"for loop {n} over a sequence written as a loop over its indices")
            rep.append((toks[kw].a, toks[ob].b,
                        f"let vs{n} = {'' if byval else '&'}{e};\nlet mut ix{n}: usize = 0;\n{init}\nwhile ix{n} < vs{n}.len()\n{inv}\n{{ ix{n} = ix{n} + 1; {binds}\n/*PROBE:loop{n}*/\n{start}\n"))
            if end:
                edits.append((toks[cl].a, 0, "\n" + end + "\n"))
        elif des:
            if kind != "for":
                raise LostAnchor(f"{info.name}: loop {n} is not a for loop")
            pat, ex = for_parts(text, toks, kw, ob)
            info.dropped.append(f"for loop {n} desugared to loop/match on next()")
            rep.append((toks[kw].a, toks[ob].b,
                        f"let mut it{n} = {ex};\n{init}\nloop\n{inv}\n{{ match it{n}.next() {{ None => {{ break; }} Some({pat}) => {{\n/*PROBE:loop{n}*/\n{start}\n"))
            edits.append((toks[cl].a, 0, f"\n{end}\n}} }} "))
        else:
            if init:
                edits.append((toks[kw].a, 0, "\n" + init + "\n"))
            edits.append((toks[ob].a, 0, "\n" + inv + "\n"))
            edits.append((toks[ob].b, 0, f"\n/*PROBE:loop{n}*/\n" + start + "\n"))
            if end:
                edits.append((toks[cl].a, 0, "\n" + end + "\n"))
    for o in ops:
        if o[0] in ("after", "before"):
            body_a = toks[bo].b
            ms = list(re.finditer(o[1], text[body_a:]))
            if len(ms) != 1:
                raise LostAnchor(f"{info.name}: ghost anchor {o[1]!r} matches {len(ms)} times")
            off = body_a + (ms[0].end() if o[0] == "after" else ms[0].start())
            edits.append((off, 1, "\n" + o[2] + "\n"))
    allops = [(a, b, t) for a, b, t in rep] + [(a, a, t) for a, _, t in edits]
    allops.sort(key=lambda x: (x[0], x[1]))
    out, pos = [], 0
    for a, b, t in allops:
        if a < pos:
            raise LostAnchor(f"{info.name}: overlapping edits")
        out.append(text[pos:a])
        out.append(t)
        pos = b
    out.append(text[pos:])
    return "".join(out)


def parse_block(lines):
    """lines after //@extract up to //@end -> ops"""
    ops = []
    cur = None

    def push(x):
        ops.append(x)

    buf = None
    head = None

    def flush():
        nonlocal buf, head
        if head is None:
            return
        body = "\n".join(buf)
        k = head[0]
        if k in ("spec", "entry", "exit"):
            ops.append((k, body))
        elif k == "loop":
            ops.append(("loop", int(head[1]), head[2], body))
        elif k in ("loopstart", "loopend", "loopinit"):
            ops.append((k, int(head[1]), body))
        elif k in ("after", "before"):
            ops.append((k, head[1], body))
        head, buf = None, None

    for ln in lines:
        s = ln.strip()
        if s.startswith("//@"):
            flush()
            d = s[3:]
            kw, _, rest = d.partition(" ")
            if kw in ("sub", "sub?"):
                p, _, r = (rest + " ").partition(" ==> ")
                ops.append(("sub", p.strip(), r.strip().replace("\\n", "\n").replace("\\_", " "), kw == "sub"))
            elif kw == "ret":
                ops.append(("ret", rest.strip()))
            elif kw == "nloops":
                ops.append(("nloops", int(rest)))
            elif kw in ("desugar", "index"):
                ops.append((kw, int(rest)))
            elif kw in ("pub", "default_enum", "fmt"):
                ops.append((kw,))
            elif kw in ("derive", "attr", "hoist"):
                ops.append((kw, rest.strip()))
            elif kw in ("spec", "entry", "exit"):
                head, buf = (kw,), []
            elif kw == "loop":
                n, kind = rest.split()
                head, buf = ("loop", n, kind), []
            elif kw in ("loopstart", "loopend", "loopinit"):
                head, buf = (kw, rest.strip()), []
            elif kw in ("after", "before"):
                head, buf = (kw, rest.strip()), []
            else:
                raise ValueError(f"unknown directive {s}")
        else:
            if head is not None:
                buf.append(ln)
    flush()
    return ops


def instantiate(unit, probes=False):
    """Returns (text, fns, linemap). Raises LostAnchor."""
    fns = []
    out = _inst_file(os.path.join(UNITS, unit + ".rs"), fns)
    if probes:
        def sub(m):
            return "proof { assert(false); }/*VPPROBE*/"

        text = re.sub(r"/\*PROBE:[a-z0-9]+\*/", sub, out)
    else:
        text = out
    return text, fns


def expand_macros(src):
    """Expand `name!(x);` for macros of one identifier defined in the same file
    (`($x:ident) => { .. }`, with paste's `[<a $x>]`), keeping the line numbers."""
    for m in re.finditer(r"macro_rules!\s+(\w+)\s*\{", src):
        toks = lex(src)
        o = next(i for i, t in enumerate(toks) if t.a == m.end() - 1)
        c = match_close(toks, o)
        body = src[toks[o].b : toks[c].a]
        mm = re.match(r"\s*\(\s*\$(\w+)\s*:\s*ident\s*\)\s*=>\s*\{(.*)\}\s*;?\s*$", body, re.S)
        if not mm:
            continue
        par, b = mm.group(1), mm.group(2)
        pm = re.match(r"\s*paste::paste!\s*\{(.*)\}\s*$", b, re.S)
        if pm:
            b = pm.group(1)
        b = " ".join(strip_inner_attrs_comments(b).split())

        def one(x):
            t = re.sub(r"\$" + par + r"\b", x.group(1), b)
            return re.sub(r"\[<\s*([^>]*?)\s*>\]", lambda y: "".join(y.group(1).split()), t)

        head, rest = src[: toks[c].b], src[toks[c].b :]
        src = head + re.sub(r"\b" + m.group(1) + r"!\s*\(\s*(\w+)\s*\)\s*;", one, rest)
        break
    return src


def each_blocks(lines):
    """`//@each X in a b c` .. `//@endeach`: the lines between, once for every word."""
    out, i = [], 0
    while i < len(lines):
        m = re.match(r"\s*//@each (\w+) in (.*)", lines[i])
        if not m:
            out.append(lines[i])
            i += 1
            continue
        j = next(k for k in range(i, len(lines)) if lines[k].strip() == "//@endeach")
        for w in m.group(2).split():
            out += [x.replace("$" + m.group(1), w) for x in lines[i + 1 : j]]
        i = j + 1
    return out


def _inst_file(path, fns, trusted=False):
    lines = each_blocks(open(path).read().split("\n"))
    out = []
    i = 0
    while i < len(lines):
        s = lines[i].strip()
        if s.startswith("//@include "):
            w = s.split()
            # `//@include FILE assumed`: the contracts of its functions, without their bodies
            out.append(_inst_file(os.path.join(UNITS, w[1]), fns, trusted or w[2:] == ["assumed"]))
            i += 1
            continue
        if s.startswith("//@extract "):
            spec = s[len("//@extract "):]
            f, _, p = spec.partition("|")
            f = f.strip()
            sels = [x.strip() for x in p.split(" @ ")]
            j = i + 1
            blk = []
            while not lines[j].strip().startswith("//@end"):
                blk.append(lines[j])
                j += 1
            ops = parse_block(blk)
            fp = os.path.join(REPO, f)
            if not os.path.exists(fp):
                raise LostAnchor(f"{f} does not exist")
            src = expand_macros(open(fp, encoding="utf-8").read())
            it = find_item(src, sels)
            info = Fn(f, sels, sels[-1])
            info.lines = (src.count("\n", 0, it.start) + 1, src.count("\n", 0, it.end) + 1)
            info.kind = it.kind
            info.trusted = trusted and it.kind == "fn"
            txt = build_fn(it, ops, info)
            if it.kind == "fn" and not info.trusted:
                fns.append(info)
            mark = f"/*SRC {f}:{info.lines[0]} {' @ '.join(sels)}*/"
            out.append(mark)
            out.append(txt)
            out.append("/*ENDSRC*/")
            i = j + 1
            continue
        out.append(lines[i])
        i += 1
    return "\n".join(out)


if __name__ == "__main__":
    import sys

    t, f = instantiate(sys.argv[1], len(sys.argv) > 2)
    print(t)
