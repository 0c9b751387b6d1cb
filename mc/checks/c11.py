"""C11: structured values (clip, quotes, cursor, url, border-spacing)."""
import re
from itertools import product

from .. import edits
from .. import ref_css as rs
from .. import ref_units as ru
from ..world import BorderSpacing, CSS, Cursor, Quotes, Rect, Uri, call, canon, real, real_parser

ID = "C11"
RULE = ("clip: every sequence up to the length bound of syntax tokens inside and around rect(), and every 4-tuple of "
        "lengths with commas or blanks; quotes: every sequence up to the length bound of quoted and unquoted tokens as "
        "text, as flat list and tuple, and every list of pairs; cursor: every sequence of urls, keywords and bad parts, as "
        "text and as list, tuple and parsed items; url: every combination of function, blanks, quotes and address; "
        "spacing: every sequence up to length 3 of lengths and bad parts as text, list, tuple, number and length. "
        "edit: every text one edit, and over a smaller alphabet two edits, away from well-formed texts of each kind. Each goes through the parser and through the property; wrong types go to all of them")
BOUNDS = dict(quick="clip: 6 tokens of 6 inside rect(); quotes: 5 of 8 tokens; cursor: 4 of 9 parts; spacing: 3 of 14; one edit of 40 texts, two edits over 6-8 characters of 10",
              thorough="clip: 8 tokens of 6; quotes: 6 of 10 tokens; cursor: 5 of 10 parts; spacing: 4 of 14")

CLIPTOK = ["1px", "2em", ",", " ", "-3.5", "x"]
LENGTHS = ["0", "1 0px", "1px", "2.5em", "-3mm", "4", "5in", "6vw"]
QTEXT = ["'<'", '">"', "'« '", "''", "<", "1", "'a b'", "' '", '"\'"', "None"]
QITEM = ["<", ">", "ab", "", 1, "a b", None, "'", '"', "\\", "«"]
CUR = ["auto", "move", "url(a.png)", "url('b c')", 'url( "d" )', "foo", "", "url(x", "urlx)", "inherit"]
SPACE = ["0", "1px", "2.5em", "3mm", "4", "x", "px", "10deg", 5, 0, 1.5, ("!unit", 2, "in"), ("!unit", 1, "deg"), None]
WRONG = [("!obj",), 5, 1.5, 0, {}, set() or None, ("!unit", 1, "px"), ("!rgb", 1, 2, 3), ("!uri", "x"), b"rect(1,2,3,4)", ["a"], [None], [[]], [1], (1,), [("a",)], "x", "", " ",
         "rect", "rect()", "auto2", "url", "url)", "url(", "rect(1px)", "rect(1px,2px,3px)", "rect(1px,2px,3px,4px,5px)",
         "rect(rect(1px,2px,3px,4px))", "rect(1px,2px,3px,4px))", "rect((1px,2px,3px,4px)", "Rect 1px 2px 3px 4px", "rect 1px,2px,3px,4px",
         "rect1px,2px,3px,4px)", "rec(1px,2px,3px,4px)", "rect(1px,2px,3px,4px) x", "rect[1px,2px,3px,4px]", "rect(auto,1px,2px,3px)",
         "rect(1deg,1px,2px,3px)", "rect(inf,1px,2px,3px)"]


NEAR = dict(
    clip=["rect(1px, 2px, 3px, 4px)", "rect(1px 2px 3px 4px)", "rect(1,2em,-3,4.5mm)", "rect( 1 2 3 4 )"],
    quotes=["'<' '>'", '"<" ">"', "'a b' 'c'", "'<' '>' '[' ']'", '"\'" "x"'],
    cursor=sorted(rs.CURSORS) + ["url(a.png)", "url(a.png), move", "url('a'), url(b), help", 'url( "a" ),e-resize', "url(a,b), text"],
    border_spacing=["1px", "1px 2px", "1 2.5em", "0 0", "10mm  4"],
    uri=["url(a.png)", "url('a')", 'url( "a b" )', "url()"])
NEARCH = dict(clip="015.,()- +%pxemrctR;/", quotes="<>'\" ab1,;[](", cursor="aeosu-_,();'\" 1M.", border_spacing="015.,()- +%pxem;/", uri="au()'\" .,xL")
NEARCH2 = dict(clip=",() 1-", quotes="'\" <,1", cursor=",()- _'", border_spacing=" ,1.p", uri="()'\" u")


def cases(tier):
    for name in sorted(NEAR):
        for t in NEAR[name]:
            yield ("edit", name, t)
            for i in range(len(t) + 1):
                yield ("edit2", name, t, i, NEARCH2[name] if tier == "quick" else NEARCH[name])
    for k in ("clip", "quotes", "cursor", "border_spacing", "uri"):
        for w in WRONG:
            yield ("wrong", k, w)
    for a, b in product(LENGTHS, repeat=2):
        yield ("rect4", a, b)
    n = 6 if tier == "quick" else 8
    for t in product(CLIPTOK, repeat=2):
        yield ("clip", t, n - 2)
    for x in (("!rect", ("!unit", 1, "px"), ("!unit", 2, "px"), ("!unit", 3, "px"), ("!unit", 4, "px")),):
        yield ("keep", "clip", x)
    for x in (("!quotes", ("<", ">")), ("!quotes", ("<", ">"), ("a", "b"), ("c", "d"))):
        yield ("keep", "quotes", x)
    for x in (("!cursor",), ("!cursor", "auto"), ("!cursor", ("!uri", "a"), "move"), ("!cursor", ("!uri", "a"), ("!uri", "b"))):
        yield ("keep", "cursor", x)
    for x in (("!spacing", ("!unit", 1, "px")), ("!spacing", ("!unit", 1, "px"), ("!unit", 0, "em"))):
        yield ("keep", "border_spacing", x)
    yield ("keep", "uri", ("!uri", "a b"))
    toks = QTEXT[:8] if tier == "quick" else QTEXT
    for d in range(1, 6 if tier == "quick" else 7):
        for t in product(range(len(toks)), repeat=min(d, 2)):
            yield ("qtext", tuple(toks[i] for i in t), d - len(t), tuple(toks))
    items = QITEM[:8] if tier == "quick" else QITEM
    for d in range(1, 5):
        for t in product(range(len(items)), repeat=min(d, 2)):
            yield ("qseq", tuple(items[i] for i in t), d - len(t), tuple(items))
    for t in product(range(len(items)), repeat=2):
        yield ("qpairs", tuple(items[i] for i in t), tuple(items))
    cur = CUR[:9] if tier == "quick" else CUR
    for d in range(1, 5 if tier == "quick" else 6):
        for t in product(range(len(cur)), repeat=min(d, 2)):
            yield ("cursor", tuple(cur[i] for i in t), d - len(t), tuple(cur))
    for q1 in ("", "'", '"'):
        for body in ("a.png", "http://x.y/z?q=1", "a b", "rel/../p#f", "", "url", "a(b", "a(b)", "a)", "(a)", "url(a)", "A.PNG", "data:image/png;base64,AA==", "a, b,c", "a%20b", "a\tb", "é", "a;b"):
            yield ("url", q1, body)
    for k in rs.CURSORS:
        yield ("curkey", k)
    for d in range(0, 4 if tier == "quick" else 5):
        for t in product(range(len(SPACE)), repeat=d):
            yield ("space", tuple(SPACE[i] for i in t))


# ------------------------------------------------------------------ reference
def ref_rect(text):
    """tuple of 4 canonical lengths (top, right, bottom, left), None, or '?'"""
    if not text.startswith("rect(") or not text.endswith(")"):
        return None
    inner = text[5:-1].strip(" ")
    if "(" in inner or ")" in inner:
        return None
    parts = [p.strip(" ") for p in inner.split(",")] if "," in inner else inner.split()
    if len(parts) != 4:
        return None
    out = []
    for p in parts:
        if " " in p:
            # a length with a blank before its unit gets no verdict; digits apart are no length
            bits = p.split()
            return "?" if "," in inner and len(bits) == 2 and ru.parse(bits[0] + "px") and not ru.parse(bits[1]) and ru.parse("".join(bits)) else None
        r = ru.parse(p)
        if r is None:
            return None
        out.append(("unit", r[0] + 0.0, r[1]))
    return tuple(out)


def judge_clip(text, rec):
    want = ref_rect(text)
    if want == "?":
        return
    for how in ("parser", "property"):
        css = CSS()
        if how == "parser":
            res = call(real_parser.rect, text)
        else:
            res = call(setattr, css, "clip", text)
            if res[0] == "ok":
                res = ("ok", css.clip)
        rec.ops += 1
        if want is None:
            if res[0] == "ok" or not res[2]:
                rec.fail(f"clip {text!r} ({how}): {res}, expected ValueError")
            continue
        if res[0] != "ok" or not isinstance(res[1], Rect):
            rec.fail(f"clip {text!r} ({how}): {res}, expected {want}")
        got = canon(res[1])
        rec.state(got)
        if got == ("rect",) + want:
            continue
        if got == ("rect", want[0], want[1], want[3], want[2]):
            rec.known("K3", f"{text!r} gives bottom and left exchanged: {got}")
            continue
        rec.fail(f"clip {text!r} ({how}): {got}, expected {want}")


def expect(name, fn, value, want, rec, label):
    """want: canonical value or None for ValueError. Parser and property."""
    for how in ("parser", "property"):
        css = CSS()
        if how == "parser":
            res = call(fn, real(value))
        elif name == "uri":
            continue
        else:
            res = call(setattr, css, name, real(value))
            if res[0] == "ok":
                res = ("ok", getattr(css, name))
        rec.ops += 1
        if want is None:
            if res[0] == "ok" or not res[2]:
                rec.fail(f"{label} {value!r} ({how}): {res}, expected ValueError")
        else:
            got = canon(res[1]) if res[0] == "ok" else res
            if got != want:
                rec.fail(f"{label} {value!r} ({how}): {got}, expected {want}")
            rec.state(got)


PARSERS = dict(clip=real_parser.rect, quotes=real_parser.quotes, cursor=real_parser.cursor,
               border_spacing=real_parser.border_spacing, uri=real_parser.uri)


def ref_qtext(tokens):
    vals = []
    for t in tokens:
        if len(t) < 3 or t[0] not in "'\"" or t[-1] != t[0]:
            return None
        vals.append(t[1:-1])
    if not vals or len(vals) % 2:
        return None
    return ("quotes",) + tuple((vals[i], vals[i + 1]) for i in range(0, len(vals), 2))


def ref_qflat(items):
    if not items or len(items) % 2 or any(not isinstance(x, str) or not x for x in items):
        return None
    return ("quotes",) + tuple((items[i], items[i + 1]) for i in range(0, len(items), 2))


URLS = {"url(a.png)": "a.png", "url('b c')": "b c", 'url( "d" )': "d"}


def ref_cursor(parts):
    out = []
    for i, p in enumerate(parts):
        if p in rs.CURSORS:
            if i != len(parts) - 1:
                return None
            out.append(p)
        elif p in URLS:
            out.append(("uri", URLS[p]))
        else:
            return None
    return ("cursor",) + tuple(out)


QUOTED = r"""(?:"[^"\\\\]*"|'[^'\\\\]*')"""


def ref_quotes_text(text):
    if re.fullmatch(rf"\s*(?:{QUOTED}(?:\s+{QUOTED})*)?\s*", text):
        vals = [v[1:-1] for v in re.findall(QUOTED, text)]
        if not vals or len(vals) % 2 or not all(vals):
            return None
        return ("quotes",) + tuple(zip(vals[::2], vals[1::2]))
    kinds = [q for q in "'\"" if q in text]
    if not kinds:
        return None
    if len(kinds) == 1 and text.count(kinds[0]) % 2 and kinds[0] * 3 not in text and "\\" not in text:
        return None
    return "?"


def ref_uri_text(text):
    if text != text.strip():
        return "?"
    if not (text.startswith("url(") and text.endswith(")")):
        return None
    body = text[4:-1].strip()
    if "(" in body or ")" in body:
        return "?"
    for q in "'\"":
        if len(body) > 1 and body[0] == q and body[-1] == q and q not in body[1:-1]:
            return ("uri", body[1:-1])
    return "?" if "'" in body or '"' in body else ("uri", body)


def ref_cursor_text(text):
    if not text.strip():
        return "?"
    if text.count("(") + text.count(")") == 1:
        return None
    if re.search(r"\([^)]*\(|^[^(]*\)|\)[^(]*\)|\([^)]*$", text):
        return "?"
    parts, depth = [""], 0
    for c in text:
        depth += (c == "(") - (c == ")")
        if c == "," and not depth:
            parts.append("")
        else:
            parts[-1] += c
    out, open_ = [], False
    for i, p in enumerate(parts):
        p = p.strip()
        if p in rs.CURSORS:
            r = p if i == len(parts) - 1 else None
        else:
            r = ref_uri_text(p)
        if r is None:
            return None
        open_ = open_ or r == "?"
        out.append(r)
    return "?" if open_ else ("cursor",) + tuple(out)


def ref_spacing_text(text):
    if text != text.strip():
        return "?"
    ls = [rs._length(p) for p in text.split()]
    if not 1 <= len(ls) <= 2 or rs.REJECT in ls:
        return None
    return "?" if rs.UNKNOWN in ls else ("spacing", ls[0], ls[-1])


def near(name, text, rec):
    if name == "clip":
        if text != text.strip() or text in ("auto", "inherit", "initial", "unset", "revert"):
            return
        return judge_clip(text, rec)
    want = dict(quotes=ref_quotes_text, cursor=ref_cursor_text, border_spacing=ref_spacing_text, uri=ref_uri_text)[name](text)
    if want != "?":
        expect(name, PARSERS[name], text, want, rec, name)


def extend(prefix, more, pool):
    if more == 0:
        yield prefix
    else:
        for t in product(pool, repeat=more):
            yield prefix + t


def check(case, rec):
    kind = case[0]
    if kind == "wrong":
        _, name, w = case
        fn = PARSERS[name]
        if name == "uri" and isinstance(w, tuple) and w[:1] == ("!uri",):
            return rec.skip()
        if name == "border_spacing":
            if w in (5, 1.5, 0, [1], (1,)) or (isinstance(w, tuple) and w[:1] == ("!unit",)):
                return rec.skip()
        if name in ("clip", "quotes", "border_spacing") and w is None:
            pass
        if isinstance(w, bytes):
            return rec.skip()
        if name in ("quotes",) and w is None:
            return rec.skip()
        if isinstance(w, str) and w != w.strip():
            return rec.skip()
        expect(name, fn, w, None, rec, name)
    elif kind == "edit":
        for t in edits.one(case[2], NEARCH[case[1]]):
            near(case[1], t, rec)
    elif kind == "edit2":
        _, name, t, i, ch = case
        for a in {t[:i] + t[i + 1:]} | {t[:i] + c + t[i:] for c in ch} | {t[:i] + c + t[i + 1:] for c in ch}:
            for b in edits.few(a, ch):
                near(name, b, rec)
    elif kind == "rect4":
        for c, d in product(LENGTHS, repeat=2):
            ls = [case[1], case[2], c, d]
            for sep in (",", ", ", " , ", " ", "  "):
                judge_clip("rect(" + sep.join(ls) + ")", rec)
            judge_clip("rect( " + ", ".join(ls) + " )", rec)
            judge_clip("rect(" + ls[0] + ", " + " ".join(ls[1:]) + ")", rec)
    elif kind == "clip":
        _, t, more = case
        for d in range(more + 1):
            for r in product(CLIPTOK, repeat=d):
                judge_clip("rect(" + "".join(t + r) + ")", rec)
    elif kind == "keep":
        _, name, x = case
        v = real(x)
        before = canon(v)
        res = PARSERS[name](v)
        rec.op()
        if canon(res) != before or canon(v) != before:
            rec.fail(f"{name}: parsed value {before} becomes {canon(res)}")
        if name != "uri":
            css = CSS()
            css[name] = v
            if canon(css[name]) != before or canon(v) != before:
                rec.fail(f"{name}: parsed value {before} stored as {canon(css[name])}")
        rec.state(before)
    elif kind == "qtext":
        _, t, more, pool = case
        for tokens in extend(t, more, pool):
            want = ref_qtext(tokens)
            expect("quotes", real_parser.quotes, " ".join(tokens), want, rec, "quotes")
            expect("quotes", real_parser.quotes, "  ".join(tokens), want, rec, "quotes")
    elif kind == "qseq":
        _, t, more, pool = case
        for items in extend(t, more, pool):
            if list(items) == [None]:
                continue
            want = ref_qflat(items)
            expect("quotes", real_parser.quotes, list(items), want, rec, "quotes")
            expect("quotes", real_parser.quotes, tuple(items), want, rec, "quotes")
    elif kind == "qpairs":
        _, t, pool = case
        expect("quotes", real_parser.quotes, [t], ref_qflat(t), rec, "quotes")
        for u in product(pool, repeat=2):
            want = ref_qflat(t + u)
            expect("quotes", real_parser.quotes, [t, u], want, rec, "quotes")
            expect("quotes", real_parser.quotes, (list(t), list(u)), want, rec, "quotes")
            expect("quotes", real_parser.quotes, [t, u, ("[", "]")], want and want + (("[", "]"),), rec, "quotes")
    elif kind == "cursor":
        _, t, more, pool = case
        for parts in extend(t, more, pool):
            if parts in (("inherit",), ("",)):
                continue
            want = ref_cursor(parts)
            texts = (", ".join(parts), ",".join(parts))
            if "url(x" in parts and "urlx)" in parts:
                texts = ()  # the parentheses of one part close in another
            for v in texts + (list(parts), tuple(parts)):
                expect("cursor", real_parser.cursor, v, want, rec, "cursor")
            urls = [i for i, p in enumerate(parts) if p in URLS]
            for pick in product((0, 1), repeat=len(urls)):
                if any(pick):
                    chosen = {i for i, on in zip(urls, pick) if on}
                    mixed = [("!uri", URLS[p]) if i in chosen else p for i, p in enumerate(parts)]
                    expect("cursor", real_parser.cursor, mixed, want, rec, "cursor")
    elif kind == "curkey":
        k = case[1]
        for v, want in ((k, (k,)), ([k], (k,)), ("url(x), " + k, (("uri", "x"), k)), ([k, k], None), (k + ", url(x)", None), (k + " " + k, None),
                        (k[:-1], None), ("x" + k, None)):
            expect("cursor", real_parser.cursor, v, want and ("cursor",) + want, rec, "cursor")
    elif kind == "url":
        _, q, body = case
        for q2, l, r in product(("", "'", '"'), ("", " ", "  "), ("", " ")):
            if q2 != q:
                continue
            for text in (f"url({l}{q}{body}{q}{r})", f" url({l}{q}{body}{q}{r}) "):
                expect("uri", real_parser.uri, text, ("uri", body), rec, "url")
            for text in (f"url{q}{body}{q})", f"url({l}{q}{body}{q}", f"uri({q}{body}{q})", f"{q}{body}{q}", f"({q}{body}{q})", f"x url({q}{body}{q})", f"url({q}{body}{q}) x"):
                if text.startswith("url(") and text.endswith(")"):
                    continue
                expect("uri", real_parser.uri, text, None, rec, "url")
            if body.count("(") == body.count(")") == 0 or "," not in body:
                want = ("cursor", ("uri", body))
                expect("cursor", real_parser.cursor, f"url({l}{q}{body}{q}{r})", want, rec, "cursor")
                expect("cursor", real_parser.cursor, [f"url({l}{q}{body}{q}{r})", "help"], want + ("help",), rec, "cursor")
    else:
        t = case[1]
        ls = [rs._length(x) for x in t]
        if any(l is rs.UNKNOWN for l in ls):
            return rec.skip()
        ok = 1 <= len(t) <= 2 and all(l != rs.REJECT for l in ls)
        want = ("spacing", ls[0], ls[-1]) if ok else None
        expect("border_spacing", real_parser.border_spacing, list(t), want, rec, "border-spacing")
        if not (t and isinstance(t[0], str) and t[0].startswith("!")):
            expect("border_spacing", real_parser.border_spacing, tuple(t), want, rec, "border-spacing")
        if all(isinstance(x, str) for x in t):
            expect("border_spacing", real_parser.border_spacing, " ".join(t), want, rec, "border-spacing")
            expect("border_spacing", real_parser.border_spacing, "  ".join(t), want, rec, "border-spacing")
            if len(t) == 2:
                expect("border_spacing", real_parser.border_spacing, ", ".join(t), None, rec, "border-spacing")
        if len(t) == 1 and not isinstance(t[0], str) and t[0] is not None:
            expect("border_spacing", real_parser.border_spacing, t[0], want, rec, "border-spacing")
        for a in t[:1]:
            if ok:
                b = real_parser.border_spacing(real(list(t)))
                if canon(b.horizontal) != ls[0] or canon(b.vertical) != ls[-1] or not isinstance(b, BorderSpacing):
                    rec.fail(f"border-spacing {t!r}: {b!r}")
