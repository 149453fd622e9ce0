"""Mechanical extraction of Rust functions from the macro-expanded crate.

The text this works on is what rustc prints for the current /repo working tree
(`-Zunpretty=expanded`, default features, debug assertions off), so #[cfg]s are resolved and
macros are expanded by the compiler itself.  Everything below is token level; what it changes or
drops is listed in TRANSFORMS and repeated in the evidence of every check.
"""
import re

TRANSFORMS = [
    "comments, doc comments and attributes are dropped",
    "#[cfg]/macros are resolved by rustc (-Zunpretty=expanded, default features)",
    "debug_assert!s are compiled out (debug-assertions=off), as in a release build",
    "unsafe { } becomes { }; x.get_unchecked(i) / get_unchecked_mut(i) becomes x[i] (the bound becomes an obligation)",
    "panic!/unreachable!/assert! failures become a call whose precondition is false (an obligation)",
    "`if let` chains without else become nested ifs",
    "`for i in (a..b).rev() {..}` becomes the equivalent counting-down while loop",
    "iterator chains X.iter()[.filter|.map|.copied]*.any|all|count|collect become a loop whose body is the closures (no early exit)",
    "`for` loops whose body contains `continue` become the equivalent while loop (index incremented at the top of the body)",
    "`for (i, c) in X.iter()|iter_mut().enumerate()[.skip(k)][.filter(|(_, c)| P)] {..}` becomes `for i in k..X.len() { let c = &[mut] X[i]; [if !P { continue }] ..}`",
    "byte string literals are written as arrays of their bytes",
    "in CertificationStore::dump_to_file `self.f = None` before a break or return out of the last loop is moved behind the loop (the borrow in between ends there)",
    "trait impl methods are placed in an inherent impl; `impl Trait` parameters become the only implementing type",
]


class ExtractError(Exception):
    """lost anchor: the item or the place a contract attaches to is not there any more"""


TOK = re.compile(
    r"""(?P<ws>\s+)
  |(?P<com>//[^\n]*|/\*.*?\*/)
  |(?P<rstr>b?r(?P<h>\#*)".*?"(?P=h))
  |(?P<str>b?"(?:\\.|[^"\\])*")
  |(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])')
  |(?P<life>'[A-Za-z_]\w*)
  |(?P<num>\d[\d_]*(?:\.\d[\d_]*(?:[eE][+-]?\d+)?)?(?:[A-Za-z_]\w*)?)
  |(?P<id>(?:r\#)?[A-Za-z_]\w*)
  |(?P<op><<=|>>=|\.\.\.|\.\.=|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|>>|\.\.|.)
""",
    re.X | re.S,
)
OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}


def lex(text):
    out = []
    for m in TOK.finditer(text):
        k = m.lastgroup
        if k == "h":
            k = "rstr"
        t = m.group(0)
        if k in ("ws", "com"):
            out.append(("ws", "\n" if "\n" in t else " "))
        else:
            out.append((k, t))
    return out


def strip_ws(toks):
    return [t for t in toks if t[0] != "ws"]


NOSPACE_BEFORE = {",", ";", ".", ")", "]", "?", ":"}


def render(toks):
    """toks without whitespace -> text, one space between tokens, newlines after ; { }"""
    out = []
    for k, t in toks:
        out.append(t)
        if t in (";", "{", "}") or k == "raw":
            out.append("\n")
        else:
            out.append(" ")
    return "".join(out)


def match_close(toks, i):
    d = 0
    n = len(toks)
    while i < n:
        t = toks[i][1] if toks[i][0] == "op" else None
        if t in OPEN:
            d += 1
        elif t in CLOSE:
            d -= 1
            if d == 0:
                return i
        i += 1
    raise ExtractError("unbalanced brackets")


def is_op(tok, t):
    return tok[0] == "op" and tok[1] == t


def is_id(tok, t):
    return tok[0] == "id" and tok[1] == t


def skip_attr(toks, i):
    """at '#': return index after the attribute"""
    j = i + 1
    if is_op(toks[j], "!"):
        j += 1
    if is_op(toks[j], "["):
        return match_close(toks, j) + 1
    return i


def drop_attrs(toks):
    out = []
    i = 0
    while i < len(toks):
        if is_op(toks[i], "#"):
            j = skip_attr(toks, i)
            if j > i:
                i = j
                continue
        out.append(toks[i])
        i += 1
    return out


class Fn:
    def __init__(self, mod, impl, name, toks):
        self.mod, self.impl, self.name, self.toks = mod, impl, name, toks

    def split(self):
        """(signature tokens, body tokens without the braces)"""
        d = 0
        for i, t in enumerate(self.toks):
            if t[0] == "op":
                if t[1] == "{" and d == 0:
                    j = match_close(self.toks, i)
                    return self.toks[:i], self.toks[i + 1 : j]
                if t[1] in "([":
                    d += 1
                elif t[1] in ")]":
                    d -= 1
        raise ExtractError(f"{self.name}: no body")


class Crate:
    def __init__(self, text):
        self.toks = drop_attrs(strip_ws(lex(text)))
        self.fns = {}
        self.structs = {}
        self.consts = {}
        self.enums = {}
        self.impls = {}
        self._items(0, len(self.toks), "", None)

    def _items(self, i, end, mod, impl):
        T = self.toks
        while i < end:
            t = T[i]
            if t[0] == "id" and t[1] in ("pub", "unsafe", "async", "default", "extern") :
                i += 1
                if i < end and is_op(T[i], "(") and t[1] == "pub":
                    i = match_close(T, i) + 1
                elif t[1] == "extern" and i < end and T[i][0] in ("str",):
                    i += 1
                continue
            if is_id(t, "const") and i + 1 < end and is_id(T[i + 1], "fn"):
                i += 1
                continue
            if is_id(t, "mod") and is_op(T[i + 2], "{"):
                j = match_close(T, i + 2)
                self._items(i + 3, j, (mod + "::" if mod else "") + T[i + 1][1], None)
                i = j + 1
            elif is_id(t, "impl"):
                k = i
                while not is_op(T[k], "{"):
                    if T[k][0] == "op" and T[k][1] in "([":
                        k = match_close(T, k)
                    k += 1
                hdr = " ".join(x[1] for x in T[i:k])
                j = match_close(T, k)
                self.impls.setdefault((mod, hdr), []).append((k, j))
                self._items(k + 1, j, mod, hdr)
                i = j + 1
            elif is_id(t, "trait"):
                k = i
                while not is_op(T[k], "{") and not is_op(T[k], ";"):
                    k += 1
                if is_op(T[k], "{"):
                    j = match_close(T, k)
                    self._items(k + 1, j, mod, "trait " + T[i + 1][1])
                    i = j + 1
                else:
                    i = k + 1
            elif is_id(t, "fn"):
                k = i
                while True:
                    if T[k][0] == "op" and T[k][1] in "([":
                        k = match_close(T, k)
                    elif is_op(T[k], "{") or is_op(T[k], ";"):
                        break
                    k += 1
                if is_op(T[k], ";"):
                    i = k + 1
                    continue
                j = match_close(T, k)
                name = T[i + 1][1]
                self.fns.setdefault((mod, impl), {}).setdefault(name, []).append(Fn(mod, impl, name, T[i : j + 1]))
                i = j + 1
            elif t[0] == "id" and t[1] in ("struct", "enum", "union") and i + 1 < end and T[i + 1][0] == "id":
                k = i
                while T[k][1] not in ("{", ";", "("):
                    k += 1
                if is_op(T[k], "{"):
                    j = match_close(T, k)
                elif is_op(T[k], "("):
                    j = match_close(T, k)
                    while not is_op(T[j], ";"):
                        j += 1
                else:
                    j = k
                (self.structs if t[1] == "struct" else self.enums)[(mod, T[i + 1][1])] = T[i : j + 1]
                i = j + 1
            elif t[0] == "id" and t[1] in ("const", "static", "type", "use", "macro_rules", "crate"):
                j = i
                while not is_op(T[j], ";"):
                    if T[j][0] == "op" and T[j][1] in OPEN:
                        j = match_close(T, j)
                        if t[1] == "macro_rules" and is_op(T[j], "}"):
                            break
                    j += 1
                if t[1] == "const":
                    self.consts[(mod, impl, T[i + 1][1])] = T[i : j + 1]
                i = j + 1
            else:
                i += 1

    def fn(self, mod, impl, name):
        cands = []
        for (m, im), d in self.fns.items():
            if m == mod and name in d and (impl is None and im is None or impl is not None and im is not None and re.fullmatch(impl, im)):
                cands += d[name]
        if not cands:
            raise ExtractError(f"function {mod}::{name} ({impl}) not found")
        if len(cands) > 1:
            raise ExtractError(f"function {mod}::{name} ({impl}) is ambiguous")
        return cands[0]


# ---------------------------------------------------------------- transformations


def receiver_start(toks, i):
    """index of the first token of the postfix expression whose last token is toks[i]"""
    while True:
        t = toks[i]
        if t[0] == "op" and t[1] in CLOSE:
            d = 0
            while True:
                if toks[i][0] == "op":
                    if toks[i][1] in CLOSE:
                        d += 1
                    elif toks[i][1] in OPEN:
                        d -= 1
                        if d == 0:
                            break
                i -= 1
            # a call or index: the callee comes before
            if i > 0 and (toks[i - 1][0] == "id" and toks[i - 1][1] not in KEYWORDS or toks[i - 1][1] in (")", "]")):
                i -= 1
                continue
        if i > 0 and toks[i - 1][0] == "op" and toks[i - 1][1] in (".", "::"):
            i -= 2
            continue
        return i


KEYWORDS = {"return", "if", "while", "match", "in", "let", "else", "mut", "move", "loop", "for", "break", "unsafe", "ref", "as"}


def t_unchecked(toks):
    toks = list(toks)
    i = 0
    while i < len(toks):
        if toks[i][0] == "id" and toks[i][1] in ("get_unchecked", "get_unchecked_mut") and is_op(toks[i - 1], "."):
            mut = toks[i][1].endswith("mut")
            j = match_close(toks, i + 1)
            s = receiver_start(toks, i - 2)
            deref = s > 0 and is_op(toks[s - 1], "*") and (s < 2 or toks[s - 2][1] in ("{", "(", ",", "=", "==", "=>", "&", "!", "return", "<", ">", ";"))
            idx = toks[i + 2 : j]
            new = toks[s : i - 1] + [("op", "[")] + idx + [("op", "]")]
            place = j + 1 < len(toks) and (is_op(toks[j + 1], ".") and True or toks[j + 1][1] in ("=",))
            if deref:
                toks[s - 1 : j + 1] = new
                i = s
            elif place:
                toks[s : j + 1] = new
                i = s
            else:
                toks[s : j + 1] = [("op", "&")] + ([("id", "mut")] if mut else []) + new
                i = s
            continue
        i += 1
    out = []
    for k, t in enumerate(toks):
        if is_id(t, "unsafe") and k + 1 < len(toks) and is_op(toks[k + 1], "{"):
            continue
        out.append(t)
    # `{ place }.field` -> `(place).field` when the block is a single expression
    i = 0
    while i < len(out):
        if is_op(out[i], "{") and i > 0:
            j = match_close(out, i)
            inner = out[i + 1 : j]
            if j + 1 < len(out) and is_op(out[j + 1], ".") and inner and not any(x[1] in (";", "{") for x in inner):
                out[i] = ("op", "(")
                out[j] = ("op", ")")
        i += 1
    return out


def t_debug(toks):
    """drop `if false { <assertion> };`"""
    out = []
    i = 0
    while i < len(toks):
        if is_id(toks[i], "if") and i + 2 < len(toks) and is_id(toks[i + 1], "false") and is_op(toks[i + 2], "{"):
            j = match_close(toks, i + 2)
            seg = " ".join(x[1] for x in toks[i:j])
            nxt = toks[j + 1][1] if j + 1 < len(toks) else ""
            if "panicking" in seg and nxt != "else":
                i = j + 1
                if i < len(toks) and is_op(toks[i], ";"):
                    i += 1
                continue
        out.append(toks[i])
        i += 1
    # stray empty statements
    res = []
    for t in out:
        if is_op(t, ";") and (not res or res[-1][1] in (";", "{")):
            continue
        res.append(t)
    return res


def t_panic(toks):
    """`::core::panicking::xxx(args)` -> `verif_unreachable()`"""
    out = []
    i = 0
    n = len(toks)
    while i < n:
        if is_op(toks[i], "::") and i + 4 < n and is_id(toks[i + 1], "core") and is_id(toks[i + 3], "panicking"):
            k = i + 4
            while not is_op(toks[k], "("):
                k += 1
            j = match_close(toks, k)
            out += [("id", "verif_unreachable"), ("op", "("), ("op", ")")]
            i = j + 1
            continue
        out.append(toks[i])
        i += 1
    return out


def t_letchain(toks):
    """`if A && let P = E && B { S }` (no else) -> `if A { if let P = E { if B { S } } }`"""
    out = list(toks)
    i = 0
    while i < len(out):
        if is_id(out[i], "if"):
            # find block
            k = i + 1
            parts = []
            start = k
            haslet = False
            ok = True
            while True:
                t = out[k]
                if t[0] == "op" and t[1] in "([":
                    k = match_close(out, k) + 1
                    continue
                if is_op(t, "{"):
                    parts.append(out[start:k])
                    break
                if is_op(t, "=>"):  # a match guard
                    haslet = False
                    break
                if is_op(t, "&&"):
                    parts.append(out[start:k])
                    start = k + 1
                if is_op(t, "||"):
                    ok = False
                if is_id(t, "let"):
                    haslet = True
                k += 1
            if haslet and len(parts) > 1 and ok:
                j = match_close(out, k)
                if j + 1 < len(out) and is_id(out[j + 1], "else"):
                    raise ExtractError("let chain with else")
                body = out[k : j + 1]
                new = []
                # group adjacent non-let parts
                conds = []
                for p in parts:
                    if p and is_id(p[0], "let") or not conds or is_id(conds[-1][0], "let"):
                        conds.append(p)
                    else:
                        conds[-1] = conds[-1] + [("op", "&&")] + p
                for c in conds:
                    new += [("id", "if")] + c + [("op", "{")]
                new.pop()
                new += body + [("op", "}")] * (len(conds) - 1)
                out[i : j + 1] = new
        i += 1
    return out


def t_revrange(toks):
    """`for i in (A..B).rev() { S }` -> `let mut i_rev = B; while i_rev > A { i_rev -= 1; let i = i_rev; S }`"""
    out = list(toks)
    i = 0
    while i + 3 < len(out):
        if is_id(out[i], "for") and is_id(out[i + 2], "in") and is_op(out[i + 3], "("):
            j = match_close(out, i + 3)
            if is_op(out[j + 1], ".") and is_id(out[j + 2], "rev") and is_op(out[j + 3], "(") and is_op(out[j + 4], ")") and is_op(out[j + 5], "{"):
                inner = out[i + 4 : j]
                k = 0
                while k < len(inner) and not is_op(inner[k], ".."):
                    if inner[k][0] == "op" and inner[k][1] in OPEN:
                        k = match_close(inner, k)
                    k += 1
                if k < len(inner):
                    a, b, v = inner[:k], inner[k + 1 :], out[i + 1][1]
                    r = v + "_rev"
                    e = match_close(out, j + 5)
                    new = ([("id", "let"), ("id", "mut"), ("id", r), ("op", ":"), ("id", "usize"), ("op", "=")] + b + [("op", ";"), ("id", "while"), ("id", r), ("op", ">")]
                           + a + [("op", "{"), ("id", r), ("op", "-="), ("num", "1"), ("op", ";"), ("id", "let"), ("id", v), ("op", "="), ("id", r), ("op", ";")])
                    out[i : j + 6] = new
        i += 1
    return out


def t_whileblock(toks):
    """`while { S; E } { B }` -> `loop { S; if !(E) { break; } B }`"""
    out = list(toks)
    i = 0
    while i + 1 < len(out):
        if is_id(out[i], "while") and is_op(out[i + 1], "{"):
            e = match_close(out, i + 1)
            if is_op(out[e + 1], "{"):
                inner = out[i + 2 : e]
                last = -1
                k = 0
                while k < len(inner):
                    if is_op(inner[k], ";"):
                        last = k
                    elif inner[k][0] == "op" and inner[k][1] in OPEN:
                        k = match_close(inner, k)
                    k += 1
                out[i : e + 2] = ([("id", "loop"), ("op", "{")] + inner[: last + 1] + [("id", "if"), ("op", "!"), ("op", "(")] + inner[last + 1 :]
                                  + [("op", ")"), ("op", "{"), ("id", "break"), ("op", ";"), ("op", "}")])
        i += 1
    return out


def t_forcont(toks):
    """a `for` whose body contains `continue` (Verus has none in for loops):
    `for P in X.iter() { S }` or `for P in &X { S }` -> `let s = &X; let mut i = 0; while i < s.len() { let P = &s[i]; i += 1; S }`
    `for v in A..B { S }` -> `let mut i = A; let e = B; while i < e { let v = i; i += 1; S }`"""
    out = list(toks)
    i = 0
    n = 0
    while i < len(out):
        if not (is_id(out[i], "for") and not (i + 1 < len(out) and is_op(out[i + 1], "<"))):
            i += 1
            continue
        b = loop_body(out, i)
        e = match_close(out, b)
        j = next((x for x in range(i, b) if is_id(out[x], "in")), None)
        if j is None or not any(is_id(t, "continue") for t in out[b:e]):
            i += 1
            continue
        pat, ex = out[i + 1 : j], out[j + 1 : b]
        st = i
        if i >= 2 and is_op(out[i - 1], ":") and out[i - 2][1].startswith("'"):
            st = i - 2
        label = out[st:i]
        iv, sv = ("id", f"verif_i{n}"), ("id", f"verif_s{n}")
        one = [iv, ("op", "+="), ("num", "1"), ("op", ";")]
        if len(ex) > 1 and is_op(ex[0], "&") and not is_id(ex[1], "mut"):
            ex = ex[1:] + [("op", "."), ("id", "iter"), ("op", "("), ("op", ")")]
        if len(ex) > 4 and is_op(ex[-4], ".") and is_id(ex[-3], "iter") and is_op(ex[-2], "("):
            new = ([("id", "let"), sv, ("op", "="), ("op", "&")] + ex[:-4] + [("op", ";"), ("id", "let"), ("id", "mut"), iv, ("op", ":"), ("id", "usize"), ("op", "="), ("num", "0"), ("op", ";")]
                   + label + [("id", "while"), iv, ("op", "<"), sv, ("op", "."), ("id", "len"), ("op", "("), ("op", ")"), ("op", "{"), ("id", "let")] + pat + [("op", "="), ("op", "&"), sv, ("op", "["), iv, ("op", "]"), ("op", ";")] + one)
        else:
            k = 0
            while k < len(ex) and not is_op(ex[k], ".."):
                if ex[k][0] == "op" and ex[k][1] in OPEN:
                    k = match_close(ex, k)
                k += 1
            if k >= len(ex) or len(pat) != 1:
                i += 1
                continue
            new = ([("id", "let"), ("id", "mut"), iv, ("op", ":"), ("id", "usize"), ("op", "=")] + ex[:k] + [("op", ";"), ("id", "let"), sv, ("op", ":"), ("id", "usize"), ("op", "=")] + ex[k + 1 :] + [("op", ";")]
                   + label + [("id", "while"), iv, ("op", "<"), sv, ("op", "{"), ("id", "let")] + pat + [("op", "="), iv, ("op", ";")] + one)
        out[st : b + 1] = new
        n += 1
        i = st + 1
    return out


def t_enum(toks):
    """`for (i, c) in X.iter()|iter_mut().enumerate()[.skip(k)][.filter(|(_, c)| P)] { S }` -> `for i in k..X.len() { let c = &[mut] X[i]; [if !(P) { continue; }] S }`"""
    out = list(toks)
    i = 0
    n = 0
    while i < len(out):
        if not (is_id(out[i], "for") and i + 6 < len(out) and is_op(out[i + 1], "(") and out[i + 2][0] == "id" and is_op(out[i + 3], ",") and out[i + 4][0] == "id" and is_op(out[i + 5], ")") and is_id(out[i + 6], "in")):
            i += 1
            continue
        b = loop_body(out, i)
        ex = out[i + 7 : b]
        if ex and is_op(ex[0], "&"):  # `in &mut X.iter_mut()...`
            ex = ex[2:] if len(ex) > 1 and is_id(ex[1], "mut") else ex[1:]
        k = next((x for x in range(len(ex) - 6) if is_op(ex[x], ".") and ex[x + 1][1] in ("iter", "iter_mut") and is_op(ex[x + 2], "(") and is_op(ex[x + 3], ")") and is_op(ex[x + 4], ".") and is_id(ex[x + 5], "enumerate")), None)
        if k is None:
            i += 1
            continue
        recv, mut = ex[:k], ex[k + 1][1] == "iter_mut"
        rest = ex[k + 8 :]
        lo = [("num", "0")]
        flt = []
        ok = True
        while rest:
            if not (is_op(rest[0], ".") and rest[1][1] in ("skip", "filter") and is_op(rest[2], "(")):
                ok = False
                break
            e = match_close(rest, 2)
            arg = rest[3:e]
            if rest[1][1] == "skip":
                if flt or lo != [("num", "0")]:
                    ok = False
                lo = arg
            else:
                p = strip_ws(lex("| ( _ , C ) |"))
                if len(arg) > 7 and all(arg[x] == p[x] for x in range(7) if x != 4) and arg[4][1] == out[i + 4][1]:
                    flt += strip_ws(lex("if ! (")) + arg[7:] + strip_ws(lex(") { continue ; }"))
                else:
                    ok = False
            rest = rest[e + 1 :]
        if not ok:
            i += 1
            continue
        iv = out[i + 2]
        if iv[1] == "_":
            iv = ("id", f"verif_n{n}")
            n += 1
        T = lambda x: strip_ws(lex(x))
        out[i : b + 1] = T("for") + [iv] + T("in") + lo + T("..") + recv + T(". len ( ) { let") + [out[i + 4]] + T("= & mut" if mut else "= &") + recv + T("[") + [iv] + T("] ;") + flt
        i += 1
    return out


def t_bytes(toks):
    """a byte string literal becomes the reference to the array of its bytes"""
    out = []
    for t in toks:
        if t[0] == "str" and t[1].startswith('b"'):
            b = eval(t[1])
            out += strip_ws(lex("& [ " + " , ".join(f"{x}u8" for x in b) + " ]"))
        else:
            out.append(t)
    return out


def t_lateset(toks):
    """in `.. if C { ..; while W { B } } T` (the end of a function; the loop is the last statement of the block, there is no else):
    `self . f = None ; break ;` -> `verif_exit = k ; break 'verif ;`, and after the block: `if verif_exit == k { self . f = None ; }`
    (`return` instead of `break`: `{ self . f = None ; return ; }`); the borrow that W uses has ended there"""
    out = list(toks)
    for i, k in reversed(loops(out)):
        if k != "while":
            continue
        b = loop_body(out, i)
        e = match_close(out, b)
        if e + 1 >= len(out) or not is_op(out[e + 1], "}") or (e + 2 < len(out) and is_id(out[e + 2], "else")):
            continue
        inner = [(loop_body(out, j), match_close(out, loop_body(out, j))) for j, _ in loops(out) if b < j < e]
        new = []
        late = []
        x = b
        n = 0
        pat = strip_ws(lex("self . F = None ; X ;"))
        while x < e:
            w = out[x : x + 8]
            if len(w) == 8 and all(w[y] == pat[y] for y in range(8) if y not in (2, 6)) and w[6][1] in ("break", "return"):
                if w[6][1] == "break" and any(p < x < q for p, q in inner):
                    raise ExtractError("break of an inner loop")
                n += 1
                new += strip_ws(lex(f"verif_exit = {n} ; break 'verif ;"))
                late += strip_ws(lex(f"if verif_exit == {n} {{ self . {w[2][1]} = None ; {'return ;' if w[6][1] == 'return' else ''} }}"))
                x += 8
                continue
            if w[0][0] == "id" and w[0][1] in ("break", "return"):
                raise ExtractError("another exit of the loop")
            new.append(out[x])
            x += 1
        if n == 0:
            continue
        return (strip_ws(lex("let mut verif_exit : u8 = 0 ;")) + out[:i] + strip_ws(lex("'verif :")) + out[i:b] + new + out[e : e + 2] + late + out[e + 2 :])
    raise ExtractError("no loop at the end of the function with a late assignment")


def t_iter(toks):
    """`X.iter().filter(|p| P).map(|p| E).copied()....any/all/collect(..)` -> a block with a loop.
    Closures become the loop body; any/all lose the early exit (closures are checked to be free of side effects by the verifier:
    they become plain code)."""
    out = list(toks)
    i = 0
    cnt = 0
    while i + 3 < len(out):
        if not (is_id(out[i], "iter") and i > 0 and is_op(out[i - 1], ".") and is_op(out[i + 1], "(") and is_op(out[i + 2], ")")):
            i += 1
            continue
        k = i + 3
        chain = []
        ok = True
        while k + 1 < len(out) and is_op(out[k], ".") and out[k + 1][0] == "id":
            name = out[k + 1][1]
            q = k + 2
            if is_op(out[q], "::"):  # turbofish
                d = 0
                q += 1
                while True:
                    if out[q][1] == "<":
                        d += 1
                    elif out[q][1] == ">":
                        d -= 1
                    elif out[q][1] == ">>":
                        d -= 2
                    q += 1
                    if d == 0:
                        break
            if not is_op(out[q], "("):
                break
            e = match_close(out, q)
            chain.append((name, out[q + 1 : e]))
            k = e + 1
            if name in ("any", "all", "collect", "count"):
                break
        if not chain or chain[-1][0] not in ("any", "all", "collect", "count") or any(c[0] not in ("filter", "map", "copied", "cloned") for c in chain[:-1]):
            i += 1
            continue
        cl = []
        for name, arg in chain:
            if name in ("filter", "map", "any", "all"):
                a = list(arg)
                if a and is_id(a[0], "move"):
                    a = a[1:]
                if not a or not is_op(a[0], "|"):
                    ok = False
                    break
                b = next(x for x in range(1, len(a)) if is_op(a[x], "|"))
                cl.append((name, a[1:b], a[b + 1 :]))
            else:
                cl.append((name, None, None))
        if not ok:
            i += 1
            continue
        s = receiver_start(out, i - 2)
        recv = out[s : i - 1]
        T = lambda x: strip_ws(lex(x))
        x, r = f"verif_x{cnt}", f"verif_r{cnt}"
        cnt += 1
        term = chain[-1][0]
        new = T({"any": f"{{ let mut {r} = false;", "all": f"{{ let mut {r} = true;", "count": f"{{ let mut {r}: usize = 0;", "collect": f"{{ let mut {r} = Vec::new();"}[term])
        new += T(f"for {x} in ") + recv + T(". iter ( ) {")
        closes = 1
        cur = T(x)
        for name, pat, body in cl:
            if name == "filter":
                new += T("if { let") + pat + T("= &") + cur + T(";") + body + T("} {")
                closes += 1
            elif name == "map":
                y = f"verif_y{cnt}"
                cnt += 1
                new += T(f"let {y} = {{ let") + pat + T("=") + cur + T(";") + body + T("} ;")
                cur = T(y)
            elif name in ("copied", "cloned"):
                y = f"verif_y{cnt}"
                cnt += 1
                new += T(f"let {y} = *") + cur + T(";")
                cur = T(y)
            elif name in ("any", "all"):
                new += T("if" + (" !" if name == "all" else "") + "( { let") + pat + T("=") + cur + T(";") + body + T(f"}} ) {{ {r} = {'true' if name == 'any' else 'false'}; }}")
            elif name == "collect":
                new += T(f"{r} . push (") + cur + T(") ;")
            elif name == "count":
                new += T(f"{r} += 1 ;")
        new += T("}" * closes + f" {r} }}")
        out[s:k] = new
        i = s
    return out


def subst(toks, pat, rep):
    """replace the token sequence `pat` by `rep`; `$x` in pat matches one token tree, `$$x` a balanced run"""
    p = strip_ws(lex(pat))
    pp = []
    i = 0
    while i < len(p):
        if is_op(p[i], "$") and is_op(p[i + 1], "$"):
            pp.append(("multi", p[i + 2][1]))
            i += 3
        elif is_op(p[i], "$"):
            pp.append(("one", p[i + 1][1]))
            i += 2
        else:
            pp.append(p[i])
            i += 1

    def m(i, k, env):
        while k < len(pp):
            if pp[k][0] == "one":
                if i >= len(toks):
                    return None
                if toks[i][0] == "op" and toks[i][1] in OPEN:
                    j = match_close(toks, i)
                    env[pp[k][1]] = toks[i : j + 1]
                    i = j + 1
                elif toks[i][0] == "op" and toks[i][1] in CLOSE:
                    return None
                else:
                    env[pp[k][1]] = [toks[i]]
                    i += 1
                k += 1
            elif pp[k][0] == "multi":
                j = i
                while True:
                    r = m(j, k + 1, dict(env, **{pp[k][1]: toks[i:j]}))
                    if r is not None:
                        return r
                    if j >= len(toks) or toks[j][0] == "op" and (toks[j][1] in CLOSE or toks[j][1] == ";"):
                        return None
                    if toks[j][0] == "op" and toks[j][1] in OPEN:
                        j = match_close(toks, j) + 1
                    else:
                        j += 1
            else:
                if i >= len(toks) or toks[i][1] != pp[k][1]:
                    return None
                i += 1
                k += 1
        return i, env

    rp = strip_ws(lex(rep))
    out = []
    i = 0
    n = 0
    while i < len(toks):
        r = m(i, 0, {}) if toks[i][0] != "raw" else None
        if r is None or r[0] == i:
            out.append(toks[i])
            i += 1
            continue
        j, env = r
        k = 0
        while k < len(rp):
            if is_op(rp[k], "$") and k + 1 < len(rp) and rp[k + 1][1] in env:
                out += subst(env[rp[k + 1][1]], pat, rep)[0] if len(env[rp[k + 1][1]]) > 1 else env[rp[k + 1][1]]
                k += 2
            elif is_op(rp[k], "$") and is_op(rp[k + 1], "$") and rp[k + 2][1] in env:
                out += subst(env[rp[k + 2][1]], pat, rep)[0] if len(env[rp[k + 2][1]]) > 1 else env[rp[k + 2][1]]
                k += 3
            else:
                out.append(rp[k])
                k += 1
        n += 1
        i = j
    return out, n


def loops(toks):
    """indices of loop keywords in source order, with kind"""
    r = []
    for i, t in enumerate(toks):
        if t[0] == "id" and t[1] in ("loop", "while", "for"):
            if t[1] == "for" and i + 1 < len(toks) and is_op(toks[i + 1], "<"):
                continue
            r.append((i, t[1]))
    return r


def loop_body(toks, i):
    """index of the `{` opening the body of the loop whose keyword is at i"""
    k = i + 1
    while True:
        t = toks[k]
        if t[0] == "op":
            if t[1] in "([":
                k = match_close(toks, k)
            elif t[1] == "{":
                return k
        k += 1


def calls(toks):
    """names called in a token sequence (functions and methods)"""
    r = set()
    for i, t in enumerate(toks):
        if t[0] == "id" and i + 1 < len(toks) and is_op(toks[i + 1], "(") and t[1] not in KEYWORDS:
            r.add(t[1])
    return r
