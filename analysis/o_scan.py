"""The lexer against the lexical grammar, on texts given as sequences of character classes.

A text is a word over the classes below; every character of the text is symbolic within its class,
so one word stands for all texts of that shape.  The classes are those the lexical grammar
distinguishes (plus the UTF-8 length of a character), which makes the grammar's tokens a function of
the word; only numeric values depend on the characters themselves.
"""
import itertools
from core import *
import core
import sim
import o_prog
from o_asm import arg_for
from o_instr import report, defin


def _minus(a, b):
    return rx.cs_and(a, rx.cs_neg(rx.cs_norm(b)))


def _cs(s):
    return rx.cs_norm(tuple((ord(c), ord(c)) for c in s))


WS = ((9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029),
      (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000))
LETTERS = ((65, 90), (95, 95), (97, 122))
SYMS = {
    'n': "\n", '.': ".", ':': ":", ',': ",", '"': '"', '\\': "\\", ';': ";", '%': "%", '[': "[", ']': "]",
    's': _cs(" \t\r\x0b\x0c"),
    'u': ((0x85, 0x85), (0xA0, 0xA0)),
    'U': rx.cs_and(WS, ((0x800, 0xFFFF),)),
    'a': ((65, 70), (97, 102)),
    'i': _cs("iI"),
    'd': ((50, 57),),
    'b': ((48, 49),),
    '$': _cs("$#"),
}
ONES = {'z': "0", 'e': "1"}      # single characters, for long texts
ONES.update({chr(65 + k): str(k) for k in range(10)})
DEC = "bdzeABCDEFGHIJ"
SYMS['g'] = _minus(LETTERS, SYMS['a'] + SYMS['i'])
SYMS['x'] = _minus(((0, 127),), tuple(p for k, v in SYMS.items() for p in (_cs(v) if isinstance(v, str) else v)))
SYMS['2'] = _minus(((0x80, 0x7FF),), WS)
SYMS['3'] = _minus(((0x800, 0xD7FF), (0xE000, 0xFFFF)), WS)
SYMS['4'] = ((0x10000, 0x10FFFF),)
ONES['w'] = " "
SYMS.update(ONES)
NBYTES = {'u': 2, '2': 2, 'U': 3, '3': 3, '4': 4}
BLANK = "suUw"
HEX = "a" + DEC
ID1 = "gai"
IDN = "gai" + DEC
SHOW = {'n': "\\n", 's': "<blank>", 'u': "<nbsp>", 'U': "<wide blank>", 'a': "<a-f>", 'g': "<letter>", 'i': "<i>", 'd': "<2-9>", 'b': "<0/1>",
        'x': "<other>", '2': "<2-byte>", '3': "<3-byte>", '4': "<4-byte>", '$': "<$/#>"}


def show(w):
    out = []
    for k, g in itertools.groupby(w):
        n = len(list(g))
        x = SHOW.get(k, ONES.get(k, k))
        out.append(x * n if n < 4 else "%s{%d}" % (x, n))
    return "".join(out)


class Tok(object):
    def __init__(self, kind, i, j, w):
        self.kind, self.i, self.j = kind, i, j
        self.line = 1 + w[:i].count('n')
        self.col = i - (w[:i].rfind('n') + 1) + 1
        t = w[i:j]
        self.len = t.index('n') + 1 if 'n' in t else len(t)


def lex(w):
    """Tokens of a word of classes, up to the first error (kind 'error')."""
    out = []
    i, n = 0, len(w)
    while i < n:
        c = w[i]
        if c in BLANK:
            i += 1
            continue
        j = i + 1
        kind = None
        if c == ';':
            while j < n and w[j] != 'n':
                j += 1
            kind = "SingleLineComment"
        elif c in ".:,n":
            kind = {'.': "DirectiveMarker", ':': "LabelMarker", ',': "Comma", 'n': "Newline"}[c]
        elif c == '"':
            while j < n and w[j] != '"':
                if w[j] == '\\':
                    if j + 1 >= n or w[j + 1] == 'n':
                        j = n
                        break
                    j += 1
                j += 1
            if j < n:
                j += 1
                kind = "StringLiteral"
        elif c == '$':
            while j < n and j < i + 4 and w[j] in HEX:
                j += 1
            kind = "hex" if j > i + 1 else None
        elif c == '%':
            while j < n and w[j] in "b.zeAB":
                j += 1
            kind = "bin" if j > i + 1 else None
        elif c == '[':
            if w[i:i + 3] == "[i]":
                j = i + 3
                kind = "Identifier"
        elif c in DEC:
            while j < n and w[j] in DEC:
                j += 1
            kind = "dec"
        elif c in ID1:
            while j < n and w[j] in IDN:
                j += 1
            kind = "Identifier"
        if kind is None:
            out.append(Tok("error", i, i + 1, w))
            return out
        out.append(Tok(kind, i, j, w))
        i = j
    return out


class Build(object):
    def __init__(self, ctx, ip):
        self.ctx, self.ip = ctx, ip
        self.new = ctx.fn("scanner::Scanner::new", need=False) or [f for f in ctx.prog.local_fns() if f.has_body() and strip_generics(f.name).endswith("scanner::Scanner::new")][0]
        nx = [f for f in ctx.prog.local_fns() if f.has_body() and "scanner::Scanner" in f.name and f.name.endswith("Iterator>::next")]
        if not nx:
            raise Missing("<Scanner as Iterator>::next")
        self.next = nx[0]
        self.tok = None
        self.loc = None
        for i, t in enumerate(ip.types):
            if t["k"] == "enum" and t["name"].endswith("token::Token"):
                self.tok = i
            if t["k"] == "struct" and t["name"].endswith("SourceFileLocation"):
                self.loc = i
        self.tv = {v["n"]: k for k, v in enumerate(ip.types[self.tok]["variants"])}
        # where SourceFileLocation::new puts the file name, line, column and length
        f = ctx.fn("SourceFileLocation::new", need=False) or ctx.fn("source_file_location::SourceFileLocation::new")
        args = [StrV(('lit', 'F')), K(11), K(12), K(13)]
        outs = [o for o in ip.call(State(), f.id, args) if o.kind == "ret"]
        self.lf = {}
        if len(outs) == 1 and isinstance(outs[0].val, Agg):
            for k, x in enumerate(outs[0].val.fs):
                for n, y in zip(("file", "line", "col", "len"), args):
                    if x == y:
                        self.lf[n] = k
        if len(self.lf) != 4:
            raise Unsupported("fields of SourceFileLocation")

    def text(self, st, w, fixed=False):
        cs = []
        for k, s in enumerate(w):
            v = SYMS[s]
            if isinstance(v, str):
                cs.append((ord(v), 1))
                continue
            if fixed:
                cs.append((v[0][0] if k % 2 else v[-1][1], NBYTES.get(s, 1)))
                continue
            a = atom(('char', k), 0, 0x10FFFF)
            st._narrow(a, v)
            cs.append((L(a), NBYTES.get(s, 1)))
        self.cs = cs
        return of_cells(cs)


def value_of(st, w, cs, t):
    radix = {"hex": 16, "dec": 10, "bin": 2}[t.kind]
    v = ZERO
    for k in range(t.i + (t.kind != "dec"), t.j):
        c = cs[k][0]
        if w[k] == '.':
            d = ZERO
        elif isinstance(c, int):
            d = K(int(chr(c), 16))
        elif w[k] in "bd":
            d = c - 48
        else:
            d = c - 55 if st.need(p_le(c, K(70))) else c - 87
        v = v.scale(radix) + d
    return st.norm(v)


def collect(b, st, limit):
    """All runs of the scanner: [(Out of the last call, tokens)]"""
    ip = b.ip
    done = []
    work = [(st, (), None)]
    while work:
        s, toks, before = work.pop()
        if len(toks) > limit:
            if recurs(b, s, before):
                done.append((Out("loop", s, None, ("no progress", b.next.span)), toks))
            else:
                done.append((Out("ret", s, None), toks))
            continue
        scan0 = s.cells.get(('scan',))
        for o in ip.call(s, b.next.id, [Ptr(('scan',))]):
            if o.kind != "ret":
                done.append((o, toks))
                continue
            v = o.val
            if isinstance(v, SymV):
                done.append((Out("stuck", o.st, None, ("token not determined", None)), toks))
                continue
            if v.var == 0:
                done.append((o, toks + (None,)))
                continue
            t = v.fs[0]
            if not isinstance(t, Agg) or t.var is None:
                done.append((Out("stuck", o.st, None, ("token not determined", None)), toks))
            elif t.var == b.tv["Error"]:
                done.append((o, toks + (t,)))
            elif o.st.cells.get(('scan',)) == scan0:
                # a token without progress: the same token for ever
                done.append((Out("loop", o.st, None, ("no progress", b.next.span)), toks + (t,)))
            else:
                work.append((o.st, toks + (t,), scan0))
    return done


def recurs(b, st, before):
    """Does the lexer return tokens for ever from here?  The fields the last call changed are forgotten; if the
    next call still returns a token that is no error and changes nothing else, it does."""
    now = st.cells.get(('scan',))
    if not isinstance(now, Agg) or not isinstance(before, Agg) or now.ty != before.ty:
        return False
    fs, marks = [], []
    for k, (x, y) in enumerate(zip(now.fs, before.fs)):
        if x != y:
            if not isinstance(x, Lin):
                return False
            marks.append(k)
            x = L(atom(('fresh', 'recur', k, uid()), x.c if x.is_const() and y.is_const() and x.c > y.c else 0, 1 << 40))
        fs.append(x)
    s = st.copy()
    s.cells[('scan',)] = Agg(now.ty, now.var, fs)
    known = (dict(s.rng), dict(s.lang), list(s.ineqs), set(s.nes), set(s.seqs), dict(s.sub))
    try:
        outs = b.ip.call(s, b.next.id, [Ptr(('scan',))])
    except (Unsupported, TooComplex):
        return False
    if len(outs) != 1 or outs[0].kind != "ret":
        return False
    o = outs[0]
    t = o.st
    if (dict(t.rng), dict(t.lang), list(t.ineqs), set(t.nes), set(t.seqs), dict(t.sub)) != known or not isinstance(o.val, Agg) or o.val.var != 1:
        return False
    tok = o.val.fs[0]
    after = t.cells[('scan',)]
    return isinstance(tok, Agg) and tok.var is not None and tok.var != b.tv["Error"] and isinstance(after, Agg) and \
        all(x == y or k in marks and t.decide(p_le(y, x)) is True for k, (x, y) in enumerate(zip(after.fs, fs)))


def case(ctx, w):
    """w: a word of classes; after "=" its characters are fixed ones of their class."""
    fixed = w[:1] == "="
    w = w[fixed:]
    r = ObResult("O-SCAN")
    ip = ctx.interp()
    ip.peel = 2 * len(w) + 4 if len(w) < 50 else len(w) + 4
    ip.peel_width = 4000
    b = Build(ctx, ip)
    where = ctx.where(b.next)
    st = State()
    text = b.text(st, w, fixed)
    want = lex(w)
    paths = 0
    name = StrV(('sym', ('in', 'file')))
    vs = show(w)
    for o0 in ip.call(st, b.new.id, [name, StrV(text)]):
        if o0.kind != "ret":
            report(r, ip, o0, None, "panic", "`%s`: creating the scanner panics" % vs, where, o0.st)
            continue
        o0.st.cells[('scan',)] = o0.val
        for o, toks in collect(b, o0.st, len(want) + 1):
            if o.kind in ("stuck", "cut"):
                r.open("%s: %s" % (vs, o.info), where)
                continue

            def go(s):
                out = []
                for t in want:
                    if t.kind in ("hex", "dec", "bin"):
                        v = value_of(s, w, b.cs, t)
                        if not s.need(p_le(v, K(4095))):
                            out.append((t, "range"))
                            return out
                        out.append((t, v))
                    elif t.kind == "error":
                        out.append((t, "error"))
                        return out
                    else:
                        a = t.i + (t.kind == "StringLiteral")
                        z = t.j - (t.kind == "StringLiteral")
                        out.append((t, StrV(of_cells(b.cs[a:z]))))
                out.append((None, None))
                return out
            try:
                for s, exp in fork(ip, o.st, go):
                    paths += 1
                    judge(r, ip, b, o, s, w, exp, toks, name, where)
            except (Unsupported, TooComplex) as e:
                r.open("%s: specification: %s" % (vs, e), where)
    if ip.cuts:
        r.open("%s: %d paths cut off" % (vs, ip.cuts), where)
    return r.findings, r.undecided, paths, set(ip.visited_fns)


def judge(r, ip, b, o, s, w, exp, toks, name, where):
    vs = show(w)

    def rep(cls, what, pair=None):
        differ = None
        if pair:
            x, y = pair
            differ = lambda v: defin(v.conc(x)) and defin(v.conc(y)) and v.conc(x) != v.conc(y)
        report(r, ip, o, None, cls, "in `%s` %s" % (vs, what), where, s, differ, pair or ())
    types = ip.types
    names = {k: n for n, k in b.tv.items()}
    if o.kind == "loop" and toks and o.info[0] == "no progress":
        report(r, ip, o, None, "endless", "in `%s` the lexer returns the same token for ever" % vs, span_str(o.info[1]), s)
    for k, (t, v) in enumerate(exp):
        if k >= len(toks):
            if o.kind == "panic":
                report(r, ip, o, None, "panic", "scanning `%s` panics (%s)" % (vs, o.info[0]), span_str(o.info[1]), s)
            elif o.kind == "loop":
                report(r, ip, o, None, "endless", "scanning `%s` never ends" % vs, span_str(o.info[1]), s)
            else:
                report(r, ip, o, None, "exit", "scanning `%s` ends the process" % vs, where, s)
            return
        got = toks[k]
        if t is None:
            if got is not None:
                rep("token", "a token follows the end of the text")
            return
        if got is None:
            rep("token", "the text ends before %s at character %d" % (t.kind, t.i + 1))
            return
        gn = names[got.var]
        fs = got.fs
        loc = fs[-1]
        if isinstance(loc, SymV):
            loc = ip.expand(loc)
        if v in ("range", "error") and isinstance(v, str):
            if gn != "Error":
                rep("value" if v == "range" else "token",
                    "%s at character %d is accepted as %s" % ("a number above 4095" if v == "range" else "text that is no token", t.i + 1, gn))
                return
        else:
            wn = "NumericLiteral" if t.kind in ("hex", "dec", "bin") else t.kind
            if gn != wn:
                rep("value" if wn == "NumericLiteral" and gn == "Error" else "token", "%s at character %d is taken for %s" % (wn, t.i + 1, gn))
                return
            if len(fs) == 2:
                g = fs[0]
                if not same(s, g, v):
                    x, y = g, v
                    rep("value" if wn == "NumericLiteral" else "token", "the %s at character %d has the content %s instead of %s" % (
                        wn, t.i + 1, sim.short(norm_val(s, g)), sim.short(norm_val(s, v))), (x, y))
                    return
        checks = [("file", name), ("line", K(t.line)), ("col", K(t.col))]
        checks.append(("len", K(t.len)))
        for n, want in checks:
            g = loc.fs[b.lf[n]]
            if not same(s, g, want):
                rep("location", "the %s at character %d is given %s %s instead of %s" % (gn, t.i + 1, {"col": "column", "len": "length"}.get(n, n),
                    sim.short(norm_val(s, g)), sim.short(want)), (g, want))
                break
        if gn == "Error":
            return


ALL = "ns.:,\"\\;%[]aidb$gxuU234"
CORE = "ns.\";\\%[]aib$gxu2"
TOKENS = [";2x", ";", "g", "gai", "b", "ddd", "$a", "$aab", "%b.", '"gx"', '"4n\\"2"', '""', "[i]", ".", ":", ",", "n"]
SEPS = ["", "s", "sU", "n"]


def long_words():
    out = []
    for v in [0, 9, 10, 15, 16, 255, 256, 4094, 4095, 4096, 4097, 8191, 8192, 9999, 10000] + [
            (1 << b) + d for b in (13, 15, 16, 31, 32, 63, 64, 128) for d in (-1, 0, 1, 5, 4095)]:
        for t in ("", "0", "0000"):
            out.append("".join(chr(65 + int(c)) for c in t + str(v)))
    for v in (10, 100, 200, 255, 256, 512, 999):
        out.append("$" + "".join(chr(65 + int(c)) for c in str(v)))
    for k in (1, 2, 3, 4, 5, 6, 10, 19, 20, 21, 40):
        out += ["d" * k, "z" * k + "ddd", "z" * k + "dddd", "d" + "z" * k, "e" + "z" * k + "d", "$" + "a" * k, "$" + "z" * k + "d", "g" * k + "." + "g",
                "s" * k + "g", "n" * k + "g", ";" + "x" * k + "ng", '"' + "g" * k + '"', '"' + "n" * k + '"g', "2" * k, ";" + "3" * k + "ng",
                '"' + "4" * k + '"g', "U" * k + "g", "g" + "s" * k + "n" + "s" * k + "g"]
    for k in (1, 5, 10, 11, 12, 13, 14, 15, 16, 31, 32, 33, 48, 63, 64, 65, 66, 76, 127, 128, 129, 140):
        for t in ("e" + "z" * (k - 1), "e" * k, "." * k, "." * k + "e" * 12, "z" * k + "e" + "z" * 12, "e" + "." * (k - 1) + "bbb", "z" * k + "bb.b", "e" + "z" * k + "e" * 11):
            out.append("%" + t)
    for k in (254, 255, 256, 257, 300):
        out += ["s" * k + "g", "n" * k + "g", "g" * k + "sg", ";" + "x" * k + "ng", '"' + "2" * k + '"g', '"' + "n" * k + '"g', "g" + "n" * k + "x", "s" * k + "2"]
    out += ["=" + w for w in dict.fromkeys(out) if len(w) > 6 and any(not isinstance(SYMS[c], str) for c in w)]
    for k in (1024, 65540):
        out += ['"' + "n" * k + '"g', "w" * k + "g"]
    return list(dict.fromkeys(out))


def words(tier):
    out = [""] + list(ALL)
    for k in (2, 3):
        out += ["".join(x) for x in itertools.product(ALL, repeat=k)]
    for sep in SEPS:
        out += [sep.join(x) for x in itertools.product(TOKENS, repeat=2)]
    for sep in SEPS[:1] if tier == "quick" else SEPS:
        out += [sep.join(x) for x in itertools.product(TOKENS, repeat=3)]
    out += long_words()
    if tier != "quick":
        out += ["".join(x) for x in itertools.product(CORE, repeat=4)]
    return list(dict.fromkeys(out))


@timed
def o_scan(ctx):
    """Scanner::new + next on every word of character classes analysed, against the lexical grammar."""
    r = ObResult("O-SCAN")
    o_prog.run_cases(ctx, r, case, words(ctx.tier), 200 if ctx.tier == "quick" else 700, "texts", limit=100)
    return r
