"""The parser against the statement grammar, on token sequences given by token kinds.

A sequence stands for every token list of those kinds: names, numbers, strings and locations are
symbolic.  The token source (the lexer's `next`) is replaced by the sequence; O-SCAN decides the lexer.
"""
import itertools
from core import *
import sim
import o_prog
import o_instr as I
import o_fmt
from o_asm import is_err, is_ok, find_loc, full, u12_ty
from o_instr import report, defin

KINDS = {'c': "SingleLineComment", '.': "DirectiveMarker", 'i': "Identifier", ':': "LabelMarker", 's': "StringLiteral",
         '1': "NumericLiteral", ',': "Comma", 'n': "Newline", 'E': "Error", 'f': "Identifier"}
SHOW = {'c': ";comment", '.': ".", 'i': "name", ':': ":", 's': '"string"', '1': "number", ',': ",", 'n': "\\n",
        'E': "<error>", 'f': "label"}
NAMES = rx.alt(I.IDENT, rx.lit("[i]"), rx.lit("[I]"))
SPECIAL = [("DelayTimer", rx.ci("dt")), ("SoundTimer", rx.ci("st")), ("IndexRegister", rx.ci("i")),
           ("IndexRegisterIndirect", rx.ci("[i]")), ("KeypadRegister", rx.ci("k")), ("Bcd", rx.ci("b")), ("Sprite", rx.ci("f"))]
PLAIN = rx.inter(I.LABELS, rx.R('[a-uw-zA-UW-Z_].{3,}'))     # names no operand rule looks at
REG = rx.R('[vV][0-9a-fA-F]')
REGS = [rx.ci("v%x" % k) for k in range(16)]


def show(w):
    out = []
    for k, g in itertools.groupby(w):
        n = len(list(g))
        out.append(" ".join([SHOW[k]] * n) if n < 4 else "%s{%d}" % (SHOW[k], n))
    return " ".join(out)


def names_lang(b):
    if b[0] == 'sym' and b[1][0] == 'in' and isinstance(b[1][1], str):
        if b[1][1].startswith('i'):
            return NAMES
        if b[1][1].startswith('f'):
            return PLAIN
    return rx.ALL


class Tokens(object):
    def __init__(self, ctx, ip, w):
        self.ctx, self.ip, self.w = ctx, ip, w
        self.tok = ctx.ty("token::Token")
        self.tv = ctx.variants(self.tok)
        self.loc = ctx.ty("source_file_location::SourceFileLocation")
        self.toks = [self.make(k, c) for k, c in enumerate(w)]

    def make(self, k, c):
        ip = self.ip
        var = self.tv[KINDS[c]]
        fs = []
        for _, t in ip.types[self.tok]["variants"][var]["f"]:
            if t == self.loc:
                fs.append(o_fmt.mkloc(self.ctx, ip, 'loc%d' % k))
            elif ip.types[t]["k"] in ("ref", "ptr"):
                fs.append(StrV(('sym', ('in', '%s%d' % (c if c in "if" else 't', k)))))
            elif ip.types[t]["k"] == "enum":
                fs.append(ip.sym(('in', 'err%d' % k), t))
            else:
                fs.append(L(atom(('in', 'n%d' % k), 0, 4095)))
        return Agg(self.tok, var, fs)

    def text(self, k):
        return self.toks[k].fs[0]

    def location(self, k):
        return self.toks[k].fs[-1]

    def install(self):
        """next() of the lexer yields the sequence, then None for ever."""
        nx = [f for f in self.ctx.prog.local_fns() if f.has_body() and "scanner::Scanner" in f.name
              and (f.name.endswith("Iterator>::next") or strip_generics(f.name).endswith("Scanner::next_token"))]
        if not nx:
            raise Missing("<Scanner as Iterator>::next")

        def stub(ip, st, fn, args, site):
            c = st.cells.get(('tokpos',), 0)
            st.cells[('tokpos',)] = min(c + 1, len(self.toks))
            opt = fn.locals[0]
            if c >= len(self.toks):
                return [Out("ret", st, Agg(opt, 0, ()))]
            return [Out("ret", st, Agg(opt, 1, (self.toks[c],)))]
        for f in nx:
            self.ip.stubs[f.id] = stub


def grammar(w):
    """Statements of the token kinds w: (statements, soft, error index or None).
    A statement is (kind, index of its name, [operand indices]).  soft: the grammar written in the parser's
    comments derives the text, but nothing a user is promised depends on it (an operand list that is empty or
    ends in a comma where no line end follows), so refusing it is as good."""
    out = []
    soft = False
    i, n = 0, len(w)

    def lst(i, ok):
        nonlocal soft
        ops = []
        while True:
            if i < n and w[i] == 'n':
                return ops, i
            if i < n and w[i] in ok and not (w[i] in "if" and w[i + 1:i + 2] == ":"):
                ops.append(i)
                i += 1
                if i < n and w[i] == ',':
                    i += 1
                    continue
                return ops, i
            if not (ok == "if1" and i < n and w[i] == 'c'):
                soft = True
            return ops, i
    while i < n:
        c = w[i]
        if c in "cn":
            i += 1
        elif c == '.':
            if i + 1 >= n or w[i + 1] not in "if":
                return out, soft, i + 1
            ops, j = lst(i + 2, "s1")
            out.append(("Directive", i + 1, ops))
            i = j
        elif c in "if" and w[i + 1:i + 2] == ":":
            out.append(("Label", i, None))
            i += 2
        elif c in "if":
            ops, j = lst(i + 1, "if1")
            out.append(("Instruction", i, ops))
            i = j
        else:
            return out, soft, i
    return out, soft, None


class Build(object):
    """The node list the statement list describes."""

    def __init__(self, ctx, ip, toks):
        self.ctx, self.ip, self.toks = ctx, ip, toks
        self.nt = ctx.ty("parser::Node")
        self.nv = ctx.variants(self.nt)
        self.ft, self.fv = I.setup(ctx, ip)
        self.lt = ctx.ty("parser::Literal")
        self.lv = ctx.variants(self.lt)
        self.u12 = u12_ty(ip)

    def field(self, st, k):
        v = self.toks.text(k)
        if self.toks.w[k] == '1':
            return Agg(self.ft, self.fv["NumericLiteral"], [Agg(self.u12, None, [v])])
        if self.toks.w[k] == 'i':
            for name, lg in SPECIAL:
                if st.need(('in', v.t, lg)):
                    return Agg(self.ft, self.fv[name], ())
            if st.need(('in', v.t, REG)):
                for r in range(16):
                    if st.need(('in', v.t, REGS[r])):
                        return Agg(self.ft, self.fv["GeneralPurposeRegister"], [K(r)])
        return Agg(self.ft, self.fv["Identifier"], [v])

    def node(self, st, s):
        kind, name, ops = s
        ip = self.ip
        var = self.nv[kind]
        sty = ip.types[self.nt]["variants"][var]["f"][0][1]
        fs = []
        for fname, fty in ip.types[sty]["variants"][0]["f"]:
            if fty == self.toks.loc:
                fs.append(self.toks.location(name))
            elif ip.types[fty]["k"] in ("ref", "ptr"):
                fs.append(self.toks.text(name))
            elif kind == "Directive":
                fs.append(SeqV([('e', Agg(self.lt, self.lv["String" if self.toks.w[k] == 's' else "Numeric"], [self.toks.text(k)])) for k in ops]))
            else:
                fs.append(SeqV([('e', self.field(st, k)) for k in ops]))
        return Agg(self.nt, var, [Agg(sty, None, fs)])


def parse_fns(ctx):
    fs = [g for g in ctx.prog.fns.values() if g.has_body() and g.crate == "c8s" and strip_generics(g.name).endswith("parser::parse")]
    if not fs:
        raise Missing("parser::parse")
    return fs


def case(ctx, w):
    r = ObResult("O-PARSE")
    ip = ctx.interp()
    ip.peel = 2 * len(w) + 8 if len(w) < 50 else len(w) + 8
    ip.peel_width = 4000
    paths = 0
    vs = show(w)
    with Langs(names_lang):
        for f in parse_fns(ctx):
            t = Tokens(ctx, ip, w)
            t.install()
            b = Build(ctx, ip, t)
            where = ctx.where(f)
            new = [g for g in ctx.prog.local_fns() if g.has_body() and strip_generics(g.name).endswith("scanner::Scanner::new")]
            if not new:
                raise Missing("Scanner::new")
            st = State()
            src = ip.call(st, new[0].id, [StrV(('lit', 'F')), StrV(('sym', ('in', 'source')))])
            if len(src) != 1 or src[0].kind != "ret":
                r.open("%s: creating the scanner" % vs, where)
                continue
            stmts, soft, bad = grammar(w)
            for o in ip.call(src[0].st, f.id, [src[0].val]):
                if o.kind in ("stuck", "cut"):
                    r.open("%s: %s" % (vs, o.info), where)
                    continue

                def go(s):
                    if o.kind != "ret" or not is_ok(o.val):
                        return None
                    return SeqV([('e', b.node(s, x)) for x in stmts])
                try:
                    for s, want in fork(ip, o.st, go):
                        paths += 1
                        judge(r, ip, t, b, o, s, w, vs, want, soft, bad, where)
                except (Unsupported, TooComplex) as e:
                    r.open("%s: specification: %s" % (vs, e), where)
    if ip.cuts:
        r.open("%s: %d paths cut off" % (vs, ip.cuts), where)
    return r.findings, r.undecided, paths, set(ip.visited_fns)


def judge(r, ip, t, b, o, s, w, vs, want, soft, bad, where):
    def rep(cls, what, pair=None, at=None):
        differ = None
        if pair:
            x, y = pair
            differ = lambda v: defin(v.conc(x)) and defin(v.conc(y)) and v.conc(x) != v.conc(y)
        report(r, ip, o, None, cls, "in `%s` %s" % (vs, what) if o.kind == "ret" else "parsing `%s` %s" % (vs, what), at or where, s, differ, pair or ())
    if o.kind == "panic":
        return rep("panic", "panics (%s)" % o.info[0], at=span_str(o.info[1]))
    if o.kind == "loop":
        return rep("endless", "never ends", at=span_str(o.info[1]))
    if o.kind != "ret":
        return rep("exit", "ends the process")
    if not isinstance(o.val, Agg) or o.val.var is None:
        r.open("%s: result variant unknown" % vs, where)
        return
    if is_err(o.val):
        o_fmt.check(b.ctx, ip, r, s, o.val.fs[0], "loc%d" % bad if bad is not None and bad < len(w) and not soft else None,
                    "`%s`" % vs, where)
        if bad is None:
            if not soft:
                rep("refused", "a well-formed text is refused")
            return
        if soft:
            return
        loc = find_loc(ip, o.val, t.loc)
        if bad < len(w):
            y = t.location(bad)
            if loc is None:
                rep("location", "the error does not carry the location of token %d" % (bad + 1))
                return
            x = full(ip, loc)
            if not same(s, x, y):
                rep("location", "the error carries the location of another token than token %d" % (bad + 1), (x, y))
        return
    if bad is not None:
        rep("error-token" if 'E' in w else "accepted", "token %d (%s) fits no statement, yet parsing succeeds" % (
            bad + 1, SHOW[w[bad]] if bad < len(w) else "end of text"))
        return
    got = o.val.fs[0]
    if same(s, got, want):
        return
    gs = [x[1] for x in got.segs if x[0] == 'e'] if isinstance(got, SeqV) else None
    ws = [x[1] for x in want.segs]
    if gs is None or len(gs) != len(got.segs):
        r.open("%s: statement list not determined" % vs, where)
        return
    if len(gs) != len(ws):
        rep("statements", "%d statements are made of %d" % (len(gs), len(ws)), None)
        return
    for k, (g, x) in enumerate(zip(gs, ws)):
        if same(s, g, x):
            continue
        if not isinstance(g, Agg) or g.var != x.var:
            rep("statements", "statement %d becomes %s" % (k + 1, sim.short(norm_val(s, g))), None)
            return
        g0, x0 = g.fs[0], x.fs[0]
        names = [n for n, _ in ip.types[x0.ty]["variants"][0]["f"]]
        for n, p, q in zip(names, g0.fs, x0.fs):
            if same(s, p, q):
                continue
            if isinstance(q, Agg) and q.ty == t.loc:
                rep("location", "statement %d carries %s" % (k + 1, sim.short(norm_val(s, p))), (p, q))
            else:
                rep("operands" if isinstance(q, SeqV) else "name", "the %s of statement %d: %s instead of %s" % (
                    n, k + 1, sim.short(norm_val(s, p)), sim.short(norm_val(s, q))), (p, q))
        return


PIECES = ["ff,1n", "ff,f,1n", "fn", "ff", "f:", ".f1,sn", ".fs", ".fn", "cn", "n", "E", "s", "f,", ",", ":", "1", "..", "f1,", ".f", ".f1,"]


def wild(w):
    """Statement names may be any name; operands that are names are labels (wild operands: see FIELDS)."""
    xs = list(w)
    for _, k, _ in grammar(w)[0]:
        xs[k] = 'i'
    return "".join(xs)


FIELDS = ["ii", "iin", "ii,1n", "if,in", "i1,in", "if,f,in", "ii,n", "iic", "ii:", "ii.f1n", "i1n", "i" + "1," * 12 + "i", "iinf1n", "i:iinf1n", ".f1nii"]


def words(tier):
    out = [""]
    for k in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
        out += ["".join(x) for x in itertools.product("c.f:s1,nE", repeat=k)]
    for k in (5,) if tier == "quick" else (6,):
        out += ["".join(x) for x in itertools.product("cf:1,n" if tier == "quick" else "c.f:1,n", repeat=k)]
    for k in (2, 3):
        out += ["".join(x) for x in itertools.product(PIECES, repeat=k)]
    for k in (6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300, 513, 1025) + (() if tier == "quick" else (4097,)):
        out += ["f" + ",".join("1" * k) + "n", ".f" + ",".join("s" * k) + "n", ".f" + ",".join("1" * k), "f" + ",".join("f" * k),
                "n" * k + "f1", "cn" * k + "f:", "f:" * k, "f1n" * k, ".f1n" * k, "f1" * k, ".fs" * k, "fn" * k + "E",
                "f" + "1," * k + "E", "f" + "1," * k + "n", ".f" + "1s" * k, ".f" + "1," * k + "c"]
    return list(dict.fromkeys([wild(w) for w in out] + FIELDS))


@timed
def o_parse(ctx):
    """parse() on every sequence of token kinds analysed, against the statement grammar."""
    r = ObResult("O-PARSE")
    o_prog.run_cases(ctx, r, case, words(ctx.tier), 150 if ctx.tier == "quick" else 700, "token_sequences")
    return r
