"""Whole programs of a few statements of any kind through both passes (trace partitions by statement
kinds): exact states, so a mismatch with the specification has a concrete program."""
from core import *
import itertools
import par
import sim
import o_asm as A
import o_instr as I
import o_fmt
from o_asm import is_err, is_ok, find_loc, full, Program, PassOne, arg_for, u12_ty
from o_instr import report, defin

# statement templates: kind, name, operands
T = {
    "label":   ("Label", None, None),
    ".org n":  ("Directive", "org", ["num"]),
    ".equ n":  ("Directive", "equ", ["num"]),
    ".db n":   ("Directive", "db", ["num"]),
    ".db str": ("Directive", "db", ["str"]),
    ".db n,str": ("Directive", "db", ["num", "str"]),
    "cls":     ("Instruction", "cls", []),
    "jp label": ("Instruction", "jp", ["id"]),
    "ld vx,label": ("Instruction", "ld", ["reg", "id"]),
    ".bogus":  ("Directive", "bogus", []),
    "bogus":   ("Instruction", "bogus", []),
}
MAIN = ["label", ".org n", ".equ n", ".db n", ".db str", "cls", "jp label"]


class Build(object):
    fixed = False   # label names fixed and distinct (long lists)

    def __init__(self, ctx, ip):
        self.ctx, self.ip = ctx, ip
        self.nt = ctx.ty("parser::Node")
        self.nv = ctx.variants(self.nt)
        self.ft, self.fv = I.setup(ctx, ip)
        self.lt = ctx.ty("parser::Literal")
        self.lv = ctx.variants(self.lt)
        self.loc = ctx.ty("source_file_location::SourceFileLocation")
        self.u12 = u12_ty(ip)

    def operand(self, i, k, kind, lit):
        ip = self.ip
        if lit:
            if kind == "num":
                return Agg(self.lt, self.lv["Numeric"], [L(atom(('in', 'n%d.%d' % (i, k)), 0, 4095))])
            if self.fixed:
                return Agg(self.lt, self.lv["String"], [StrV(('lit', 'text' * (1 + i % 6)))])
            return Agg(self.lt, self.lv["String"], [StrV(('sym', ('in', 's%d.%d' % (i, k))))])
        if kind == "id":
            if self.fixed:
                ls = [j for j, t in enumerate(self.ts) if t == "label"]
                name = "Name%d" % ls[(i * 5) % len(ls)] if ls else "Name"
                return Agg(self.ft, self.fv["Identifier"], [StrV(('lit', name))])
            return Agg(self.ft, self.fv["Identifier"], [StrV(('sym', ('in', 'use%d' % i)))])
        if kind == "reg":
            return Agg(self.ft, self.fv["GeneralPurposeRegister"], [L(atom(('in', 'r%d.%d' % (i, k)), 0, 15))])
        return Agg(self.ft, self.fv["NumericLiteral"],
                   [Agg(self.u12, None, [L(atom(('in', 'n%d.%d' % (i, k)), 0, 4095))])])

    def node(self, i, t):
        ip = self.ip
        kind, name, ops = T[t]
        var = self.nv[kind]
        sty = ip.types[self.nt]["variants"][var]["f"][0][1]
        fs = []
        for fname, fty in ip.types[sty]["variants"][0]["f"]:
            if fty == self.loc:
                fs.append(o_fmt.mkloc(self.ctx, ip, 'loc%d' % i))
            elif ip.types[fty]["k"] in ("ref", "ptr"):
                if name is None and self.fixed:
                    fs.append(StrV(('lit', 'Name%d' % i)))
                elif name is None:
                    fs.append(StrV(('sym', ('in', 'label%d' % i))))
                else:
                    fs.append(StrV(('lit', name)))
            else:
                fs.append(SeqV([('e', self.operand(i, k, o, kind == "Directive")) for k, o in enumerate(ops)]))
        return Agg(self.nt, var, [Agg(sty, None, fs)])

    def location(self, i):
        return o_fmt.mkloc(self.ctx, self.ip, 'loc%d' % i)

    def program(self, ts):
        self.ts = ts
        self.fixed = len(ts) > 6
        return SeqV([('e', self.node(i, t)) for i, t in enumerate(ts)])


def prog_lang(b):
    if b[0] == 'sym' and b[1][0] == 'in' and isinstance(b[1][1], str):
        if b[1][1].startswith(('label', 'use')):
            return I.LABELS
    return rx.ALL


def run_spec(st, spec, k):
    r = spec.start(st)
    while r[0] == 'next':
        if k == 0:
            raise TooComplex("specification steps")
        r = spec.step(st, r[1])
        k -= 1
    return r[1]


def pass_two(b, prog, st, n, lmap):
    """('err', why, loc) or ('ok', [(start, bytes)])."""
    ip = b.ip
    regions = []
    start, data = ZERO, SeqV()
    for i in range(n):
        kind, d = prog.node(st, K(i))
        loc = prog.field(kind, d, "location")
        if kind == "Label":
            continue
        if kind == "Directive":
            args = prog.field(kind, d, "arguments")
            sp = A.DirSpec(ip, b.ctx, prog.field(kind, d, "identifier"), args)
            r = run_spec(st, sp, 12)
            if r[1] == "Org":
                regions.append((start, data))
                start, data = r[2], SeqV()
            elif r[1] == "Db":
                data = SeqV(data.segs + r[4].segs)
            continue
        v, word, info = I.spec_forms(ip, st, prog.field(kind, d, "mnemonic"), prog.field(kind, d, "fields"), lmap, b.ft, b.fv)
        if v != "ok":
            return ("err", {"label": "undefined", "width": "width"}.get(v, "instruction"), loc)
        hi, lo = I.hilo(st, word)
        data = SeqV(data.segs + (('e', hi), ('e', lo)))
    regions.append((start, data))
    return ("ok", regions)


def image(st, regions):
    """Regions without empty ones, adjacent ones joined: where every byte goes, in order."""
    out = []
    for s, d in regions:
        if st.need(p_eq(seq_len(d), ZERO)):
            continue
        if out and st.need(p_eq(s, out[-1][0] + seq_len(out[-1][1]))):
            out[-1] = (out[-1][0], SeqV(out[-1][1].segs + d.segs))
        else:
            out.append((s, d))
    return out


def as_val(rs):
    return Agg(None, None, [x for s, d in rs for x in (s, d)])


def ranges_of(ip, v):
    """[(start, bytes)] of a Vec<DataRange>."""
    out = []
    for s in v.segs:
        if s[0] != 'e':
            raise Unsupported("ranges %r" % (s,))
        x = s[1]
        if isinstance(x, SymV):
            x = ip.expand(x)
        start = data = None
        for f in x.fs:
            if isinstance(f, Agg) and len(f.fs) == 1 and isinstance(f.fs[0], Lin):
                if start is not None:
                    raise Unsupported("range fields")
                start = f.fs[0]
            elif isinstance(f, SeqV):
                if data is not None:
                    raise Unsupported("range fields")
                data = f
        if start is None or data is None:
            raise Unsupported("range fields")
        out.append((start, data))
    return out


WHAT = dict(PassOne.WHAT)
WHAT.update({"undefined": "a label that is never defined is accepted", "width": "an operand too large for its field is accepted",
             "instruction": "an invalid instruction is accepted"})


def case(ctx, ts):
    """(findings, undecided, paths) for one list of statement templates."""
    r = ObResult("O-PROG")
    ip = ctx.interp()
    ip.peel = 2 * len(ts) + 8 if len(ts) < 50 else len(ts) + 8
    ip.peel_width = 4000
    paths = 0
    with Langs(prog_lang):
        b = Build(ctx, ip)
        f = ctx.fn("assembler::assemble")
        nodes = b.program(ts)
        text = " / ".join(ts)
        where = ctx.where(f)
        st = State()
        outs = ip.call(st, f.id, [arg_for(ip, f, 0, nodes)])
        prog = Program(ctx, ip, nodes)
        spec = PassOne(prog, b.u12)
        for o in outs:
            if o.kind in ("stuck", "cut"):
                r.open("%s: %s" % (text, o.info), where)
                continue

            def go(s):
                res = run_spec(s, spec, len(ts) + 2)
                if res[0] == "err":
                    return res, None, None
                p2 = pass_two(b, prog, s, len(ts), res[1])
                if p2[0] == "err" or o.kind != "ret" or not is_ok(o.val):
                    return p2, None, None
                got = ranges_of(ip, o.val.fs[0])
                w1, g1 = as_val(p2[1]), as_val(got)
                if len(got) == len(p2[1]) and same(s, w1, g1):
                    return p2, w1, g1
                return p2, as_val(image(s, p2[1])), as_val(image(s, got))
            try:
                for s, (res, want, got) in fork(ip, o.st, go):
                    paths += 1
                    judge(r, ip, b, o, s, res, want, got, text, where)
            except (Unsupported, TooComplex) as e:
                r.open("%s: specification: %s" % (text, e), where)
    if ip.cuts:
        r.open("%s: %d paths cut off" % (text, ip.cuts), where)
    return r.findings, r.undecided, paths, set(ip.visited_fns)


def rejected_class(ip, v):
    """Which guarantee a wrong rejection breaks, by the kind of error."""
    e = v.fs[0] if v.fs else None
    if isinstance(e, Agg) and e.ty is not None and e.var is not None:
        n = ip.types[e.ty]["variants"][e.var]["n"]
        if "Label" in n and "Without" not in n:
            return "rejected-label"
        if "Over" in n or "Large" in n:
            return "rejected-space"
        if "Directive" in n or "Constant" in n:
            return "rejected-directive"
        if "Assembly" in n:
            return "rejected-instruction"
    return "rejected"


def judge(r, ip, b, o, s, res, want, got, text, where):
    if o.kind == "panic":
        report(r, ip, o, None, "panic", "assembling `%s` panics (%s)" % (text, o.info[0]), span_str(o.info[1]), s)
        return
    if o.kind == "loop":
        report(r, ip, o, None, "endless", "assembling `%s` never ends" % text, span_str(o.info[1]), s)
        return
    if o.kind != "ret":
        report(r, ip, o, None, "exit", "assembling `%s` ends the process" % text, where, s)
        return
    if not isinstance(o.val, Agg) or o.val.var is None:
        r.open("%s: result variant unknown" % text, where)
        return
    if res[0] == "err":
        if is_err(o.val):
            loc = find_loc(ip, o.val, b.loc)
            same_kind = rejected_class(ip, o.val) in ("rejected", {
                "duplicate": "rejected-label", "overflow": "rejected-space", "directive": "rejected-directive",
                "equ": "rejected-directive"}.get(res[1], "rejected-instruction"))
            if loc is not None and same_kind:
                x, y = full(ip, loc), full(ip, res[2])
                if not same(s, x, y):
                    report(r, ip, o, None, "location", "in `%s` the error (%s) carries the location of another statement" %
                           (text, res[1]), where, s, lambda v: v.conc(x) != v.conc(y), (x, y))
                else:
                    k = [i for i in range(len(b.ts)) if same(s, y, b.location(i))]
                    o_fmt.check(b.ctx, ip, r, s, o.val.fs[0], "loc%d" % k[0] if k else None, "`%s`" % text, where)
            else:
                o_fmt.check(b.ctx, ip, r, s, o.val.fs[0], None, "`%s`" % text, where)
            return
        report(r, ip, o, None, res[1], "in `%s` %s" % (text, WHAT[res[1]]), where, s)
        return
    if is_err(o.val):
        report(r, ip, o, None, rejected_class(ip, o.val), "the valid program `%s` is rejected" % text, where, s)
        return
    if same(s, want, got):
        return
    cls = "layout"
    ws, gs = want.fs, got.fs
    if len(ws) == len(gs) and all(same(s, a, c) for a, c in zip(ws[0::2], gs[0::2])) and "label" in text:
        cls = "bytes"
    report(r, ip, o, None, cls, "`%s` is laid out as %s instead of %s" % (text, sim.short(norm_val(s, got)), sim.short(norm_val(s, want))),
           where, s, lambda v: defin(v.conc(want)) and defin(v.conc(got)) and v.conc(want) != v.conc(got), (want, got))


def lists(tier):
    one = list(T)
    out = [()] + [(a,) for a in one]
    for k in (2, 3):
        out += list(itertools.product(one, repeat=k))
    for a in one:
        out.append((a,) * 20)
        for b in MAIN:
            if a != b:
                out.append((a, b) * 10)
                out.append((a,) * 9 + (b,) * 9 + (a,) * 2)
    for k in (33, 64, 65, 100, 128, 129, 256, 257):
        for a in one:
            if k < 200 or not a.startswith(".db n"):
                out.append((a,) * k)
                out.append(("label", a) * (k // 2))
            if k < 60:
                out.append(("cls",) * k + (a, "label"))
                out.append((a,) * k + ("label", "jp label"))
    for k in (4,) if tier == "quick" else (4, 5):
        out += list(itertools.product(MAIN if k < 5 else MAIN[:1] + MAIN[1:3] + MAIN[4:], repeat=k))
    return out


@timed
def o_prog(ctx):
    """assemble() on every list of up to four statements (five in the thorough tier), and on longer repetitive
    ones, with symbolic names, numbers and strings, against the specification of both passes."""
    r = ObResult("O-PROG")
    run_cases(ctx, r, case, lists(ctx.tier), 120 if ctx.tier == "quick" else 700, "statement_lists")
    return r


def run_cases(ctx, r, case, items, budget, what, limit=40, keep=3):
    """Analyses the cases in parallel and collects their findings in r."""
    n = seen = 0
    for item, res, err in par.cases(ctx, case, items, budget, limit=limit, enough=lambda x: bool(x[0])):
        seen += 1
        if res is None:
            s = str(item)
            r.open("%s: %s" % (s if len(s) <= 90 else s[:60] + "... (%d)" % len(s), err))
            continue
        fs, und, paths, fns = res
        n += 1
        r.fns |= fns
        if not fs and not und:
            r.good()
        for f in fs:
            f.ob = r.ob
            r.total += 1
            if len([g for g in r.findings if g.cls == f.cls]) < keep:
                r.findings.append(f)
        for u in und:
            r.open(u["why"], u["where"])
        r.count(paths=paths)
    if seen < len(items):
        r.open("%d of %d %s not reached in the time allowed" % (len(items) - seen, len(items), what))
        r.total += len(items) - seen - 1
    r.analysed[what] = n
    r.analysed[what + "_planned"] = len(items)
    return r
