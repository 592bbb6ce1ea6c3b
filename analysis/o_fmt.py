"""What the error values say when they are printed.

`render` runs the program's own Display implementations on a value in a given state; nested values of the
program's types are rendered in turn, so the result is the text as a sequence of literals and symbolic pieces.
"""
import re
from core import *
from o_instr import report, defin
import o_instr as I

BIG = 1 << 40


def mkloc(ctx, ip, name):
    """A source location at ('in', name.*): any file, line, column and length, made by the program's constructor."""
    memo = ctx.__dict__.setdefault("_locs", {})
    if name in memo:
        return memo[name]
    f = ctx.fn("SourceFileLocation::new")
    st = State()
    a = parts(name)
    outs = ip.call(st, f.id, [StrV(a[0]), a[1], a[2], a[3]])
    outs = [o for o in outs if o.kind == "ret"]
    if len(outs) != 1 or not isinstance(outs[0].val, Agg):
        raise Missing("SourceFileLocation::new")
    memo[name] = norm_val(outs[0].st, outs[0].val)
    return memo[name]


def parts(name):
    return (('sym', ('in', name + '.file')),) + tuple(L(atom(('in', name + '.' + x), 1, BIG)) for x in ("line", "column", "length"))


def loc_text(st, a):
    """The documented text of a location, on a state where the length is known to be 1 or not."""
    num = lambda x: ('fmt', 'display', False, False, None, None, st.norm(x))
    ts = [a[0], ('lit', ':'), num(a[1]), ('lit', ':'), num(a[2])]
    if not st.need(p_eq(a[3], K(1))):
        ts += [('lit', '-'), num(a[2] + a[3] - 1)]
    return ts


def display_impl(ctx, ip, ty):
    """The program's Display::fmt for values of type ty."""
    tab = getattr(ctx, "_display", None)
    if tab is None:
        tab = ctx._display = {}
        for g in ctx.prog.local_fns():
            if g.has_body() and re.search(r" as (std|core)::fmt::Display>::fmt$", g.name):
                t = ip.types[g.locals[1]] if len(g.locals) > 1 else {"k": None}
                if t["k"] == "ref":
                    tab[t["elem"]] = g
    return tab.get(ty)


def render(ctx, ip, st, v, depth=0):
    """[(kind, state, pieces or None, info)] of printing v."""
    f = display_impl(ctx, ip, v.ty)
    if f is None or depth > 6:
        return [("ret", st, [('sym', ('unknown', 'text'))], None)]
    from o_asm import arg_for
    old = ip.fmt_ok
    ip.fmt_ok = True
    try:
        n = len(st.log)
        out = []
        for o in ip.call(st.copy(), f.id, [arg_for(ip, f, 0, v), ObjV("formatter")]):
            if o.kind != "ret":
                out.append((o.kind, o.st, None, o))
                continue
            if isinstance(o.val, Agg) and o.val.var == 1:
                out.append(("fails", o.st, None, o))
                continue
            if not isinstance(o.val, Agg) or o.val.var != 0:
                out.append(("stuck", o.st, None, Out("stuck", o.st, info="formatting result")))
                continue
            ts = []
            for e in o.st.log[n:]:
                if e[0] == 'fmtwrite':
                    t = e[1]
                    ts += list(t[1]) if t[0] == 'cat' else [t]
            out += nested(ctx, ip, o.st, ts, depth)
        return out
    finally:
        ip.fmt_ok = old


def nested(ctx, ip, st, ts, depth):
    """Renders the program's own values among the pieces."""
    for k, t in enumerate(ts):
        if t[0] == 'fmt' and t[1] == 'display' and isinstance(t[6], (Agg, SymV)) and display_impl(ctx, ip, t[6].ty) is not None:
            out = []
            for kind, s, xs, info in render(ctx, ip, st, t[6], depth + 1):
                if kind != "ret":
                    out.append((kind, s, xs, info))
                    continue
                if t[4] is not None or t[5] is not None:
                    xs = [('sym', ('unknown', 'padded'))]
                out += [(k2, s2, None if ys is None else ts[:k] + xs + ys, i2) for k2, s2, ys, i2 in nested(ctx, ip, s, ts[k + 1:], depth)]
            return out
    return [("ret", st, list(ts), None)]


def merge_lits(ts):
    out = []
    for t in ts:
        if t[0] == 'lit' and out and out[-1][0] == 'lit':
            out[-1] = ('lit', out[-1][1] + t[1])
        elif t != ('lit', ''):
            out.append(t)
    return out


def piece(st, t):
    return t[:6] + (st.norm(t[6]),) if t[0] == 'fmt' and isinstance(t[6], Lin) else t


def starts_with(st, ts, want):
    """Whether the pieces begin with those of want: True, False (provably not at a known place) or None."""
    ts = merge_lits([piece(st, t) for t in ts])
    want = merge_lits([piece(st, t) for t in want])
    for k, w in enumerate(want):
        if k >= len(ts):
            return False
        t = ts[k]
        if t == w:
            continue
        if w[0] == 'lit' and t[0] == 'lit':
            if k == len(want) - 1 and t[1].startswith(w[1]):
                return True
            return False
        if w[0] == 'fmt' and t[0] == 'fmt' and t[1] == 'display' and t[4] is None and t[5] is None and isinstance(t[6], Lin):
            if same(st, t[6], w[6]):
                continue
            return (t[6], w[6])
        if 'lit' in (w[0], t[0]) or {w[0], t[0]} == {'sym', 'fmt'}:
            if t[0] == 'sym' and t[1][0] == 'unknown':
                return None
            return False if t[0] in ('lit', 'sym') or (t[0] == 'fmt' and isinstance(t[6], Lin)) else None
        return None
    return True


def show(ts):
    return "".join(t[1] if t[0] == 'lit' else "{%s}" % (t[1][-1] if t[0] == 'sym' and isinstance(t[1], tuple) else "..") for t in merge_lits(ts))[:160]


def shape(v, name):
    """v up to the numbering of the inputs."""
    tab = {}
    sub = lambda m: "%s%d" % (m.group(1), tab.setdefault(m.group(0), len(tab)))
    return re.sub(r"([a-z]+)(\d+)", sub, "%r %s" % (v, name))


def check(ctx, ip, r, st, v, name, text, where):
    """Prints v; name: the location it must begin with (None: any text)."""
    memo = ctx.__dict__.setdefault("_shapes", {})
    v = norm_val(st, v)
    k = shape(v, name)
    if k not in memo:
        # on a state that assumes nothing: what holds there holds on every state
        t = ObResult("tmp")
        try:
            check_on(ctx, ip, t, State(), v, name, text, where)
            memo[k] = not t.findings and not t.undecided
        except (Unsupported, TooComplex):
            memo[k] = False
    if not memo[k]:
        check_on(ctx, ip, r, st, v, name, text, where)


def check_on(ctx, ip, r, st, v, name, text, where):
    for kind, s, ts, o in render(ctx, ip, st, v):
        if kind == "panic":
            report(r, ip, o, None, "panic", "printing the error of %s panics (%s)" % (text, o.info[0]), span_str(o.info[1]), s)
            continue
        if kind == "fails":
            report(r, ip, o, None, "panic", "printing the error of %s fails, which makes the caller panic" % text, where, s)
            continue
        if kind != "ret":
            r.open("%s: printing the error: %s" % (text, o.info), where)
            continue
        if name is None:
            continue
        for s2, w in fork(ip, s, lambda z: loc_text(z, parts(name)) + [('lit', ':')]):
            ok = starts_with(s2, ts, w)
            if ok is True:
                continue
            if ok is None:
                r.open("%s: the printed error is not understood: %s" % (text, show(ts)), where)
            elif ok is False:
                report(r, ip, None, None, "text", "the error of %s is printed as `%s`, which does not begin with file, line and column of the place" % (text, show(ts)), where, s2)
            else:
                x, y = ok
                report(r, ip, None, None, "text", "the error of %s is printed as `%s` with another line or column than the place it carries" % (text, show(ts)), where, s2,
                       lambda u: defin(u.conc(x)) and u.conc(x) != u.conc(y), (x, y))


@timed
def o_loc(ctx):
    """Every source location prints as file:line:column, or file:line:column-last when longer than one character."""
    r = ObResult("O-FMT")
    ip = ctx.interp()
    v = mkloc(ctx, ip, 'loc')
    where = ctx.where(display_impl(ctx, ip, v.ty)) if display_impl(ctx, ip, v.ty) else ""
    n = 0
    for kind, s, ts, o in render(ctx, ip, State(), v):
        if kind == "panic" or kind == "fails":
            report(r, ip, o, None, "panic", "printing a location panics", where, s)
            continue
        if kind != "ret":
            r.open("printing a location: %s" % (o.info,), where)
            continue
        for s2, w in fork(ip, s, lambda z: loc_text(z, parts('loc'))):
            n += 1
            ok = starts_with(s2, ts + [('lit', '\n')], w + [('lit', '\n')])
            if ok is True:
                r.good()
            elif ok is None:
                r.open("the printed location is not understood: %s" % show(ts), where)
            elif ok is False:
                report(r, ip, None, None, "text", "a location is printed as `%s`" % show(ts), where, s2)
            else:
                x, y = ok
                report(r, ip, None, None, "text", "a location is printed as `%s` with other numbers than its line, first and last column" % show(ts), where, s2,
                       lambda u: defin(u.conc(x)) and u.conc(x) != u.conc(y), (x, y))
    n += ranges(ctx, ip, r)
    with Langs(lambda b: I.IDENT if b == ('sym', ('in', 'mnemonic')) else I.LABELS if b == ('sym', ('in', 'label0')) else rx.ALL):
        n += names(ctx, ip, r)
    r.fns |= ip.visited_fns
    r.count(paths=n)
    return r


def ranges(ctx, ip, r):
    """The overlap message prints any region of a program (at least one byte, ending at or below $FFF) as
    `$first...$last (size bytes)`."""
    import o_depth
    from o_out import range_val, byte_ty
    try:
        start, size = L(atom(('in', 'start'), 0, 4094)), L(atom(('in', 'size'), 1, 4095))
        v = range_val(ip, ctx, start, SeqV([('s', ('in', 'data'), ZERO, size, byte_ty(ip))]))
        f = display_impl(ctx, ip, v.ty)
        if f is None:
            return 0
        local, edges = o_depth.graph(ctx.prog)
        main = ctx.fn("c8s::main", need=False) or [g for g in local.values() if g.name == "c8s::main"][0]
        _, reached = o_depth.cycles(edges, [main.id])
        if f.id not in reached:
            return 0
        st = State()
        st.assume(p_le(start + size, K(4095)))
        n = 0
        for kind, s, ts, o in render(ctx, ip, st, v):
            n += 1
            if kind == "panic":
                report(r, ip, o, None, "panic", "printing a data range panics (%s)" % (o.info[0],), span_str(o.info[1]), s)
            elif kind == "fails":
                report(r, ip, o, None, "panic", "printing a data range fails, which makes the caller panic", ctx.where(f), s)
            elif kind != "ret":
                r.open("printing a data range: %s" % (o.info,), ctx.where(f))
            else:
                hx = lambda x: ('fmt', 'X', True, False, 3, None, s.norm(x))
                want = [('lit', '$'), hx(start), ('lit', '...$'), hx(start + size - 1), ('lit', ' ('), ('fmt', 'display', False, False, None, None, s.norm(size)), ('lit', ' bytes)')]
                a, b = (StrV(s_cat(*merge_lits([piece(s, t) for t in x]))) for x in (ts, want))
                if same(s, a, b):
                    r.good()
                else:
                    report(r, ip, None, None, "range-text", "a region is printed as `%s`, not with its first and last address and its size" % show(ts), ctx.where(f), s,
                           lambda u: defin(u.conc(a)) and u.conc(a) != u.conc(b), (a, b))
        return n
    except (Unsupported, TooComplex, Missing) as e:
        r.open("printing a data range: %s" % e)
        return 0


def names(ctx, ip, r):
    """The errors of directives and instructions with any name."""
    from o_asm import arg_for, is_err
    import o_asm
    n = 0
    ft, fv = I.setup(ctx, ip)
    lt = ctx.ty("parser::Literal")
    lv = ctx.variants(lt)
    f = ctx.fn("Directive::from_identifier_and_parameters")
    g = ctx.fn("Instruction::from_mnemonic_and_parameters")
    u12 = o_asm.u12_ty(ip)
    num = Agg(lt, lv["Numeric"], [L(atom(('in', 'n'), 0, 4095))])
    txt = Agg(lt, lv["String"], [StrV(('sym', ('in', 'text')))])
    lab = Agg(ft, fv["Identifier"], [StrV(('sym', ('in', 'label0')))])
    reg = Agg(ft, fv["GeneralPurposeRegister"], [L(atom(('in', 'r'), 0, 15))])
    val = Agg(ft, fv["NumericLiteral"], [Agg(u12, None, [L(atom(('in', 'n'), 0, 4095))])])
    name = StrV(('sym', ('in', 'mnemonic')))
    runs = [(f, [name, arg_for(ip, f, 1, SeqV([('e', x) for x in a]))]) for a in ((), (num,), (txt,), (num, txt), (txt, num, num))]
    for a in ((), (lab,), (reg, lab), (reg, val), (reg, reg, val), (lab, lab, lab)):
        runs.append((g, [name, arg_for(ip, g, 1, SeqV([('e', x) for x in a])), arg_for(ip, g, 2, MapV(('in', 'labels'), (), u12))]))
    for h, args in runs:
        for o in ip.call(State(), h.id, args):
            if o.kind == "ret" and isinstance(o.val, Agg) and is_err(o.val):
                n += 1
                t = ObResult("tmp")
                try:
                    check(ctx, ip, t, o.st, o.val.fs[0], None, "a statement", ctx.where(h))
                except (Unsupported, TooComplex) as e:
                    t.open("printing an error: %s" % e, ctx.where(h))
                if not t.findings and not t.undecided:
                    r.good()
                for x in t.findings:
                    x.ob = r.ob
                    r.findings.append(x)
                    r.total += 1
                for u in t.undecided:
                    r.open(u["why"], u["where"])
    return n
