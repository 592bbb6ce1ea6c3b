"""Overlap detection and the Intel HEX writer on lists of data ranges."""
from core import *
import itertools
import sim
from o_asm import arg_for, u12_ty
from o_instr import report, defin
from o_prog import run_cases, image, as_val


def range_val(ip, ctx, start, data):
    t = ctx.ty("data_range::DataRange")
    fs = []
    for name, fty in ip.types[t]["variants"][0]["f"]:
        ft = ip.types[fty]
        if ip.is_u12(ft):
            fs.append(Agg(fty, None, [start]))
        elif ft["k"] == "struct" and "Vec" in ft["name"]:
            fs.append(data)
        else:
            raise Unsupported("field `%s` of DataRange" % name)
    return Agg(t, None, fs)


def sym_range(i, n=None):
    """(start, length, bytes) of range i; length symbolic when n is None."""
    start = L(atom(('in', 'start%d' % i), 0, 4095))
    size = L(atom(('in', 'size%d' % i), 1, 4095)) if n is None else K(n)
    return start, size


def byte_ty(ip):
    for i, t in enumerate(ip.types):
        if t["k"] == "uint" and t.get("s") == "u8" or t.get("s") == "u8":
            return i
    raise Unsupported("u8")


def listed(ip, o, k):
    """The pairs of range numbers in the result, sorted; None when not determined."""
    if o.kind != "ret" or not isinstance(o.val, SeqV) or any(x[0] != 'e' for x in o.val.segs):
        return None
    out = []
    for _, p in o.val.segs:
        if not isinstance(p, Agg) or len(p.fs) != 2:
            return None
        two = []
        for v in p.fs:
            try:
                v = models.deref(ip, o.st, v)
            except Unsupported:
                return None
            n = [x[1][1] for f in (v.fs if isinstance(v, Agg) else ()) if isinstance(f, SeqV) for x in f.segs if x[0] == 's' and x[1][0] == 'in']
            if len(n) != 1:
                return None
            two.append(int(n[0][4:]))
        out.append(tuple(sorted(two)))
    return sorted(out)


def case_ovl(ctx, item):
    """item: number of ranges (symbolic) or a list of concrete (start, size)."""
    r = ObResult("O-OVL")
    ip = ctx.interp()
    k = item if isinstance(item, int) else len(item)
    ip.peel = k * (k + 1) // 2 + 2 * k + 10
    ip.peel_width = 20000
    f = ctx.fn("data_range::find_overlapping_ranges")
    where = ctx.where(f)
    st = State()
    rs = []
    for i in range(k):
        if isinstance(item, int):
            s, n = sym_range(i)
            st.assume(p_le(s + n, K(4095)))
        else:
            s, n = K(item[i][0]), K(item[i][1])
        rs.append((s, n))
    u8 = byte_ty(ip)
    ranges = SeqV([('e', range_val(ip, ctx, s, SeqV([('s', ('in', 'data%d' % i), ZERO, n, u8)]))) for i, (s, n) in enumerate(rs)])
    text = "%d ranges" % k if isinstance(item, int) else "ranges %s" % (item,)
    paths = 0

    def spec(s):
        for i in range(k):
            for j in range(i + 1, k):
                if s.need(p_lt(rs[i][0], rs[j][0] + rs[j][1])) and s.need(p_lt(rs[j][0], rs[i][0] + rs[i][1])):
                    return True
        return False
    for o in ip.call(st, f.id, [arg_for(ip, f, 0, ranges)]):
        if o.kind in ("stuck", "cut"):
            r.open("%s: %s" % (text, o.info), where)
            continue

        def go(s):
            bad = spec(s)
            got = None
            if o.kind == "ret" and isinstance(o.val, SeqV):
                got = not s.need(p_eq(seq_len(o.val), ZERO))
            return bad, got
        names = listed(ip, o, k)

        def pairs(s):
            """The pairs of ranges that share an address."""
            return sorted((i, j) for i in range(k) for j in range(i + 1, k)
                          if s.need(p_lt(rs[i][0], rs[j][0] + rs[j][1])) and s.need(p_lt(rs[j][0], rs[i][0] + rs[i][1])))
        try:
            if names is not None:
                for s, want in fork(ip, o.st, pairs):
                    if want and names and names != want:
                        report(r, ip, o, None, "pairs", "of %s, pairs %s overlap and %s are reported" % (text, want, names), where, s)
            elif o.kind == "ret":
                r.open("%s: the reported pairs are not determined" % text, where)
            for s, (bad, got) in fork(ip, o.st, go):
                paths += 1
                if o.kind == "panic":
                    report(r, ip, o, None, "panic", "the overlap check panics (%s) on %s" % (o.info[0], text), span_str(o.info[1]), s)
                elif got is None:
                    r.open("%s: result not determined" % text, where)
                elif bad and not got:
                    report(r, ip, o, None, "missed", "two of %s share an address and no overlap is reported" % text, where, s)
                elif got and not bad:
                    report(r, ip, o, None, "disjoint", "disjoint %s are reported as overlapping" % text, where, s)
        except (Unsupported, TooComplex) as e:
            r.open("%s: specification: %s" % (text, e), where)
    if ip.cuts:
        r.open("%s: %d paths cut off" % (text, ip.cuts), where)
    return r.findings, r.undecided, paths, set(ip.visited_fns)


def ovl_items(tier):
    out = [0, 1, 2, 3] + ([4] if tier == "thorough" else [])
    # many ranges, exactly one overlapping pair, and none
    for n in (5, 9, 20):
        base = [(i * 40, 8) for i in range(n)]
        out.append(tuple(base))
        out.append(tuple(reversed(base)))
        out.append(tuple((i * 8, 8) for i in range(n)))
        for i in range(n):
            for j in range(n):
                if i == j or n == 20 and (i * 7 + j) % 5:
                    continue
                for d in (-7, 0, 7):
                    if n > 5 and d == 0:
                        continue
                    x = list(base)
                    x[j] = (max(0, base[i][0] + d), 8)
                    if j != i:
                        out.append(tuple(x))
    for n in (64, 130):
        base = [(i * 30, 8) for i in range(n)]
        out.append(tuple(base))
        for i, j in ((0, n - 1), (n - 2, n - 1), (0, 1), (n // 2, 3))[:4 if n == 64 else 2]:
            x = list(base)
            x[j] = (base[i][0] + 7, 8)
            out.append(tuple(x))
    for a in ((0, 4095), (4094, 1), (0, 1), (4000, 95)):
        for b in ((0, 4095), (4094, 1), (0, 1), (4000, 95), (1, 1)):
            out.append((a, b))
            out.append((a, (2000, 3), b))
    return out


@timed
def o_ovl(ctx):
    """find_overlapping_ranges reports something exactly when two ranges share an address: all lists of up to
    three (thorough: four) ranges with symbolic bounds, and longer concrete ones."""
    r = ObResult("O-OVL")
    return run_cases(ctx, r, case_ovl, ovl_items(ctx.tier), 100 if ctx.tier == "quick" else 600, "range_lists", limit=90)


# --------------------------------------------------------------------------------------- ihex
def lines_of(t):
    """Lines of a text term: lists of pieces; the last is what follows the final newline."""
    out = [[]]
    for x in (t[1] if t[0] == 'cat' else (t,)):
        if x[0] == 'lit':
            parts = x[1].split("\n")
            for i, p in enumerate(parts):
                if i:
                    out.append([])
                if p:
                    out[-1].append(('lit', p))
        else:
            out[-1].append(x)
    return out


def parse_lit(p):
    """A literal record line -> ('data', addr, bytes) / ('eof',) / None."""
    try:
        if not p.startswith(":"):
            return None
        b = bytes.fromhex(p[1:])
    except ValueError:
        return None
    if len(b) < 5 or b[0] != len(b) - 5 or sum(b) & 255:
        return None
    if b[3] == 1 and b[0] == 0:
        return ('eof',)
    if b[3] == 0:
        return ('data', K(b[1] * 256 + b[2]), SeqV([('e', K(x)) for x in b[4:-1]]))
    return None


FILLS = {
    "zero": lambda j, n: 0,
    "$FF": lambda j, n: 255,
    "ascending": lambda j, n: j % 256,
    "mostly zero": lambda j, n: 7 if j in (0, n // 2) else 0,
    "zero then other": lambda j, n: 9 if j == n - 1 else 0,
    "alternating rows of": lambda j, n: 0 if j // 16 % 2 else 255,
}


def case_ihex(ctx, item):
    """item: (sizes, order[, fill]): sizes of the ranges, order of their addresses, bytes (symbolic without fill)."""
    sizes, order = item[:2]
    fill = FILLS[item[2]] if len(item) > 2 else None
    r = ObResult("O-IHEX")
    ip = ctx.interp()
    k = len(sizes)
    ip.peel = max((k * (k + 1) // 2 + 2 * k,) + tuple(sizes)) + 40
    ip.peel_width = 4000
    f = ctx.fn("ihex_writer::ihex_representation_of_data_ranges")
    where = ctx.where(f)
    u8 = byte_ty(ip)
    st = State()
    rs = []
    for i, n in enumerate(sizes):
        s = L(atom(('in', 'start%d' % i), 0, 4095)) if k <= 3 else K(3 + order.index(i) * (700 if k <= 5 else 300 if k <= 13 else 3800 // k))
        st.assume(p_le(s + n, K(4095)))
        rs.append((s, SeqV([('e', K(fill(j, n)) if fill else L(atom(('in', 'b%d.%d' % (i, j)), 0, 255))) for j in range(n)])))
    for a, b in zip(order, order[1:]):
        st.assume(p_le(rs[a][0] + sizes[a], rs[b][0]))
    text = "regions of %s %sbytes" % (", ".join(str(n) for n in sizes) or "no", item[2] + " " if fill else "")
    ranges = SeqV([('e', range_val(ip, ctx, s, d)) for s, d in rs])
    paths = 0
    for o in ip.call(st, f.id, [arg_for(ip, f, 0, ranges)]):
        if o.kind in ("stuck", "cut"):
            r.open("%s: %s" % (text, o.info), where)
            continue
        try:
            for s, _ in fork(ip, o.st, lambda s: s.need(p_eq(ZERO, ZERO))):
                paths += 1
                judge_ihex(r, ip, o, s, rs, text, where)
        except (Unsupported, TooComplex) as e:
            r.open("%s: specification: %s" % (text, e), where)
    if ip.cuts:
        r.open("%s: %d paths cut off" % (text, ip.cuts), where)
    return r.findings, r.undecided, paths, set(ip.visited_fns)


def judge_ihex(r, ip, o, st, rs, text, where):
    if o.kind == "panic":
        report(r, ip, o, None, "panic", "writing %s panics (%s)" % (text, o.info[0]), span_str(o.info[1]), st)
        return
    if o.kind != "ret" or not isinstance(o.val, StrV):
        r.open("%s: result not determined" % text, where)
        return

    def bad(cls, what, differ=None, extra=()):
        report(r, ip, o, None, cls, "%s: %s" % (text, what), where, st, differ, extra)
    lines = lines_of(o.val.t)
    if lines[-1]:
        bad("newline", "the text does not end with a newline")
        return
    recs = []
    for l in lines[:-1]:
        x = None
        if len(l) == 1 and l[0][0] == 'rec':
            v = l[0][1]
            name = ip.types[v.ty]["variants"][v.var]["n"]
            if name == "EndOfFile":
                x = ('eof',)
            elif name == "Data":
                off = [y for y in v.fs if isinstance(y, Lin)][0]
                x = ('data', off, [y for y in v.fs if isinstance(y, SeqV)][0])
            else:
                bad("record", "a %s record is written" % name)
                return
        elif all(p[0] == 'lit' for p in l):
            x = parse_lit("".join(p[1] for p in l))
            if x is None:
                bad("record", "the line `%s` is not a valid record" % "".join(p[1] for p in l))
                return
        if x is None:
            r.open("%s: a line of the text is not understood" % text, where)
            return
        recs.append(x)
    eofs = [i for i, x in enumerate(recs) if x[0] == 'eof']
    if eofs != [len(recs) - 1]:
        bad("eof", "the text does not end with exactly one end-of-file record")
        return
    data = [(st.norm(x[1]), norm_val(st, x[2])) for x in recs if x[0] == 'data']

    def go(s):
        for off, d in data:
            if not s.need(p_le(seq_len(d), K(16))):
                return "long", None, None
        return "ok", image(s, rs), image(s, data)
    for s, (v, want, got) in fork(ip, st, go):
        if v == "long":
            report(r, ip, o, None, "length", "%s: a record carries more than 16 bytes" % text, where, s)
            continue
        w, g = as_val(want), as_val(got)
        if same(s, w, g):
            continue
        if len(want) <= 4 and len(want) == len(got):
            if any(same(s, as_val([want[i] for i in p]), g) for p in itertools.permutations(range(len(want)))):
                continue
        report(r, ip, o, None, "bytes", "%s: the records carry %s instead of %s" % (text, sim.short(norm_val(s, g)), sim.short(norm_val(s, w))),
               where, s, lambda v: flat(v.conc(g)) != flat(v.conc(w)) and defin(v.conc(g)), (g, w))


def flat(c):
    """{address: byte} of a concrete image."""
    out = []
    xs = c[2:]
    for i in range(0, len(xs), 2):
        for j, b in enumerate(xs[i + 1][1:]):
            out.append((xs[i] + j, b))
    return sorted(out, key=repr)


def ihex_items(tier):
    out = [((), ())]
    ns = list(range(1, 300)) + [511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4000, 4094, 4095]
    out += [((n,), (0,)) for n in ns]
    for a in (1, 2, 15, 16, 17, 32, 33):
        for b in (1, 16, 17, 31, 48):
            for o in ((0, 1), (1, 0)):
                out.append(((a, b), o))
    for o in itertools.permutations(range(3)):
        out.append(((1, 17, 3), o))
        out.append(((16, 16, 16), o))
        out.append(((5, 20, 40), o))
    for f in sorted(FILLS):
        out += [((n,), (0,), f) for n in (1, 16, 17, 33, 48, 64, 100, 128, 256, 257, 512, 1000, 2048, 4095)]
        out += [(n, o, f) for n in ((16, 16), (32, 5), (5, 64), (48, 48)) for o in ((0, 1), (1, 0))]
        out.append(((16,) * 40, tuple(range(40)), f))
    out.append(((3,) * 12, tuple(range(12))))
    out.append(((17, 2) * 4, tuple(reversed(range(8)))))
    return out


@timed
def o_ihex(ctx):
    """ihex_representation_of_data_ranges on lists of disjoint ranges with symbolic addresses and bytes: the
    records carry exactly those bytes at those addresses, at most 16 each, then one end-of-file record."""
    r = ObResult("O-IHEX")
    return run_cases(ctx, r, case_ihex, ihex_items(ctx.tier), 100 if ctx.tier == "quick" else 600, "range_lists", limit=60)


def depth_case(ctx, which, k):
    """A list of k ranges, for the call depth it needs."""
    if which == "ovl":
        return case_ovl(ctx, tuple((i * 16, 8) for i in range(k)))
    return case_ihex(ctx, ((3,) * k, tuple(range(k))))
