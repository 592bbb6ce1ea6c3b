"""The program's outer shell: command line, file effects, exit status and their order."""
from core import *
import sim
from o_asm import arg_for
from o_instr import report, defin

QUIET = ("args", "optparse", "result", "print", "eprint", "exit", "fmtwrite", "phase")


def phase_stub(ip, ctx, name, fn, mk):
    def stub(ip, st, f, args, site):
        vals = []
        for a in args:
            try:
                vals.append(norm_val(st, models.deref(ip, st, a)))
            except Unsupported:
                vals.append(None)
        return mk(ip, st, f, vals, site)
    ip.stubs[fn.id] = stub


def setup(ctx, ip):
    """Stubs: parsing, assembling, the overlap check and the writer are what the other obligations decide."""
    parse = ctx.fn("parser::parse")
    asm = ctx.fn("assembler::assemble")
    ovl = ctx.fn("data_range::find_overlapping_ranges")
    hexw = ctx.fn("ihex_writer::ihex_representation_of_data_ranges")

    def result(name):
        def mk(ip, st, f, vals, site):
            t = ip.types[f.locals[0]]
            bad = st.need(p_atom(('fails', name)))
            st.log = st.log + (('phase', name, vals, 'err' if bad else 'ok'),)
            if bad:
                return [Out("ret", st, Agg(f.locals[0], 1, (ip.sym(('error', name), t["args"][1]),)))]
            return [Out("ret", st, Agg(f.locals[0], 0, (ip.sym(('out', name), t["args"][0]),)))]
        return mk

    def mk_ovl(ip, st, f, vals, site):
        t = ip.types[f.locals[0]]
        v = sym_seq(('out', 'overlaps'), t["args"][0])
        for n in (0, 1, 2, 3, 40, None):
            if n is None or st.need(p_eq(seq_len(v), K(n))):
                break
        if n is not None:
            v = SeqV([('e', ip.seq_get(st, v, K(j))) for j in range(n)])
        st.log = st.log + (('phase', 'overlap', vals + [v], 'ok' if n == 0 else 'err'),)
        return [Out("ret", st, v)]

    def mk_hex(ip, st, f, vals, site):
        st.log = st.log + (('phase', 'hex', vals, 'ok'),)
        return [Out("ret", st, StrV(('sym', ('out', 'hex'))))]
    phase_stub(ip, ctx, "parse", parse, result("parse"))
    phase_stub(ip, ctx, "assemble", asm, result("assemble"))
    phase_stub(ip, ctx, "overlap", ovl, mk_ovl)
    phase_stub(ip, ctx, "hex", hexw, mk_hex)
    # parse is generic: every instance
    for g in ctx.prog.fns.values():
        if g.has_body() and g.crate == "c8s" and strip_generics(g.name).endswith("parser::parse") and g.id not in ip.stubs:
            ip.stubs[g.id] = ip.stubs[parse.id]


def strings_in(v, acc, d=0):
    if d > 6:
        return
    if isinstance(v, StrV):
        acc.append(v.t)
    elif isinstance(v, Agg):
        for x in v.fs:
            strings_in(x, acc, d + 1)
    elif isinstance(v, (IterV, ObjV)):
        for x in v.p:
            strings_in(x, acc, d + 1)
    elif isinstance(v, BoxV):
        strings_in(v.v, acc, d + 1)
    elif isinstance(v, list):
        for x in v:
            strings_in(x, acc, d + 1)
    elif isinstance(v, Ptr) and isinstance(v.cell, tuple) and v.cell[0] == 'val':
        strings_in(v.cell[1], acc, d + 1)


class Trace(object):
    """What a path did, from its effect log."""

    def __init__(self, st, out):
        self.st, self.out = st, out
        self.result = {}
        for e in st.log:
            if e[0] == 'result':
                self.result[e[1]] = e[2]
        self.phases = {}
        self.opened, self.created, self.writes, self.reads, self.other, self.prints = [], [], [], [], [], []
        self.flushed = []
        self.order = []
        for i, e in enumerate(st.log):
            k = e[0]
            if k == 'phase':
                self.phases.setdefault(e[1], []).append((i, e[2], e[3]))
            elif k == 'open':
                self.opened.append((i, e[2], self.result.get(e[1])))
            elif k == 'create':
                self.created.append((i, e[2], self.result.get(e[1])))
            elif k == 'read':
                self.reads.append((i, e[2], self.result.get(e[1])))
            elif k in ('write', 'write_some'):
                self.writes.append((i, k, e[2], e[3], self.result.get(e[1])))
            elif k == 'flush':
                self.flushed.append((i, e[2], self.result.get(e[1])))
            elif k == 'print':
                self.prints.append((i, e[2]))
            elif k in QUIET:
                pass
            else:
                self.other.append((i, k, e[2:]))

    def status(self):
        o = self.out
        if o.kind == 'ret':
            v = o.val
            if isinstance(v, Agg) and v.var is None and not v.fs:
                return 0
            if isinstance(v, Agg) and v.var in (0, 1) and self.ret_result:
                return v.var
            if isinstance(v, ObjV) and v.kind == "exitcode" and isinstance(v.p[0], Lin) and v.p[0].is_const():
                return v.p[0].c
            return None
        if o.kind == 'panic':
            return 101
        if o.kind == 'exit' and isinstance(o.val, Lin):
            return self.low_byte(self.st.norm(o.val))
        return None

    def low_byte(self, v):
        """The status the system reports: 0, or one that stands for every other value."""
        if v.is_const():
            return v.c % 256
        for c in (0, 256, -256, 512, 65536):
            if self.st.need(p_eq(v, K(c))):
                return 0
        lo, hi = self.st.bounds(v)
        return 1 if -256 < lo and hi < 256 else 255


def opt_flag(st, n):
    return st.need(p_atom(('opt', n)))


def strterm(v):
    if isinstance(v, StrV):
        return v.t
    if isinstance(v, SeqV) and len(v.segs) == 1 and v.segs[0][0] == 'b':
        return v.segs[0][1]
    return None


def said(t):
    """Everything a path prints, to either stream, as text terms; None where it is not determined."""
    out = []
    for e in t.st.log:
        if e[0] in ('print', 'eprint'):
            out.append(e[2].t if isinstance(e[2], StrV) else strterm(e[2]))
        elif e[0] in ('write', 'write_some') and _kind(e[2]) in ("stdout", "stderr"):
            out.append(strterm(e[3]))
    return out


def pieces(t):
    if t[0] == 'cat':
        for x in t[1]:
            for y in pieces(x):
                yield y
    else:
        yield t


def unpadded(p):
    return p[0] == 'fmt' and p[1] == 'display' and p[4] is None and p[5] is None


def mute(st, text):
    """The text is certainly nothing but blanks."""
    return all(p[0] == 'lit' and not p[1].strip() for x in text for p in pieces(x))


def explains(ip, t, probs):
    """Problems with what a failing path tells the user."""
    st = t.st
    if t.out.kind == 'panic':
        return
    text = said(t)
    if any(x is None for x in text):
        probs.append(("open", "the printed text is not determined", None))
        return
    text = [norm_term(st, x) for x in text]
    if mute(st, text):
        probs.append(("silent", "the program ends with a failure status and prints nothing", None))
        return
    flat = [p for x in text for p in pieces(x)]
    vals = [p[6] for p in flat if unpadded(p)]

    def shows(v):
        return any(same(st, x, v) for x in vals if type(x) is type(v))
    for name, what in (("parse", "the parser's error"), ("assemble", "the assembler's error")):
        for i, v, res in t.phases.get(name, []):
            if res != 'err':
                continue
            if not any(contains(x, ('error', name)) for x in text):
                probs.append(("message", "%s is not printed" % what, None))
            elif not any(contains(v, ('error', name)) for v in vals) and ('sym', ('error', name)) not in flat:
                probs.append(("open", "%s may not be printed in full" % what, None))
    for e in st.log:
        if e[0] == 'optparse' and st.need(p_atom(('opterr',))) and not any(contains(x, 'failtext') or _obj(x, "optfail") for x in text):
            probs.append(("message", "the reason why the command line is wrong is not printed", None))
            break
    names = []
    for kind, l in (("opened", t.opened), ("created", t.created)):
        names += [(p, kind) for _, p, res in l if res == 'err']
    names += [(_path(h), "read") for _, h, res in t.reads if res == 'err']
    names += [(_path(w[2]), "written") for w in t.writes if w[4] == 'err' and _kind(w[2]) != "stderr"]
    for p, kind in names:
        x = strterm(p) if p is not None else None
        if x is not None:
            x = norm_term(st, x)
        if x is not None and not any(contains(y, x) for y in text) and not (x[0] == 'lit' and any(p[0] == 'lit' and x[1] in p[1] for p in flat)):
            whole = StrV(s_cat(*text))
            probs.append(("message", "the file that cannot be %s is not named" % kind, (whole, StrV(x), lambda v, a=whole, b=StrV(x): defin(v.conc(a)) and v.conc(b) not in v.conc(a))))
        elif not any(_obj(y, "ioerror") for y in text):
            probs.append(("message", "the reason why the file cannot be %s is not printed" % kind, None))
    if t.phases.get("overlap") and t.phases["overlap"][0][2] == 'err' and all(y[2] == 'ok' for n in ("parse", "assemble") for y in t.phases.get(n, [])):
        v = t.phases["overlap"][0][1][-1]
        if isinstance(v, SeqV) and all(s[0] == 'e' for s in v.segs):
            for k, (_, pair) in enumerate(v.segs):
                for j, side in enumerate(pair.fs if isinstance(pair, Agg) else (('f', pair.t, 0), ('f', pair.t, 1))):
                    key = _target(side)
                    if key is None:
                        probs.append(("open", "the regions of an overlap are not recognised", None))
                    elif not any(contains(x, key) for x in text):
                        probs.append(("message", "of %d overlapping pairs, a region of pair %d is not printed" % (len(v.segs), k + 1), None))
                    elif not any(contains(x, key) for x in vals):
                        probs.append(("open", "a region of an overlap is printed in part", None))


def _path(h):
    while isinstance(h, BoxV) or isinstance(h, ObjV) and h.kind == "buffered":
        h = h.p[0] if isinstance(h, ObjV) else h.v
    return h.p[2] if isinstance(h, ObjV) and h.kind == "file" and len(h.p) > 2 else None


def _target(side):
    """What identifies the region behind one side of an overlapping pair."""
    if isinstance(side, tuple):
        return side
    if isinstance(side, Ptr) and isinstance(side.cell, tuple):
        if side.cell[0] == 'val' and isinstance(side.cell[1], SymV):
            return side.cell[1].t
        if side.cell[0] == '*' and not side.path:
            return side.cell[1]
    if isinstance(side, SymV):
        return side.t
    return None


def _obj(x, kind):
    """Some value of the kind occurs in x."""
    if isinstance(x, ObjV):
        return x.kind == kind or any(_obj(y, kind) for y in x.p)
    if isinstance(x, (tuple, list)):
        return any(_obj(y, kind) for y in x)
    if isinstance(x, StrV):
        return _obj(x.t, kind)
    if isinstance(x, BoxV):
        return _obj(x.v, kind)
    if isinstance(x, Agg):
        return _obj(x.fs, kind)
    return False


def judge(ctx, r, ip, o, where):
    """Compares one path through main with the specified order of effects."""
    def go(st):
        probs = []
        t = Trace(st, o)
        t.ret_result = ctx.main_result
        stat = t.status()
        if stat is None:
            return [("open", "exit status not determined", None)]
        ok_exit = stat % 256 == 0
        if not ok_exit:
            explains(ip, t, probs)
        touched = t.opened or t.created or t.other or t.writes
        if o.kind == 'panic':
            probs.append(("panic", "main panics (%s)" % (o.info[0] if o.info else "",), None))
        parsed = [e for e in st.log if e[0] == 'optparse']
        if not parsed and o.kind == 'panic':
            return probs
        if not parsed:
            return [("open", "the command line is not parsed with getopts", None)]
        argv = sym_seq(('in', 'argv'), None)
        defs = parsed[0][2]
        if st.need(p_atom(('opterr',))):
            if ok_exit:
                probs.append(("status", "a wrong command line ends with status 0", None))
            if touched:
                probs.append(("usage-file", "a wrong command line still touches files", None))
            return probs
        for s, l, k in defs:
            if s in ("h", "v") and st.need(p_atom(('opt', s))):
                if touched:
                    probs.append(("usage-file", "-%s touches files" % s, None))
                if not ok_exit:
                    probs.append(("status-info", "-%s ends with a failure status" % s, None))
                text = said(t)
                if any(x is None for x in text):
                    probs.append(("open", "the printed text is not determined", None))
                elif mute(st, text):
                    probs.append(("silent", "-%s prints nothing" % s, None))
                elif s == "h" and not any(contains(x, 'usage') for x in text):
                    probs.append(("message", "-h does not print the usage", None))
                return probs
        n = L(atom(('len', ctx.free_term), 0, ISIZE))
        if not st.need(p_eq(n, ONE)):
            if ok_exit:
                probs.append(("status", "an invocation without exactly one input file ends with status 0", None))
            if touched:
                probs.append(("usage-file", "an invocation without exactly one input file touches files", None))
            return probs
        inp = norm_term(st, strterm(ip.seq_get(st, sym_seq(ctx.free_term, ctx.string_ty), ZERO)))
        if st.need(p_atom(('opt', 'o'))):
            outp = ('sym', ('optval', 'o'))
        else:
            outp = ('lit', 'a.hex')
        to_stdout = st.need(models.str_eq(outp, ('lit', '-')))

        def is_path(p, want):
            x = strterm(p)
            return x is not None and same(st, StrV(x), StrV(want))
        for i, k, what in t.other:
            if k in ("fs:metadata", "fs:symlink_metadata", "fs:exists", "fs:canonicalize", "fs:is_file", "fs:is_dir", "fs:try_exists"):
                continue
            probs.append(("file", "a file operation other than reading the input and creating the output: %s" % k, None))
        for i, p, res in t.opened:
            if strterm(p) is None:
                probs.append(("open", "path of an opened file not determined", None))
            elif not is_path(p, inp):
                probs.append(("file", "a file other than the input is opened", (StrV(strterm(p)), StrV(inp))))
        for i, p, res in t.created:
            if strterm(p) is None:
                probs.append(("open", "path of a created file not determined", None))
            elif to_stdout:
                probs.append(("file", "a file is created although standard output is selected", None))
            elif not is_path(p, outp):
                probs.append(("file", "a file other than the selected output is created", (StrV(strterm(p)), StrV(outp))))
        # failures before the output stage
        ph = t.phases
        fails = [x for x in ("parse", "assemble", "overlap") if any(y[2] == 'err' for y in ph.get(x, []))]
        infail = [1 for _, p, res in t.opened if res == 'err'] or [1 for _, f, res in t.reads if res == 'err']
        outputs = [x[0] for x in t.created] + [x[0] for x in t.writes]
        need = ("parse", "assemble", "overlap")
        done = None
        if all(x in ph and ph[x][0][2] == 'ok' for x in need):
            done = max(ph[x][0][0] for x in need)
        hexprints = [i for i, x in t.prints if has_hex(x)]
        if infail or fails:
            what = "reading the input fails" if infail else {"parse": "the source does not parse", "assemble": "assembling fails",
                                                             "overlap": "regions overlap"}[fails[0]]
            cls = "overlap-ignored" if fails and fails[0] == "overlap" and not infail else "status"
            if ok_exit:
                probs.append((cls, "the exit status is 0 although %s" % what, None))
            if outputs or hexprints:
                probs.append((cls if cls == "overlap-ignored" else "early", "output is created or written although %s" % what, None))
            return probs
        if done is None:
            if outputs or hexprints:
                miss = [x for x in need if x not in ph]
                probs.append(("overlap-ignored" if miss == ["overlap"] else "early", "output is created or written without %s having succeeded" % ", ".join(miss), None))
            if ok_exit:
                probs.append(("lost", "status 0 although the input was not assembled", None))
            elif o.kind != 'panic' and not ph and not t.opened and not t.reads and not t.other:
                probs.append(("failed", "an invocation with exactly one input file is refused", None))
            return probs
        if [i for i in outputs + hexprints if i < done]:
            probs.append(("early", "output is created or written before every check has succeeded", None))
        # the phases work on each other's results
        src = [s for _, v, _ in ph["parse"] for s in _strings(v)]
        if t.reads:
            whole = ('sym', ('content', _io(st, t.reads[-1][0])))
            if not any(x == whole or same(st, StrV(x), StrV(whole)) for x in src):
                part = [x for x in src if contains(x, ('content', whole[1][1]))]
                if part:
                    a, b = StrV(part[0]), StrV(whole)
                    probs.append(("source", "the text given to the scanner is not the input file's content", (a, b, lambda v: not _covers(v.conc(a), v.conc(b)))))
                else:
                    probs.append(("open", "the text given to the parser is not recognised as the file's content", None))
        if not any(same(st, StrV(x), StrV(inp)) for x in src):
            other = [x for x in src if not contains(x, 'content')]
            if len(other) == 1:
                probs.append(("source-name", "the scanner is given a file name other than the input path", (StrV(other[0]), StrV(inp))))
            else:
                probs.append(("open", "the scanner's file name is not recognised", None))
        for x, y, what in (("assemble", "parse", "assembling is not applied to the parsed program"),
                           ("overlap", "assemble", "the overlap check is not applied to the assembled ranges"),
                           ("hex", "assemble", "the writer is not applied to the assembled ranges")):
            if x in ph and not any(_is(st, v, ('out', y)) for v in ph[x][0][1]):
                probs.append(("open", what, None))
        outfail = [1 for _, p, res in t.created if res == 'err'] or [1 for w in t.writes if w[4] == 'err'] or \
            [1 for f in t.flushed if f[2] == 'err']
        if outfail:
            if ok_exit:
                probs.append(("status", "the exit status is 0 although creating or writing the output fails", None))
            return probs
        if not ok_exit and "err" in t.result.values():
            return [("open", "an unrecognised operation fails", None)]
        if not ok_exit:
            probs.append(("failed", "everything succeeds and the exit status is not 0", None))
            return probs
        # success: the whole text, once, to the selected output
        text = ('sym', ('out', 'hex'))
        got = []
        for i, k, w, d, res in t.writes:
            h, buffered = w, False
            while isinstance(h, BoxV) or isinstance(h, ObjV) and h.kind == "buffered":
                if isinstance(h, ObjV):
                    buffered = True
                    h = h.p[0]
                else:
                    h = h.v
            if not isinstance(h, ObjV):
                probs.append(("open", "the written handle is not determined", None))
                continue
            if h.kind == "stderr":
                continue
            if to_stdout != (h.kind == "stdout"):
                if h.kind == "stdout" or h.kind == "file":
                    probs.append(("lost", "text is written to %s although the output is %s" % (h.kind, "standard output" if to_stdout else "a file"), None))
                continue
            if h.kind == "file" and h.p[0] not in ("create", "create_new") and not h.p[0].startswith("open:"):
                probs.append(("lost", "the output handle is not writable", None))
            if h.kind == "file" and h.p[0].startswith("open:"):
                probs.append(("lost", "an existing output file keeps old content (opened with %s)" % h.p[0][5:], None))
            if buffered and not any(f[0] > i and f[2] == 'ok' for f in t.flushed):
                probs.append(("lost", "the text stays in a buffer whose write errors are ignored", None))
            if k == 'write_some':
                probs.append(("lost", "a write that may be partial is taken for complete", None))
            x = strterm(d)
            if x is None:
                probs.append(("open", "the written text is not determined", None))
                continue
            got.append(x)
        if to_stdout:
            # text printed with print! counts in order; anything else on stdout spoils it
            ev = [(i, ('w', strterm(d))) for i, k, w, d, res in t.writes if _kind(w) == "stdout"] + [(i, ('p', strterm(x) if not isinstance(x, StrV) else x.t)) for i, x in t.prints]
            got = [x[1][1] for x in sorted(ev, key=lambda z: z[0])]
            if any(x is None for x in got):
                probs.append(("open", "the printed text is not determined", None))
                return probs
        full = s_cat(*got)
        if [p for p in probs if p[0] == "open"]:
            return probs
        if not same(st, StrV(full), StrV(text)):
            probs.append(("lost", "status 0 but what is written to the selected output is %s, not the complete hex text" % sim.short(full), (StrV(full), StrV(text))))
        elif not to_stdout and not t.created:
            probs.append(("lost", "status 0 but the output file is not created", None))
        return probs
    try:
        for s, probs in fork(ip, o.st, go):
            if not probs:
                r.good()
                r.sample("%s status=%s log=%s" % (o.kind, o.val if o.kind == 'exit' else '', [e[0] for e in s.log if e[0] not in ('fmtwrite', 'result')]))
            for cls, what, pair in probs:
                if cls == "open":
                    r.open(what, where)
                    continue
                w = where
                if o.info is not None and len(o.info) > 1 and o.info[1]:
                    w = span_str(o.info[1])
                differ = None
                extra = ()
                if pair is not None:
                    a, b = pair[:2]
                    differ = pair[2] if len(pair) > 2 else (lambda v, a=a, b=b: v.conc(a) != v.conc(b))
                    extra = (a, b)
                report(r, ip, o, None, cls, what, w, s, differ, extra)
    except (Unsupported, TooComplex) as e:
        r.open("specification: %s" % e, where)


def _io(st, i):
    return st.log[i][1]


def _text(x):
    return bytes(x).decode("utf-8", "replace") if isinstance(x, (bytes, bytearray)) else x


def _covers(got, content):
    """The scanned text is the content up to trailing blanks."""
    got, content = _text(got), _text(content)
    return content.startswith(got) and not content[len(got):].strip()


def _is(st, v, t):
    if isinstance(v, SeqV):
        return len(v.segs) == 1 and v.segs[0][0] == 's' and v.segs[0][1] == t and same(st, v.segs[0][2], ZERO) and \
            same(st, v.segs[0][3], L(atom(('len', t), 0, ISIZE)))
    if isinstance(v, SymV):
        return v.t == t
    return contains(v, t) and not isinstance(v, (SeqV,))


def _kind(h):
    while isinstance(h, BoxV) or isinstance(h, ObjV) and h.kind == "buffered":
        h = h.p[0] if isinstance(h, ObjV) else h.v
    return h.kind if isinstance(h, ObjV) else None


def has_hex(x):
    return contains(x, ('out', 'hex'))


def contains(x, t):
    if x == t:
        return True
    if isinstance(x, tuple):
        return any(contains(y, t) for y in x)
    if isinstance(x, (StrV, SymV)):
        return contains(x.t, t)
    if isinstance(x, (Agg,)):
        return contains(x.fs, t)
    if isinstance(x, SeqV):
        return contains(x.segs, t)
    if isinstance(x, list):
        return any(contains(y, t) for y in x)
    if isinstance(x, Ptr):
        return contains(x.cell, t)
    if isinstance(x, (IterV, ObjV)):
        return contains(x.p, t)
    if isinstance(x, BoxV):
        return contains(x.v, t)
    return False


def _has(vals, t):
    return any(contains(v, t) for v in vals)


def _strings(vals):
    acc = []
    strings_in(vals, acc)
    return acc


@timed
def o_main(ctx):
    """Every path of main() with symbolic arguments and file outcomes: which files it touches, in which order
    relative to parsing, assembling and the overlap check, and with which exit status."""
    r = ObResult("O-MAIN")
    ip = ctx.interp()
    f = [g for g in ctx.prog.local_fns() if g.has_body() and g.name in ("c8s::main", "main")]
    if not f:
        raise Missing("main")
    f = f[0]
    where = ctx.where(f)
    ctx.main_result = "result::Result" in (ip.types[f.locals[0]].get("name") or "")
    setup(ctx, ip)
    for i, t in enumerate(ip.types):
        if t["k"] == "struct" and t["name"].endswith("string::String"):
            ctx.string_ty = i
        if t["k"] == "struct" and t["name"].endswith("getopts::Matches"):
            k = [j for j, x in enumerate(t["variants"][0]["f"]) if x[0] == "free"][0]
            ctx.free_term = ('f', ('matches',), k)
    outs = ip.call(State(), f.id, [])
    r.fns |= ip.visited_fns
    for o in outs:
        if o.kind in ("stuck", "cut"):
            r.open("%s" % (o.info,), where)
            continue
        judge(ctx, r, ip, o, where)
    r.count(paths=len(outs), call_sites=ip.callsites)
    if r.undecided:
        # exact counterexamples: loops kept apart for a few iterations, the rest cut
        for n in (4, 258):
            ip = ctx.interp()
            setup(ctx, ip)
            ip.peel = n
            q = ObResult("O-MAIN")
            try:
                for o in ip.call(State(), f.id, []):
                    if o.kind not in ("stuck", "cut"):
                        judge(ctx, q, ip, o, where)
            except (Unsupported, TooComplex) as e:
                r.open("unrolled: %s" % e, where)
            r.findings += q.findings
            if q.findings:
                break
    return r
