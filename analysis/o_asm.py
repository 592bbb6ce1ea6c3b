"""Directives, the two assembly passes, data ranges and the Intel HEX writer."""
from core import *
import sim
from sim import Spec
from o_instr import report, defin, ident_lang


def u12_ty(ip):
    return [i for i, t in enumerate(ip.types) if ip.is_u12(t)][0]


def arg_for(ip, fn, i, v):
    """Argument i of fn: v by value or by reference as the signature wants."""
    t = ip.types[fn.locals[i + 1]]
    if t["k"] in ("ref", "ptr"):
        e = ip.types[t["elem"]]
        if e["k"] in ("slice", "str"):
            return v
        return Ptr(('val', v))
    return v


def is_err(v):
    return isinstance(v, Agg) and v.var == 1


def is_ok(v):
    return isinstance(v, Agg) and v.var == 0


# ----------------------------------------------------------------------------------- directives
def lit_spec(ip, st, args, i, lv):
    v = ip.seq_get(st, args, i)
    var = ip.variant_index(st, v)
    return (var == lv["Numeric"]), ip.payload(v, var, 0)


class DirSpec(Spec):
    vars = (("i", "lin"), ("B", "seq"))

    def __init__(self, ip, ctx, name, args):
        self.ip, self.name, self.args = ip, name, args
        self.lt = ctx.ty("parser::Literal")
        self.lv = ctx.variants(self.lt)
        self.dt = ctx.ty("directive::Directive")
        self.dv = ctx.variants(self.dt)
        self.limit = 10

    def start(self, st):
        n = seq_len(self.args)
        for kw in ("org", "equ"):
            if st.need(('in', self.name.t, rx.ci(kw))):
                if not st.need(p_eq(n, K(1))):
                    return ('done', ("err", "arguments"))
                num, v = lit_spec(self.ip, st, self.args, ZERO, self.lv)
                if not num:
                    return ('done', ("err", "kind"))
                if not st.need(p_le(v, K(4095))):
                    return ('done', ("err", "range"))
                return ('done', ("ok", "Org" if kw == "org" else "Equ", v, ZERO, SeqV()))
        if st.need(('in', self.name.t, rx.ci("db"))):
            return ('next', {"i": ZERO, "B": SeqV()})
        return ('done', ("err", "name"))

    def step(self, st, sg):
        n = seq_len(self.args)
        i = sg["i"]
        if not st.need(p_lt(i, n)):
            if st.need(p_eq(n, ZERO)):
                return ('done', ("err", "arguments"))
            return ('done', ("ok", "Db", sg["B"], seq_len(sg["B"]), sg["B"]))
        num, v = lit_spec(self.ip, st, self.args, i, self.lv)
        if num:
            if not st.need(p_le(v, K(255))):
                return ('done', ("err", "byte"))
            return ('next', {"i": i + 1, "B": SeqV(sg["B"].segs + (('e', v),))})
        return ('next', {"i": i + 1, "B": SeqV(sg["B"].segs + (('b', v.t),))})

    def pre(self, st, sg):
        return st.assume(p_le(sg["i"], seq_len(self.args)))

    def judge(self, st, o, res):
        what = "directive `%s`" % self.kw(st)
        if o.kind == "panic":
            if res[0] == "err" or True:
                return ("panic", "%s panics (%s)" % (what, o.info[0]), None, None)
        if o.kind != "ret":
            return ("exit", "%s ends the process" % what, None, None)
        if res[0] == "err":
            if is_err(o.val):
                return None
            cls = {"arguments": "count", "kind": "kind", "range": "range", "byte": "byte", "name": "name"}[res[1]]
            return (cls, {"arguments": "%s with a wrong number of arguments is accepted",
                          "kind": "%s with a non-numeric argument is accepted",
                          "range": "%s with a value above 4095 is accepted",
                          "byte": "%s with a number above 255 is accepted",
                          "name": "an unknown directive is accepted"}[res[1]].replace("%s", what), None, None)
        if is_err(o.val):
            return ("rejected", "valid %s is rejected" % what, None, None)
        if not is_ok(o.val):
            return ("result", "result of %s is not determined" % what, o.val, None)
        d, size, vec = o.val.fs[0], o.val.fs[1], o.val.fs[2]
        _, kind, val, wsize, wvec = res
        if not isinstance(d, Agg) or d.var != self.dv[kind]:
            return ("kind-of", "%s is taken for a different directive" % what, None, None)
        got = d.fs[0].fs[0] if isinstance(d.fs[0], Agg) and kind != "Db" else d.fs[0]
        if not same(st, got, val):
            return ("value", "%s denotes %s instead of %s" % (what, sim.short(got), sim.short(val)), got, val)
        if not same(st, size, wsize):
            return ("size", "size of %s is %s instead of %s" % (what, sim.short(size), sim.short(wsize)), size, wsize)
        if not same(st, vec, wvec):
            return ("bytes", "%s emits %s instead of %s" % (what, sim.short(vec), sim.short(wvec)), vec, wvec)
        return None

    def kw(self, st):
        for k in ("org", "equ", "db"):
            if st.decide(('in', self.name.t, rx.ci(k))) is True:
                return "." + k
        return ".?"


def dir_lang(b):
    if b == ('sym', ('in', 'name')):
        return IDENT
    return rx.ALL


def dir_make(ctx):
    f = ctx.fn("Directive::from_identifier_and_parameters")
    size = ctx.fn("Directive::size")
    vec = ctx.fn("Directive::into_vec")

    def make(ip):
        name = StrV(('sym', ('in', 'name')))
        spec = DirSpec(ip, ctx, name, None)
        args = sym_seq(('in', 'args'), spec.lt)
        spec.args = args
        outs = []
        for o in ip.call(State(), f.id, [name, arg_for(ip, f, 1, args)]):
            if o.kind != "ret" or not is_ok(o.val):
                outs.append(o)
                continue
            d = o.val.fs[0]
            for o2 in ip.call(o.st, size.id, [Ptr(('val', d))]):
                if o2.kind != "ret":
                    outs.append(o2)
                    continue
                for o3 in ip.call(o2.st, vec.id, [d]):
                    if o3.kind == "ret":
                        o3 = Out("ret", o3.st, Agg(None, 0, [d, o2.val, o3.val]))
                    outs.append(o3)
        return spec, outs
    return f, make


@timed
def o_dir(ctx):
    """Directive::from_identifier_and_parameters, size and into_vec against the README's directive table,
    for every name, argument list and argument value (simulation of the argument loop)."""
    r = ObResult("O-DIR")
    f, make = dir_make(ctx)
    with Langs(dir_lang):
        sim.compare(ctx, r, make, ctx.where(f))
    return r


# --------------------------------------------------------------------------------- first pass
def find_loc(ip, v, lt, depth=0):
    """The source location carried by an error value."""
    if depth > 6:
        return None
    if isinstance(v, (Agg, SymV)) and v.ty == lt:
        return v
    if isinstance(v, Agg):
        for x in v.fs:
            r = find_loc(ip, x, lt, depth + 1)
            if r is not None:
                return r
    if isinstance(v, BoxV):
        return find_loc(ip, v.v, lt, depth + 1)
    return None


def full(ip, v):
    """Struct symbols expanded to their fields."""
    if isinstance(v, SymV) and v.ty is not None and ip.types[v.ty]["k"] == "struct":
        v = ip.expand(v)
    if isinstance(v, Agg):
        return Agg(v.ty, v.var, [full(ip, x) for x in v.fs])
    return v


class Program(object):
    """The statement list as the specification sees it."""

    def __init__(self, ctx, ip, nodes):
        self.ctx, self.ip, self.nodes = ctx, ip, nodes
        self.nt = ctx.ty("parser::Node")
        self.nv = ctx.variants(self.nt)
        self.lt = ctx.ty("source_file_location::SourceFileLocation")
        self.dt = ctx.ty("directive::Directive")
        self.dv = ctx.variants(self.dt)
        self.dirspec = None
        t = ip.types[self.nt]
        self.fields = {}
        for n, i in self.nv.items():
            st = ip.types[t["variants"][i]["f"][0][1]]
            self.fields[n] = {f[0]: k for k, f in enumerate(st["variants"][0]["f"])}

    def node(self, st, i):
        """(kind, data) of statement i."""
        v = self.ip.seq_get(st, self.nodes, i)
        var = self.ip.variant_index(st, v)
        d = self.ip.payload(v, var, 0)
        if isinstance(d, SymV):
            d = self.ip.expand(d)
        for n, k in self.nv.items():
            if k == var:
                return n, d
        raise Unsupported("node")

    def field(self, kind, d, name):
        return d.fs[self.fields[kind][name]]

    def directive(self, st, d):
        """None (invalid) or (kind, value, size)."""
        ip = self.ip
        name, args = self.field("Directive", d, "identifier"), self.field("Directive", d, "arguments")
        if ip.peel is None:
            r = dir_sym(ip, self.stub_ty, name, args)
            var = ip.variant_index(st, r)
            if var == 1:
                return None
            x = ip.payload(r, 0, 0)
            k = ip.variant_index(st, x)
            kind = [n for n, j in self.dv.items() if j == k][0]
            v = ip.payload(x, k, 0)
            if kind == "Db":
                return kind, v, seq_len(v)
            return kind, v.fs[0], ZERO
        sp = DirSpec(ip, self.ctx, name, args)
        r = sp.start(st)
        n = ip.peel + 2
        while r[0] == 'next':
            if n == 0:
                raise Infeasible()
            r = sp.step(st, r[1])
            n -= 1
        r = r[1]
        if r[0] == "err":
            return None
        return r[1], r[2], r[3]


def dir_sym(ip, rty, name, args):
    key = ('dir', name.t, tuple(args.segs))
    return ip.sym(key, rty)


def stub_directive(ctx, ip, prog):
    f = ctx.fn("Directive::from_identifier_and_parameters")
    prog.stub_ty = f.locals[0]

    def stub(ip, st, fn, args, site):
        name = StrV(models.as_str(ip, st, args[0]))
        a = norm_val(st, models.as_seq(ip, st, args[1]))
        return [Out("ret", st, dir_sym(ip, fn.locals[0], name, a))]
    ip.stubs[f.id] = stub


def map_insert(m, k, v):
    return MapV(m.base, m.ins + ((k, v),), m.vty)


class PassOne(Spec):
    vars = (("i", "lin"), ("addr", "lin"), ("M", "map"))

    def __init__(self, prog, vty):
        self.p, self.ip = prog, prog.ip
        self.vty = vty

    def start(self, st):
        return ('next', {"i": ZERO, "addr": ZERO, "M": MapV(None, (), self.vty)})

    def pre(self, st, sg):
        n = seq_len(self.p.nodes)
        return st.assume(p_le(ZERO, sg["i"])) and st.assume(p_le(sg["i"], n)) and \
            st.assume(p_le(ZERO, sg["addr"])) and st.assume(p_le(sg["addr"], K(4095)))

    def step(self, st, sg):
        p = self.p
        i, addr, m = sg["i"], sg["addr"], sg["M"]
        n = seq_len(p.nodes)
        if not st.need(p_lt(i, n)):
            return ('done', ("ok", m))
        kind, d = p.node(st, i)
        loc = p.field(kind, d, "location")
        if kind == "Directive":
            r = p.directive(st, d)
            if r is None:
                return ('done', ("err", "directive", loc))
            k, v, size = r
            if k == "Org":
                return ('next', {"i": i + 1, "addr": v, "M": m})
            if k == "Equ":
                return ('done', ("err", "equ", loc))
            if not st.need(p_le(addr + size, K(4095))):
                return ('done', ("err", "overflow", loc))
            return ('next', {"i": i + 1, "addr": addr + size, "M": m})
        if kind == "Instruction":
            if not st.need(p_le(addr + 2, K(4095))):
                return ('done', ("err", "overflow", loc))
            return ('next', {"i": i + 1, "addr": addr + 2, "M": m})
        name = p.field(kind, d, "identifier")
        val, step = addr, 1
        if st.need(p_lt(i + 1, n)):
            kind2, d2 = p.node(st, i + 1)
            if kind2 == "Directive":
                r = p.directive(st, d2)
                if r is not None and r[0] == "Equ":
                    val, step = r[1], 2
        has, _ = models.map_lookup(self.ip, st, m, name)
        if has:
            return ('done', ("err", "duplicate", loc))
        return ('next', {"i": i + step, "addr": addr, "M": map_insert(m, name, self.u12(val))})

    def u12(self, x):
        return Agg(self.vty, None, (x,))

    def judge(self, st, o, res):
        if o.kind == "panic":
            return ("panic", "the first pass panics (%s)" % (o.info[0],), None, None)
        if o.kind != "ret":
            return ("exit", "the first pass ends the process", None, None)
        return self.judge_err(st, o, res) or self.judge_ok(st, o, res)

    WHAT = {"directive": "an invalid directive is accepted", "equ": "an .equ without a label is accepted",
            "overflow": "a statement that does not fit below $FFF is accepted",
            "duplicate": "a label defined twice is accepted", "instruction": "an invalid instruction is accepted"}

    def judge_err(self, st, o, res):
        if res[0] == "err":
            if is_err(o.val):
                loc = find_loc(self.ip, o.val, self.p.lt)
                if loc is not None and not same(st, full(self.ip, loc), full(self.ip, res[2])):
                    return ("location", "the error for a rejected %s carries %s instead of the statement's location" %
                            (res[1], sim.short(loc)), full(self.ip, loc), full(self.ip, res[2]))
                return None
            return (res[1], self.WHAT[res[1]], None, None)
        if is_err(o.val):
            return ("rejected", "a valid program is rejected", None, None)
        return None

    def judge_ok(self, st, o, res):
        if res[0] == "err":
            return None
        m = o.val.fs[0] if is_ok(o.val) else None
        if m is None or not same_map(st, m, res[1]):
            return ("labels", "the label map is %s instead of %s" % (sim.short(m), sim.short(res[1])), m, res[1])
        return None


def same_map(st, a, b):
    if not isinstance(a, MapV) or not isinstance(b, MapV):
        return False
    if norm_term(st, a.base) != norm_term(st, b.base) or len(a.ins) != len(b.ins):
        return False
    return all(same(st, x[0], y[0]) and same(st, x[1], y[1]) for x, y in zip(a.ins, b.ins))


def asm_lang(b):
    """identifiers are what the scanner calls an identifier; the rest is any text"""
    if b[0] == 'sym' and isinstance(b[1], tuple) and b[1][0] == 'f' and isinstance(b[1][1], tuple):
        # field 1 of DirectiveData / LabelData / InstructionData: the name
        if b[1][2] == 1:
            return IDENT
    return rx.ALL


@timed
def o_pass1(ctx):
    """define_labels simulates the label pass of the specification on every statement list; directive
    parsing is the uninterpreted function O-DIR decides."""
    r = ObResult("O-P1")
    f = ctx.fn("assembler::define_labels")

    def make(ip):
        nodes = sym_seq(('in', 'program'), ctx.ty("parser::Node"))
        prog = Program(ctx, ip, nodes)
        if ip.peel is None:
            stub_directive(ctx, ip, prog)
        rt = ip.types[f.locals[0]]
        vty = u12_ty(ip)
        spec = PassOne(prog, vty)
        return spec, ip.call(State(), f.id, [arg_for(ip, f, 0, nodes)])
    with Langs(asm_lang):
        sim.compare(ctx, r, make, ctx.where(f), peel=4)
    return r
