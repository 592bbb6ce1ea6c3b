"""Abstract interpreter over monomorphised MIR.

Forward analysis, partitioned by control-flow trace outside loops; at loop heads the states are
joined per shape (enum variants, boolean flags), differing values become phi symbols, and linear
invariants over the phi symbols are kept when they are inductive (checked at entry and on every
back edge).  No code is executed and no solver is involved.
"""
import re
from dom import *
import dom
import mir


LOOP_NOTE = "a loop that is summarised prints or writes"


class TooComplex(Exception):
    pass


class Out(object):
    """Outcome of a function: kind is ret / panic / exit / stuck."""
    __slots__ = ("kind", "st", "val", "info")

    def __init__(self, kind, st, val=None, info=None):
        self.kind = kind
        self.st = st
        self.val = val
        self.info = info

    def __repr__(self):
        return "Out(%s, %r, %r)" % (self.kind, self.val, self.info)


class Part(object):
    """One partition of a loop head."""
    __slots__ = ("key", "idx", "head", "phis", "results", "dirty", "inits", "uid", "invs", "cands", "origin", "rec")


class LoopRec(object):
    __slots__ = ("uid", "fn", "head", "parts", "entry", "cause")


def loc_str(sp):
    if not sp:
        return "?"
    return "%s:%s" % (sp[0], sp[1])


INTERPRET_PREFIXES = (
    "std::option::", "std::result::", "<std::option::", "<std::result::",
    "core::option::", "core::result::",
    "<T as std::convert::", "<U as std::convert::", "std::convert::",
    "std::clone::impls", "std::cmp::impls", "std::cmp::PartialOrd", "std::cmp::Ord::", "std::cmp::PartialEq",
    "std::mem::replace", "std::mem::take", "std::mem::swap",
    "std::bool::", "core::bool::",
    "std::ops::control_flow", "<std::ops::ControlFlow",
    "<I as std::iter::IntoIterator>",
    "std::ops::Range", "<std::ops::Range", "std::ops::RangeInclusive",
    "std::hint::must_use",
    "core::num::<impl", "std::num::<impl",
    "std::tuple::", "core::tuple::",
    "std::ops::bit::", "std::ops::arith::",
    "std::array::equality", "std::default::",
)
FN_TRAIT_CALLS = frozenset("std::ops::%s" % x for x in (
    "FnOnce::call_once", "FnMut::call_mut", "Fn::call"))
INTERPRET_CRATES = ("c8s", "twelve_bit")


def same_state(a, b):
    """Same values and nothing new learnt or done in between."""
    return a.log == b.log and a.rng == b.rng and a.lang == b.lang and a.ineqs == b.ineqs and a.nes == b.nes and a.seqs == b.seqs and \
        a.sub == b.sub and a.cells == b.cells


class Interp(object):
    def __init__(self, prog, models):
        self.prog = prog
        self.types = prog.types
        self.models = models
        self.field_bounds = {}    # (enum type, variant, field) -> (lo, hi)
        self.stubs = {}           # fn id -> callable(interp, st, fn, args, site) -> list of Out
        self.peel = None          # iterations kept apart, later ones cut (counterexample mode)
        self.peel_width = 400
        self.fmt_ok = False
        self.cuts = 0
        self.unrolling = 0
        self.active = {}          # fn id -> most simultaneous activations seen (recursive functions)
        self.records = []
        self.record_on = True
        self.steps = 0
        self.max_steps = 6000000
        self.max_states = 60000
        self.visited_fns = set()
        self.panics = []          # (fn, block, span, msg, stack)
        self.max_depth = 60
        self.opaque_calls = {}
        self.loop_notes = {}
        self._dinfo = {}
        self.asserts_seen = {}    # site -> set of verdicts
        self.callsites = 0
        self._tytext = {}

    # ------------------------------------------------------------------ types
    def ty(self, i):
        return self.types[i]

    def tname(self, i):
        if i is None:
            return ''
        t = self.types[i]
        return t.get("name") or t.get("s")

    def is_u12(self, t):
        return t["k"] == "struct" and t["name"].endswith("u12::U12")

    def is_adt(self, t, *names):
        return t["k"] in ("struct", "enum") and any(t["name"] == n or t["name"].endswith("::" + n) for n in names)

    def int_range(self, t):
        k = t["k"]
        if k == "bool":
            return 0, 1
        if k == "char":
            return 0, 0x10FFFF
        if k == "uint":
            return 0, (1 << t["bits"]) - 1
        if k == "int":
            return -(1 << (t["bits"] - 1)), (1 << (t["bits"] - 1)) - 1
        return None

    def sym(self, term, tyi):
        """Symbolic value named term of type tyi, in its canonical representation."""
        if tyi is None:
            return SymV(term, None)
        t = self.types[tyi]
        k = t["k"]
        if k in ("uint", "int", "char"):
            lo, hi = self.int_range(t)
            return L(atom(term, lo, hi))
        if k == "bool":
            return p_atom(term)
        if k == "str":
            return StrV(('sym', term))
        if k in ("slice",):
            return sym_seq(term, t["elem"])
        if k == "array":
            if 0 <= t["len"] <= 16:
                return SeqV([('e', self.sym(('idx', term, K(i)), t["elem"])) for i in range(t["len"])])
            return sym_seq(term, t["elem"])
        if k in ("ref", "ptr"):
            e = self.types[t["elem"]]
            if e["k"] == "str":
                return StrV(('sym', term))
            if e["k"] == "slice":
                return sym_seq(term, e["elem"])
            return Ptr(('*', term, t["elem"]))
        if k == "tuple":
            return Agg(tyi, None, [self.sym(('f', term, i), e) for i, e in enumerate(t["elems"])])
        if k == "struct":
            if self.is_u12(t):
                return Agg(tyi, None, [L(atom(('f', term, 0), 0, 4095))])
            n = t["name"]
            if n.endswith("string::String"):
                return StrV(('sym', term))
            if n.endswith("vec::Vec"):
                return sym_seq(term, t["args"][0])
            if n.endswith("HashMap") or n.endswith("BTreeMap"):
                return MapV(term, (), t["args"][1])
            if t["variants"] and not t["variants"][0]["f"]:
                return Agg(tyi, None, ())
        return SymV(term, tyi)

    def expand(self, v):
        """SymV of struct/tuple/closure type -> Agg."""
        t = self.types[v.ty] if v.ty is not None else None
        if t is None:
            raise Unsupported("expand untyped %s" % tstr(v.t))
        if t["k"] == "struct":
            fs = t["variants"][0]["f"]
            return Agg(v.ty, None, [self.sym(('f', v.t, i), f[1]) for i, f in enumerate(fs)])
        if t["k"] == "closure":
            up = self.types[t["up"]]
            return Agg(v.ty, None, [self.sym(('f', v.t, i), e) for i, e in enumerate(up.get("elems", []))])
        raise Unsupported("expand %s" % t["s"])

    def discr(self, v):
        """Discriminant of an enum value as a linear form."""
        if isinstance(v, Agg):
            if v.var is None:
                return ZERO
            if v.ty is not None:
                t = self.types[v.ty]
                if t["k"] == "enum" and v.var < len(t["variants"]):
                    return K(int(t["variants"][v.var]["d"]))
            return K(v.var)
        if isinstance(v, SymV) and v.ty is not None:
            t = self.types[v.ty]
            if t["k"] == "enum":
                ds = [int(x["d"]) for x in t["variants"]]
                if not ds:
                    raise Infeasible()
                return L(atom(('discr', v.t), min(ds), max(ds)))
        raise Unsupported("discriminant of %r" % (v,))

    def variant_index(self, st, v):
        """Decided variant index of an enum value (splits when open)."""
        if isinstance(v, Agg):
            return v.var
        t = self.types[v.ty]
        d = st.norm(self.discr(v))
        for i, x in enumerate(t["variants"]):
            if i == len(t["variants"]) - 1:
                if st.decide(p_eq(d, K(int(x["d"])))) is not False:
                    return i
                raise Infeasible()
            if st.need(p_eq(d, K(int(x["d"])))):
                return i

    def payload(self, v, var, i):
        if isinstance(v, Agg):
            return v.fs[i]
        t = self.types[v.ty]
        return self.sym_field(v.t, var, i, t["variants"][var]["f"][i][1], v.ty)

    def sym_field(self, term, var, i, fty, ety):
        """Symbolic payload field; ranges guaranteed by construction come from field_bounds."""
        b = self.field_bounds.get((ety, var, i))
        if b is not None:
            return L(atom(('v', term, var, i), b[0], b[1]))
        return self.sym(('v', term, var, i), fty)

    def mk(self, tyi, var, *fs):
        return Agg(tyi, var, fs)

    # ------------------------------------------------------------------ memory
    def load_cell(self, st, cell):
        v = st.cells.get(cell)
        if v is not None:
            return v
        if isinstance(cell, tuple):
            if cell[0] == 'val':
                return cell[1]
            if cell[0] == '*':
                return self.sym(('*', cell[1]), cell[2])
            if cell[0] == 'static':
                return self.static_value(st, cell[1])
        raise Unsupported("load of undefined %s" % tstr(cell))

    def static_value(self, st, name):
        c = self.prog.statics.get(name)
        if c is None:
            raise Unsupported("static %s" % name)
        return self.const(c)

    def load(self, st, cell, path):
        v = self.load_cell(st, cell)
        for e in path:
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        k = e[0]
        if k == 'f':
            i = e[1]
            if isinstance(v, SymV):
                if isinstance(v.t, tuple) and v.t[0] == 'as':
                    return self.sym_field(v.t[1], v.t[2], i, e[2], v.ty)
                v2 = self.expand(v)
                return v2.fs[i]
            if isinstance(v, Agg):
                if i >= len(v.fs):
                    raise Infeasible()
                return v.fs[i]
            if isinstance(v, BoxV) or (isinstance(v, ObjV) and v.kind == "boxcell"):
                return v
            raise Unsupported("field of %r" % (v,))
        if k == 'd':
            if isinstance(v, SymV):
                return SymV(('as', v.t, e[1]), v.ty)
            if isinstance(v, Agg):
                if v.var is not None and v.var != e[1]:
                    raise Infeasible()
                return v
            raise Unsupported("downcast of %r" % (v,))
        if k == 'i':
            return self.seq_get(st, v, e[1])
        if k == 'ss':
            return self.seq_slice(st, v, e[1], e[2])
        if k == 'box':
            if isinstance(v, BoxV):
                return v.v
        raise Unsupported("projection %r" % (e,))

    def update(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        k = e[0]
        if isinstance(v, ObjV) and v.kind == "uninitbox" and all(x[0] == 'f' for x in path):
            return new
        if k == 'd':
            if isinstance(v, SymV):
                t = self.types[v.ty]
                fs = t["variants"][e[1]]["f"]
                v = Agg(v.ty, e[1], [self.sym_field(v.t, e[1], i, f[1], v.ty) for i, f in enumerate(fs)])
            return self.update(st, v, path[1:], new)
        if k == 'f':
            if isinstance(v, SymV):
                v = self.expand(v)
            if v is None or v is UNINIT:
                raise Unsupported("partial init")
            if not isinstance(v, Agg):
                raise Unsupported("store into %r" % (v,))
            fs = list(v.fs)
            while len(fs) <= e[1]:
                fs.append(UNINIT)
            fs[e[1]] = self.update(st, fs[e[1]], path[1:], new)
            return Agg(v.ty, v.var, fs)
        if k == 'i':
            return self.seq_set(st, v, e[1], path[1:], new)
        if k == 'box':
            return BoxV(self.update(st, v.v, path[1:], new))
        raise Unsupported("store projection %r" % (e,))

    def store(self, st, cell, path, new):
        if not path:
            st.cells[cell] = new
            return
        if isinstance(cell, tuple) and cell[0] == 'val':
            raise Unsupported("store through shared reference")
        try:
            v = self.load_cell(st, cell)
        except Unsupported:
            v = Agg(None, None, ())
        st.cells[cell] = self.update(st, v, path, new)

    # sequences
    def seq_locate(self, st, v, i):
        """(segment index, offset within it) of element i."""
        i = st.norm(i)
        pos = ZERO
        n = len(v.segs)
        for si, s in enumerate(v.segs):
            ln = st.norm(seg_len(s))
            nxt = pos + ln
            if st.need(p_lt(i, nxt)):
                return si, st.norm(i - pos)
            pos = nxt
        return None, None

    def seq_get(self, st, v, i):
        if isinstance(v, SymV):
            raise Unsupported("index of %r" % (v,))
        if isinstance(v, Ptr):
            v = self.load(st, v.cell, v.path)
        if isinstance(v, StrV):
            v = SeqV([('b', v.t)])
        if not isinstance(v, SeqV):
            raise Unsupported("index of %r" % (v,))
        si, off = self.seq_locate(st, v, i)
        if si is None:
            raise Infeasible()
        s = v.segs[si]
        if s[0] == 'e':
            return s[1]
        if s[0] == 's':
            return self.sym(('idx', s[1], st.norm(s[2] + off)), s[4])
        return L(atom(('byte', s[1], off), 0, 255))

    def seq_set(self, st, v, i, path, new):
        si, off = self.seq_locate(st, v, i)
        if si is None:
            raise Infeasible()
        s = v.segs[si]
        if s[0] == 'e':
            segs = list(v.segs)
            segs[si] = ('e', self.update(st, s[1], path, new))
            return SeqV(segs)
        raise Unsupported("store into symbolic sequence")

    def seq_slice(self, st, v, a, b):
        """v[a..b], bounds already known to be in range."""
        if isinstance(v, StrV):
            v = SeqV([('b', v.t)])
        a = st.norm(a)
        b = st.norm(b)
        if a == ZERO and st.norm(seq_len(v)) == b:
            return v
        out = []
        pos = ZERO
        for s in v.segs:
            ln = st.norm(seg_len(s))
            end = st.norm(pos + ln)
            if st.need(p_le(end, a)):
                pos = end
                continue
            if st.need(p_le(b, pos)):
                break
            lo = pos
            if not st.need(p_le(a, pos)):
                lo = a
            hi = end
            if not st.need(p_le(end, b)):
                hi = b
            if s[0] == 'e':
                out.append(s)
            elif s[0] == 's':
                out.append(('s', s[1], st.norm(s[2] + (lo - pos)), st.norm(s[2] + (hi - pos)), s[4]))
            else:
                out.append(('b', s_sub(s[1], st.norm(lo - pos), st.norm(hi - pos))))
            pos = end
        return SeqV(out)

    # ------------------------------------------------------------------ constants
    def const(self, c):
        k = c["c"]
        tyi = c.get("t")
        t = self.types[tyi] if tyi is not None else None
        if k == "int":
            v = int(c["v"])
            if t["k"] == "bool":
                return TRUE if v else FALSE
            if t["k"] == "int" and v >= (1 << (t["bits"] - 1)):
                v -= 1 << t["bits"]
            return K(v)
        if k == "str":
            return StrV(('lit', c["v"]))
        if k in ("slice", "array"):
            return SeqV([('e', self.const(x)) for x in c["v"]])
        if k == "ref":
            v = self.const(c["v"])
            return Ptr(('val', v))
        if k == "static":
            return Ptr(('static', c["name"]))
        if k == "fn":
            return ObjV("fn", c["fn"])
        if k == "tuple":
            return Agg(tyi, None, [self.const(x) for x in c["v"]])
        if k == "adt":
            var = c.get("variant", 0)
            fs = [self.const(x) for x in c.get("v", [])]
            if t["k"] == "enum":
                return Agg(tyi, var, fs)
            if self.is_adt(t, "vec::Vec", "string::String"):
                return StrV(('lit', '')) if t["name"].endswith("String") else SeqV()
            return Agg(tyi, None, fs)
        if k == "zst":
            if t["k"] == "fndef":
                return ObjV("fn", t.get("fn"))
            return Agg(tyi, None, ())
        if t is not None and t["k"] in ("tuple", "struct") and t.get("size") == 0:
            return Agg(tyi, None, ())
        return ObjV("const", k, t["s"] if t else None, c.get("hex"))

    # ------------------------------------------------------------------ places and operands
    def resolve(self, st, fr, place):
        """-> ('c', cell, path) or ('v', value)"""
        cell = ('L', fr, place[0])
        path = ()
        isval = False
        val = None
        for e in place[1]:
            if e == "*":
                v = self.proj_all(st, val, path) if isval else self.load(st, cell, path)
                if isinstance(v, Ptr):
                    cell, path, isval = v.cell, v.path, False
                elif isinstance(v, BoxV):
                    path = path + (('box',),)
                elif isinstance(v, (StrV, SeqV, ObjV, MapV)):
                    isval, val, path = True, v, ()
                elif isinstance(v, SymV):
                    t = self.types[v.ty] if v.ty is not None else None
                    if t is not None and t["k"] in ("ref", "ptr"):
                        p = self.sym(v.t, v.ty)
                        if isinstance(p, Ptr):
                            cell, path, isval = p.cell, p.path, False
                        else:
                            isval, val, path = True, p, ()
                    elif t is not None and t.get("box"):
                        cell, path, isval = ('*', v.t, t["args"][0]), (), False
                    else:
                        raise Unsupported("deref of %r" % (v,))
                else:
                    raise Unsupported("deref of %r" % (v,))
            elif e[0] == 'f':
                path = path + (('f', e[1], e[2]),)
            elif e[0] == 'd':
                path = path + (('d', e[1]),)
            elif e[0] == 'i':
                path = path + (('i', self.load(st, ('L', fr, e[1]), ())),)
            elif e[0] == 'ci':
                off, ml, fe = e[1], e[2], e[3]
                if fe:
                    v = self.proj_all(st, val, path) if isval else self.load(st, cell, path)
                    path = path + (('i', seq_len(v) - off),)
                else:
                    path = path + (('i', K(off)),)
            elif e[0] == 'ss':
                v = self.proj_all(st, val, path) if isval else self.load(st, cell, path)
                a = K(e[1])
                b = seq_len(v) - e[2] if e[3] else K(e[2])
                path = path + (('ss', a, b),)
            else:
                raise Unsupported("place %r" % (e,))
        if isval:
            return ('v', val, path)
        return ('c', cell, path)

    def proj_all(self, st, v, path):
        for e in path:
            v = self.proj(st, v, e)
        return v

    def read_place(self, st, fr, place):
        if not place[1]:
            return self.load_cell(st, ('L', fr, place[0]))
        r = self.resolve(st, fr, place)
        if r[0] == 'v':
            return self.proj_all(st, r[1], r[2])
        return self.load(st, r[1], r[2])

    def operand(self, st, fr, o):
        k = o["o"]
        if k in ("copy", "move"):
            return self.read_place(st, fr, o["p"])
        if k == "const":
            return self.const(o["v"])
        if k == "rtc":
            return TRUE if o.get("v") else TRUE
        raise Unsupported("operand %r" % (o,))

    def op_ty(self, fn, o):
        k = o["o"]
        if k in ("copy", "move"):
            p = o["p"]
            for e in reversed(p[1]):
                if e != "*" and e[0] == 'f':
                    if p[1][-1] is e:
                        return e[2]
                    break
            if not p[1]:
                return fn.locals[p[0]]
            return self.place_ty(fn, p)
        if k == "const":
            return o["v"].get("t")
        return None

    def place_ty(self, fn, p):
        t = fn.locals[p[0]]
        for e in p[1]:
            if t is None:
                return None
            d = self.types[t]
            if e == "*":
                t = d.get("elem")
                if t is None and d.get("box"):
                    t = d["args"][0]
            elif e[0] == 'f':
                t = e[2]
            elif e[0] in ('i', 'ci'):
                t = d.get("elem")
            elif e[0] in ('d', 'ss'):
                pass
        return t

    def ref_of(self, st, r):
        """Reference to a resolved place."""
        if r[0] == 'v':
            v = self.proj_all(st, r[1], r[2])
            if isinstance(v, (StrV, SeqV)) and not r[2]:
                return v
            if r[2] and r[2][-1][0] == 'ss':
                return v
            return Ptr(('val', v))
        return Ptr(r[1], r[2])

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, st, fn, fr, r, dplace):
        k = r["r"]
        if k == "use":
            return self.operand(st, fr, r["o"])
        if k in ("ref", "addr"):
            p = r["p"]
            rr = self.resolve(st, fr, p)
            if rr[0] == 'c':
                # a reference to an unsized place is the content itself when it is shared
                ty = self.place_ty(fn, p)
                tk = self.types[ty]["k"] if ty is not None else None
                if tk == "str" or (tk == "slice" and not r.get("mut")):
                    return self.load(st, rr[1], rr[2])
                if rr[2] and rr[2][-1][0] == 'ss':
                    return self.load(st, rr[1], rr[2])
                if rr[2] and any(e[0] == 'i' for e in rr[2]) and not r.get("mut"):
                    return Ptr(('val', self.load(st, rr[1], rr[2])))
            return self.ref_of(st, rr)
        if k == "len":
            v = self.read_place(st, fr, r["p"])
            return self.length(st, v)
        if k == "discr":
            v = self.read_place(st, fr, r["p"])
            return st.norm(self.discr(v))
        if k == "bin":
            a = self.operand(st, fr, r["a"])
            b = self.operand(st, fr, r["b"])
            return self.binop(st, r["op"], a, b, self.op_ty(fn, r["a"]), False)
        if k == "cbin":
            a = self.operand(st, fr, r["a"])
            b = self.operand(st, fr, r["b"])
            return self.binop(st, r["op"], a, b, self.op_ty(fn, r["a"]), True)
        if k == "un":
            a = self.operand(st, fr, r["a"])
            op = r["op"]
            if op == "Not":
                if is_pred(a):
                    return p_not(a)
                t = self.types[self.op_ty(fn, r["a"])]
                if t["k"] == "uint":
                    return K((1 << t["bits"]) - 1) - a
                return a.scale(-1) - 1
            if op == "Neg":
                return a.scale(-1)
            if op == "PtrMetadata":
                return self.length(st, a)
            raise Unsupported("unop " + op)
        if k == "cast":
            return self.cast(st, fn, fr, r)
        if k == "repeat":
            v = self.operand(st, fr, r["o"])
            n = r["n"]
            if 0 <= n <= 4096:
                return SeqV([('e', v)] * n)
            raise Unsupported("repeat")
        if k == "agg":
            vs = [self.operand(st, fr, o) for o in r["v"]]
            kk = r["k"]
            if kk == "array":
                return SeqV([('e', v) for v in vs])
            if kk == "tuple":
                return Agg(None, None, vs)
            if kk == "closure":
                return Agg(r.get("t"), None, vs)
            if kk == "adt":
                t = self.types[r["t"]]
                if t["k"] == "enum":
                    return Agg(r["t"], r["variant"], vs)
                if t["k"] == "union":
                    return ObjV("union", *vs)
                return Agg(r["t"], None, vs)
            raise Unsupported("aggregate " + kk)
        raise Unsupported("rvalue " + k)

    def length(self, st, v):
        if isinstance(v, Ptr):
            v = self.load(st, v.cell, v.path)
        if isinstance(v, SeqV):
            return st.norm(seq_len(v))
        if isinstance(v, StrV):
            return st.norm(slen(v.t))
        raise Unsupported("length of %r" % (v,))

    def wrap(self, st, v, tyi):
        """v reduced into the range of an integer type (two's complement)."""
        rg = self.int_range(self.types[tyi])
        lo, hi = rg
        if st.decide(p_and(p_le(K(lo), v), p_le(v, K(hi)))) is True:
            return v
        size = hi - lo + 1
        bl, bh = st.bounds(st.norm(v))
        q1, q2 = (bl - lo) // size, (bh - lo) // size
        if q2 - q1 <= 3:
            for q in range(q1, q2 + 1):
                if q == q2 or st.need(p_le(v, K(lo + (q + 1) * size - 1))):
                    return v - q * size
        if lo == 0:
            b = to_bits(st, v, width(hi))
            if b is not None:
                return from_bits(st, b)
        return opaque_op("wrap", (st.norm(v), lo, hi), lo, hi)

    def binop(self, st, op, a, b, tyi, checked):
        if op.endswith("Unchecked"):
            op = op[:-9]
        if is_pred(a) or is_pred(b):
            if op == "BitAnd":
                return p_and(a, b)
            if op == "BitOr":
                return p_or(a, b)
            if op in ("Eq", "Ne", "BitXor"):
                x = st.need(a)
                r = b if x else p_not(b)
                return r if op == "Eq" else p_not(r)
            if op in ("Lt", "Le", "Gt", "Ge"):
                x, y = int(st.need(a)), int(st.need(b))
                return TRUE if {"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op] else FALSE
            raise Unsupported("bool op " + op)
        if isinstance(a, Agg) and not a.fs and isinstance(b, Agg) and not b.fs:
            return TRUE if op == "Eq" else FALSE
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op in ("Eq", "Ne"):
            if a == b:
                return TRUE if op == "Eq" else FALSE
            raise Unsupported("pointer comparison")
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            raise Unsupported("binop %s on %r, %r" % (op, a, b))
        if op == "Eq":
            return p_eq(a, b)
        if op == "Ne":
            return p_not(p_eq(a, b))
        if op == "Lt":
            return p_lt(a, b)
        if op == "Le":
            return p_le(a, b)
        if op == "Gt":
            return p_lt(b, a)
        if op == "Ge":
            return p_le(b, a)
        if op == "Cmp":
            ti = None
            if st.need(p_lt(a, b)):
                return self.ordering(-1)
            return self.ordering(0 if st.need(p_eq(a, b)) else 1)
        t = self.types[tyi]
        lo, hi = self.int_range(t)
        if op in ("Add", "Sub", "Mul"):
            if op == "Add":
                v = a + b
            elif op == "Sub":
                v = a - b
            else:
                v = self.mul(st, a, b)
            v = st.norm(v)
            if checked:
                ovf = p_not(p_and(p_le(K(lo), v), p_le(v, K(hi))))
                d = st.decide(ovf)
                if d is True:
                    ovf = TRUE
                elif d is False:
                    ovf = FALSE
                elif lo == 0 and st.decide(p_le(K(0), v)):
                    ovf = p_not(p_le(v, K(hi)))
                elif st.decide(p_le(v, K(hi))):
                    ovf = p_not(p_le(K(lo), v))
                if ovf is TRUE or ovf is FALSE:
                    return Agg(None, None, (v if ovf is FALSE else self.wrap(st, v, tyi), ovf))
                return Agg(None, None, (v, ovf))
            return self.wrap(st, v, tyi)
        if op in ("Shl", "Shr"):
            sb = st.norm(b)
            bits = t["bits"]
            if not sb.is_const():
                return opaque_op(op, (st.norm(a), sb, bits), lo, hi)
            sh = sb.c % bits
            if op == "Shl":
                return self.wrap(st, st.norm(a).scale(1 << sh), tyi)
            n = st.norm(a)
            if n.is_const():
                return K(n.c >> sh)
            w = width(max(st.bounds(n)[1], 0))
            bb = to_bits(st, n, max(w, sh + 1))
            if bb is not None:
                return from_bits(st, bb[sh:])
            bl, bh = st.bounds(n)
            return opaque_op("Shr", (n, sh), bl >> sh, bh >> sh)
        if op in ("BitAnd", "BitOr", "BitXor"):
            x, y = st.norm(a), st.norm(b)
            if x.is_const() and y.is_const():
                return K({"BitAnd": x.c & y.c, "BitOr": x.c | y.c, "BitXor": x.c ^ y.c}[op])
            if op == "BitAnd":
                if x.is_const():
                    x, y = y, x
                if y.is_const() and y.c & (y.c + 1) == 0 and y.c >= 0:
                    m = y.c + 1
                    bl, bh = st.bounds(x)
                    if bl >= 0 and bh <= y.c:
                        return x
                    q1, q2 = bl // m, bh // m
                    if len(x.t) > 1 and q2 - q1 <= 2:
                        for q in range(q1, q2 + 1):
                            if q == q2 or st.need(p_le(x, K((q + 1) * m - 1))):
                                return x - q * m
            n = t["bits"]
            bx, by = to_bits(st, x, n), to_bits(st, y, n)
            if bx is not None and by is not None:
                out = []
                ok = True
                for p, q in zip(bx, by):
                    if op == "BitAnd":
                        r = 0 if (p == 0 or q == 0) else (q if p == 1 else p if (q == 1 or p == q) else None)
                    elif op == "BitOr":
                        r = 1 if (p == 1 or q == 1) else (q if p == 0 else p if (q == 0 or p == q) else None)
                    else:
                        r = q if p == 0 else p if q == 0 else (0 if p == q else None)
                    if r is None:
                        ok = False
                        break
                    out.append(r)
                if ok:
                    return from_bits(st, out)
            xl, xh = st.bounds(x)
            yl, yh = st.bounds(y)
            l2, h2 = lo, hi
            if xl >= 0 and yl >= 0:
                l2 = 0
                h2 = min(xh, yh) if op == "BitAnd" else (1 << max(width(xh), width(yh))) - 1
            return opaque_op(op, tuple(sorted((x, y), key=repr)), max(lo, l2), min(hi, h2))
        if op in ("Div", "Rem"):
            x, y = st.norm(a), st.norm(b)
            if x.is_const() and y.is_const() and y.c:
                q = abs(x.c) // abs(y.c) * (1 if (x.c < 0) == (y.c < 0) else -1)
                return K(q if op == "Div" else x.c - q * y.c)
            if y.is_const() and y.c > 0:
                bl, bh = st.bounds(x)
                if bl >= 0:
                    if y.c & (y.c - 1) == 0:
                        k = y.c.bit_length() - 1
                        w = max(width(bh), k + 1)
                        bb = to_bits(st, x, w)
                        if bb is not None:
                            return from_bits(st, bb[k:] if op == "Div" else bb[:k] or [0])
                    if op == "Div":
                        q = atom(('op', 'div', x, y.c), bl // y.c, bh // y.c)
                        st.ineqs.append(L(q).scale(y.c) - x)
                        st.ineqs.append(x - L(q).scale(y.c) - (y.c - 1))
                        return L(q)
                    q = atom(('op', 'div', x, y.c), bl // y.c, bh // y.c)
                    st.ineqs.append(L(q).scale(y.c) - x)
                    st.ineqs.append(x - L(q).scale(y.c) - (y.c - 1))
                    return x - L(q).scale(y.c)
            return opaque_op(op, (x, y), lo, hi)
        if op == "Offset":
            raise Unsupported("pointer arithmetic")
        raise Unsupported("binop " + op)

    def ordering(self, v):
        return Agg(self.ordering_ty(), v + 1, ())

    def ordering_ty(self):
        if not hasattr(self, "_ord"):
            self._ord = None
            for i, t in enumerate(self.types):
                if t["k"] == "enum" and t["name"].endswith("cmp::Ordering"):
                    self._ord = i
        return self._ord

    def mul(self, st, a, b):
        a, b = st.norm(a), st.norm(b)
        if b.is_const():
            return a.scale(b.c)
        if a.is_const():
            return b.scale(a.c)
        al, ah = st.bounds(a)
        bl, bh = st.bounds(b)
        c = [al * bl, al * bh, ah * bl, ah * bh]
        return opaque_op("mul", tuple(sorted((a, b), key=repr)), min(c), max(c))

    def cast(self, st, fn, fr, r):
        v = self.operand(st, fr, r["o"])
        k = r["k"]
        t = self.types[r["t"]]
        if isinstance(v, ObjV) and v.kind == "boxcell" and t["k"] in ("ref", "ptr"):
            return v.p[0]
        if k.startswith("IntToInt"):
            if is_pred(v):
                return K(1) if st.need(v) else K(0)
            if isinstance(v, Lin):
                return self.wrap(st, v, r["t"])
            if isinstance(v, (Agg, SymV)):
                return self.wrap(st, self.discr(v), r["t"])
            raise Unsupported("int cast of %r" % (v,))
        if "PtrToPtr" in k or "Unsize" in k or "MutToConst" in k or "ArrayToPointer" in k or "Transmute" in k \
                or "Subtype" in k or "PointerCoercion" in k:
            if "Transmute" in k:
                src = self.op_ty(fn, r["o"])
                s = self.types[src]
                if s["k"] in ("ref", "ptr") and t["k"] in ("ref", "ptr"):
                    return v
                if isinstance(v, Lin) and self.int_range(t) is not None:
                    return self.wrap(st, v, r["t"])
                if isinstance(v, (BoxV,)):
                    return v
                raise Unsupported("transmute %s -> %s" % (s["s"], t["s"]))
            if "Unsize" in k:
                e = self.types[t["elem"]] if t["k"] in ("ref", "ptr") else t
                if e["k"] == "slice" and isinstance(v, Ptr) and not t.get("mut"):
                    return self.load(st, v.cell, v.path)
            if "ClosureFnPointer" in k or "ReifyFnPointer" in k:
                return v
            return v
        raise Unsupported("cast " + k)

    # ------------------------------------------------------------------ execution
    def call(self, st, fid, args, site=None):
        """Calls function fid. Returns a list of Out."""
        fn = self.prog.fns.get(fid)
        if fn is None:
            return [self.stuck(st, "unresolved callee", site)]
        self.callsites += 1
        stub = self.stubs.get(fid)
        if stub is not None:
            return self.guarded(st, lambda s: stub(self, s, fn, args, site), fn, args, site)
        m = self.models.lookup(self, fn)
        if m is not None:
            return self.guarded(st, lambda s: m(self, s, fn, args, site), fn, args, site)
        if fn.has_body() and self.may_interpret(fn):
            active = sum(1 for x in st.stack if x[0] == fid)
            if active:
                if self.peel is None:
                    s = st.copy()
                    return [self.opaque(s, fn, args, site, "recursive call")]
                if active + 1 > self.active.get(fid, 0):
                    self.active[fid] = active + 1
            if len(st.stack) > (self.max_depth if self.peel is None else self.max_depth + 6 * self.peel):
                raise TooComplex("call depth")
            return self.exec_fn(st, fn, args, site)
        return [self.opaque(st.copy(), fn, args, site, "no model")]

    def may_interpret(self, fn):
        if fn.crate in INTERPRET_CRATES:
            return True
        d = fn.def_
        return any(d.startswith(p) for p in INTERPRET_PREFIXES)

    def guarded(self, st, f, fn, args, site):
        """Runs a model, forking the state when it asks for an undecided predicate."""
        outs = []
        work = [st]
        n = 0
        while work:
            s0 = work.pop()
            n += 1
            if n > 4000:
                raise TooComplex("splits in model of " + fn.name)
            s = s0.copy()
            try:
                r = f(s)
                outs.extend(r)
            except Split as e:
                for p in (e.pred, p_not(e.pred)):
                    s2 = s0.copy()
                    for s3 in self.assume_multi(s2, p):
                        work.append(s3)
            except Infeasible:
                pass
            except Unsupported as e:
                outs.append(self.opaque(s0.copy(), fn, args, site, str(e)))
        return outs

    def assume_multi(self, s, p):
        try:
            return [s] if s.assume(p) else []
        except Split as e:
            out = []
            for q in (e.pred, p_not(e.pred)):
                s2 = s.copy()
                for s3 in self.assume_multi(s2, q):
                    out.extend(self.assume_multi(s3, p))
            return out

    def ret_ty(self, fn):
        if fn.locals:
            return fn.locals[0]
        return None

    def opaque(self, st, fn, args, site, why):
        """Uninterpreted result; mutable pointees reachable from the arguments are forgotten."""
        self.opaque_calls.setdefault(fn.name, why)
        st.note("opaque call %s (%s)" % (fn.name, why))
        for i, a in enumerate(args):
            self.havoc(st, a, fn, i)
        n = st.fresh('opq')
        key = ('call', fn.def_, tuple(args), n)
        rt = self.ret_ty(fn)
        if rt is None and site is not None:
            rt = site.get("dty")
        if rt is None:
            return Out("ret", st, SymV(key, None))
        if self.types[rt]["k"] == "never":
            return Out("panic", st, None, ("diverging opaque call " + fn.name, site and site.get("sp")))
        return Out("ret", st, self.sym(key, rt))

    def havoc(self, st, a, fn, i):
        if isinstance(a, Ptr):
            if isinstance(a.cell, tuple) and a.cell[0] == 'val':
                return
            # only references typed &mut are written through
            t = None
            if fn.locals and 1 + i < len(fn.locals):
                t = self.types[fn.locals[1 + i]]
            if t is not None and t["k"] == "ref" and not t["mut"]:
                return
            try:
                old = self.load(st, a.cell, a.path)
            except Unsupported:
                return
            new = self.havoc_value(st, old)
            self.store(st, a.cell, a.path, new)
        elif isinstance(a, Agg):
            for f in a.fs:
                self.havoc(st, f, fn, i)

    def havoc_value(self, st, old):
        n = st.fresh('havoc')
        key = ('havoc', n)
        if isinstance(old, Lin):
            return L(atom(key, -INF, INF))
        if is_pred(old):
            return p_atom(key)
        if isinstance(old, StrV):
            return StrV(('sym', key))
        if isinstance(old, SeqV):
            ety = None
            for s in old.segs:
                if s[0] == 's':
                    ety = s[4]
            return sym_seq(key, ety)
        if isinstance(old, MapV):
            return MapV(key, (), old.vty)
        if isinstance(old, Agg) and old.ty is not None:
            return self.sym(key, old.ty)
        if isinstance(old, SymV) and old.ty is not None:
            return self.sym(key, old.ty)
        return SymV(key, None)

    def stuck(self, st, why, site):
        st = st.copy()
        st.note(why)
        return Out("stuck", st, None, (why, site and site.get("sp")))

    def exec_fn(self, st, fn, args, site=None):
        self.visited_fns.add(fn.id)
        fn.cfg()
        st = st.copy()
        fr = st.fresh('frame')
        st.stack = st.stack + ((fn.id, site.get("sp") if site else None),)
        if fn.spread is not None and fn.spread >= 0 and len(args) != fn.argc:
            pass
        for i, a in enumerate(args):
            st.cells[('L', fr, i + 1)] = a
        res = self.run(fn, fr, 0, st, None, None)
        outs = []
        for kind, s, v in res:
            if kind == 'ret':
                val = s.cells.get(('L', fr, 0), UNIT)
                s.cells = {c: x for c, x in s.cells.items() if not (c[0] == 'L' and c[1] == fr)}
                s.stack = s.stack[:-1]
                outs.append(Out("ret", s, val))
            elif kind == 'out':
                outs.append(v)
            else:
                raise Exception(kind)
        return outs

    def run(self, fn, fr, start, st, stop, body):
        """Explores from block start. Results: ('ret', st, _), ('out', st, Out), ('back', st, _), ('leave', st, block)."""
        res = []
        work = [(start, st, True)]
        count = 0
        while work:
            b, s, fresh = work.pop()
            count += 1
            if count > self.max_states:
                raise TooComplex("too many states in %s" % fn.name)
            if not fresh:
                if stop is not None and b == stop:
                    res.append(('back', s, None))
                    continue
                if body is not None and b not in body:
                    res.append(('leave', s, b))
                    continue
            if b in fn.heads and not (fresh and b == stop):
                for kind, s2, x in self.loop(fn, fr, b, s):
                    if kind == 'leave':
                        work.append((x, s2, False))
                    else:
                        res.append((kind, s2, x))
                continue
            for kind, s2, x in self.block(fn, fr, b, s):
                if kind == 'go':
                    work.append((x, s2, False))
                else:
                    res.append((kind, s2, x))
        return res

    def block(self, fn, fr, b, st):
        """Executes one basic block; yields ('go', st, target) or results."""
        blk = fn.blocks[b]
        stmts = blk["s"]
        out = []
        work = [(0, st)]
        while work:
            i, s = work.pop()
            ok = True
            while i < len(stmts):
                x = stmts[i]
                k = x[0]
                self.steps += 1
                if k == "=":
                    try:
                        v = self.rvalue(s, fn, fr, x[2], x[1])
                        self.assign(s, fr, x[1], v)
                    except Split as e:
                        for p in (e.pred, p_not(e.pred)):
                            for s3 in self.assume_multi(s.copy(), p):
                                work.append((i, s3))
                        ok = False
                        break
                    except Infeasible:
                        ok = False
                        break
                    except Unsupported as e:
                        s.note("%s: %s" % (fn.name, e))
                        ty = self.place_ty(fn, x[1])
                        v = self.sym(('unk', fn.id, b, i, s.fresh('unk')), ty)
                        try:
                            self.assign(s, fr, x[1], v)
                        except Unsupported as e2:
                            out.append(('out', s, Out("stuck", s, None, (str(e2), fn.span))))
                            ok = False
                            break
                elif k == "dead":
                    s.cells.pop(('L', fr, x[1]), None)
                elif k == "sd":
                    try:
                        p = x[1]
                        r = self.resolve(s, fr, p)
                        v = self.load(s, r[1], r[2])
                        ty = self.place_ty(fn, p)
                        self.store(s, r[1], r[2], Agg(ty, x[2], v.fs if isinstance(v, Agg) else ()))
                    except (Unsupported, Infeasible) as e:
                        s.note("set-discriminant")
                elif k == "assume":
                    pass
                i += 1
            if not ok:
                continue
            if self.steps > self.max_steps:
                raise TooComplex("step budget")
            out.extend(self.terminator(fn, fr, b, s))
        return out

    def assign(self, st, fr, place, v):
        if not place[1]:
            st.cells[('L', fr, place[0])] = v
            return
        r = self.resolve(st, fr, place)
        if r[0] == 'v':
            raise Unsupported("assignment through content reference")
        self.store(st, r[1], r[2], v)

    def terminator(self, fn, fr, b, st):
        t = fn.blocks[b]["t"]
        k = t["t"]
        self.steps += 1
        if k == "goto":
            return [('go', st, t["to"])]
        if k == "return":
            return [('ret', st, None)]
        if k == "unreachable":
            return []
        if k == "drop":
            self.do_drop(st, fn, fr, t)
            return [('go', st, t["to"])]
        if k in ("resume", "abort"):
            return []
        if k == "switch":
            return self.switch(fn, fr, b, st, t)
        if k == "assert":
            return self.do_assert(fn, fr, b, st, t)
        if k == "call":
            return self.do_call(fn, fr, b, st, t)
        if k == "py":
            return self.py_block(fn, fr, st, t)
        s = st
        s.note("terminator " + k)
        return [('out', s, Out("stuck", s, None, (k, fn.span)))]

    def py_block(self, fn, fr, st, t):
        out = []
        work = [st]
        while work:
            s = work.pop()
            c = s.copy()
            try:
                out.extend(t["f"](self, fr, c))
            except Split as e:
                for p in (e.pred, p_not(e.pred)):
                    work.extend(self.assume_multi(s.copy(), p))
            except Infeasible:
                pass
            except Unsupported as e:
                s.note("%s: %s" % (fn.name, e))
                out.append(('out', s, Out("stuck", s, None, (str(e), fn.span))))
        return out

    def do_drop(self, st, fn, fr, t):
        ty = t.get("ty", -1)
        nm = self.types[ty].get("name", "") if ty is not None and ty >= 0 else ""
        if nm.endswith("cell::Ref") or nm.endswith("cell::RefMut"):
            try:
                g = self.read_place(st, fr, t["p"])
                if isinstance(g, ObjV) and g.kind == "guard":
                    self.models.release(self, st, g)
            except Unsupported:
                st.note("drop of borrow guard")

    def switch(self, fn, fr, b, st, t):
        out = []
        work = [st]
        while work:
            s = work.pop()
            try:
                d = self.operand(s, fr, t["d"])
            except Split as e:
                for p in (e.pred, p_not(e.pred)):
                    work.extend(self.assume_multi(s.copy(), p))
                continue
            except Infeasible:
                continue
            except Unsupported as e:
                s.note(str(e))
                for v, tgt in t["arms"]:
                    out.append(('go', s.copy(), tgt))
                out.append(('go', s.copy(), t["else"]))
                continue
            if isinstance(d, (Agg, SymV)):
                try:
                    d = self.discr(d)
                except Unsupported as e:
                    s.note(str(e))
                    for v, tgt in t["arms"]:
                        out.append(('go', s.copy(), tgt))
                    out.append(('go', s.copy(), t["else"]))
                    continue
            cur = [s]
            dt = self.types[t["dt"]] if t.get("dt", -1) >= 0 else None
            for v, tgt in t["arms"]:
                iv = int(v)
                if dt is not None and dt["k"] == "int" and iv >= (1 << (dt["bits"] - 1)) and dt["bits"] < 128:
                    # switch values are dumped as unsigned bits
                    iv -= 1 << dt["bits"]
                if is_pred(d):
                    p = d if iv else p_not(d)
                else:
                    p = p_eq(d, K(iv))
                nxt = []
                for c in cur:
                    dd = c.decide(p)
                    if dd is True:
                        out.append(('go', c, tgt))
                    elif dd is False:
                        nxt.append(c)
                    else:
                        for s2 in self.assume_multi(c.copy(), p):
                            out.append(('go', s2, tgt))
                        nxt.extend(self.assume_multi(c.copy(), p_not(p)))
                cur = nxt
            for c in cur:
                out.append(('go', c, t["else"]))
        return out

    def site_key(self, fn, b):
        return (fn.name, b)

    def do_assert(self, fn, fr, b, st, t):
        out = []
        work = [st]
        key = (fn.id, b)
        seen = self.asserts_seen.setdefault(key, set())
        while work:
            s = work.pop()
            try:
                c = self.operand(s, fr, t["c"])
                p = c if t["exp"] else p_not(c)
                d = s.decide(p)
            except Split as e:
                for q in (e.pred, p_not(e.pred)):
                    work.extend(self.assume_multi(s.copy(), q))
                continue
            except Infeasible:
                continue
            except Unsupported as e:
                s.note("assert: " + str(e))
                seen.add("unknown")
                s2 = s.copy()
                out.append(('out', s2, Out("panic", s2, None, ("assert %s (undecided)" % t["msg"], t.get("sp"), fn.id, b))))
                out.append(('go', s, t["to"]))
                continue
            if d is True:
                seen.add("ok")
                out.append(('go', s, t["to"]))
                continue
            if d is None:
                for s2 in self.assume_multi(s.copy(), p):
                    out.append(('go', s2, t["to"]))
                bad = self.assume_multi(s.copy(), p_not(p))
            else:
                bad = [s]
            for s2 in bad:
                seen.add("fail")
                out.append(('out', s2, Out("panic", s2, None, (t["msg"], t.get("sp"), fn.id, b))))
        return out

    def do_call(self, fn, fr, b, st, t):
        out = []
        work = [st]
        site = t
        while work:
            s = work.pop()
            try:
                args = [self.operand(s, fr, a) for a in t["args"]]
            except Split as e:
                for q in (e.pred, p_not(e.pred)):
                    work.extend(self.assume_multi(s.copy(), q))
                continue
            except Infeasible:
                continue
            except Unsupported as e:
                s.note("call argument: %s" % e)
                out.append(('out', s, Out("stuck", s, None, (str(e), t.get("sp")))))
                continue
            fid = t.get("fn", -1)
            if t.get("def") in FN_TRAIT_CALLS:
                outs = self.guarded(s, lambda c: self.call_fn_trait(c, args, dict(t, caller=fn.id, block=b)),
                                    self.prog.fns[fid] if fid is not None and fid >= 0 else fn, args, t)
            elif fid is None or fid < 0:
                outs = self.indirect(s, fn, fr, t, args)
            else:
                outs = self.call(s, fid, args, dict(t, caller=fn.id, block=b))
            for o in outs:
                if o.kind == "ret":
                    if t.get("to") is None:
                        continue
                    s2 = o.st
                    try:
                        self.assign(s2, fr, t["dest"], o.val)
                    except (Unsupported, Infeasible, Split) as e:
                        s2.note("call result: %s" % e)
                        out.append(('out', s2, Out("stuck", s2, None, (str(e), t.get("sp")))))
                        continue
                    out.append(('go', s2, t["to"]))
                else:
                    if o.kind == "panic" and (o.info is None or len(o.info) < 4):
                        o.info = (o.info[0] if o.info else "panic", t.get("sp"), fn.id, b)
                    out.append(('out', o.st, o))
        return out

    def indirect(self, s, fn, fr, t, args):
        try:
            f = self.operand(s, fr, t["f"])
        except Exception:
            f = None
        if isinstance(f, ObjV) and f.kind == "fn":
            return self.call(s, f.p[0], args, dict(t, caller=fn.id))
        s = s.copy()
        s.note("indirect call")
        return [Out("stuck", s, None, ("indirect call", t.get("sp")))]

    def call_fn_trait(self, st, args, site):
        tup = args[1] if len(args) > 1 else UNIT
        if isinstance(tup, SymV):
            tup = self.expand(tup)
        return self.call_value(st, args[0], list(tup.fs), site)

    def call_value(self, st, f, args, site=None):
        """Calls a closure / function value with untupled args."""
        selfref = None
        if isinstance(f, Ptr):
            selfref = f
            v = self.load(st, f.cell, f.path)
            while isinstance(v, Ptr):
                selfref = v
                v = self.load(st, v.cell, v.path)
        else:
            v = f
        if isinstance(v, ObjV) and v.kind == "fn":
            return self.call(st, v.p[0], args, site)
        if isinstance(v, SymV) and v.ty is not None:
            v = self.expand(v)
        if isinstance(v, Agg) and v.ty is not None:
            t = self.types[v.ty]
            if t["k"] == "closure":
                body = None
                for kk in ("ref", "mut", "once"):
                    i = t["inst"].get(kk)
                    if i is not None and self.prog.fns[i].kind == "item" and self.prog.fns[i].has_body():
                        body = self.prog.fns[i]
                        break
                if body is None:
                    raise Unsupported("closure body")
                a0 = v
                lt = self.types[body.locals[1]]
                if lt["k"] == "ref":
                    if selfref is None:
                        n = st.fresh('tmpc')
                        st.cells[('tmp', n)] = v
                        selfref = Ptr(('tmp', n))
                    a0 = selfref
                return self.call(st, body.id, [a0] + list(args), site)
            if t["k"] == "fndef":
                return self.call(st, t["fn"], args, site)
        raise Unsupported("call of %r" % (v,))

    # ------------------------------------------------------------------ loops
    def loop(self, fn, fr, head, st0):
        act = st0.fresh(('loop', fn.id, head))
        uid = (fn.id, head, act, fr)
        body = fn.loops[head]
        parts = {}
        order = []
        rec = LoopRec()
        rec.uid, rec.fn, rec.head, rec.parts = uid, fn, head, order
        live = None

        def get_part(key):
            return parts.get(key)

        alive = mir.keep_at(fn, head)

        def prune(s):
            """Drops the cells of this frame's dead locals."""
            if alive is not None:
                s.cells = {c: v for c, v in s.cells.items() if not (c[0] == 'L' and c[1] == fr and c[2] not in alive)}
            return s

        st0 = prune(st0.copy())
        if self.peel is not None:
            return self.peeled(fn, fr, head, body, st0, prune)
        rec.entry = st0
        exact = self.unrolled(fn, fr, head, body, st0, prune)
        if exact is not None:
            return exact

        def incoming(s, origin):
            """Merges state s into its partition; returns the partition."""
            key = self.shape(s, st0)
            p = parts.get(key)
            if len(s.log) != len(st0.log) and LOOP_NOTE not in s.notes:
                s.notes = s.notes | frozenset([LOOP_NOTE])
            if p is None:
                if len(parts) >= 24:
                    raise TooComplex("loop partitions in %s" % fn.name)
                p = Part()
                p.key = key
                p.idx = len(order)
                p.uid = uid
                p.rec = rec
                p.phis = {}
                p.invs = []
                p.cands = None
                p.inits = []
                p.dirty = True
                p.results = []
                p.origin = origin
                h = st0.copy()
                cells = {}
                for c, v in s.cells.items():
                    cells[c] = self.abstract(p, v, (c,)) if origin is not None else v
                h.cells = cells
                h.notes = h.notes | s.notes
                p.head = h
                parts[key] = p
                order.append(p)
            else:
                ch = False
                cells = {}
                for c, v in p.head.cells.items():
                    w = s.cells.get(c)
                    if w is None:
                        ch = True
                        continue
                    if v is w or v == w:
                        cells[c] = v
                        continue
                    j = self.join(p, v, w, (c,), s)
                    if j is not v and j != v:
                        ch = True
                    cells[c] = j
                if ch:
                    p.head.cells = cells
                    p.dirty = True
                if not (s.notes <= p.head.notes):
                    p.head.notes = p.head.notes | s.notes
            return p

        incoming(st0, None)
        rounds = 0
        while True:
            # 1. shape fixpoint
            while any(p.dirty for p in order):
                rounds += 1
                if rounds > 40:
                    raise TooComplex("loop fixpoint in %s" % fn.name)
                for p in list(order):
                    if not p.dirty:
                        continue
                    p.dirty = False
                    p.invs = []
                    self.run_part(fn, fr, head, body, p)
                    for r in p.results:
                        if r[0] == 'back':
                            incoming(r[1], p)
            # 2. candidate invariants
            for p in order:
                ins = [(None, st0)] if self.shape(st0, st0) == p.key else []
                for q in order:
                    for r in q.results:
                        if r[0] == 'back' and self.shape(r[1], st0) == p.key:
                            ins.append((q, r[1]))
                p.inits = ins
                p.invs = self.candidates(p, ins, st0)
            # 3. Houdini
            it = 0
            again = False
            while True:
                it += 1
                if it > 25:
                    raise TooComplex("invariants in %s" % fn.name)
                for p in order:
                    self.run_part(fn, fr, head, body, p)
                # new shapes or cell changes may appear with fewer/more facts: only fewer states now
                changed = False
                for q in [None] + order:
                    states = [st0] if q is None else [r[1] for r in q.results if r[0] == 'back']
                    for s in states:
                        key = self.shape(s, st0)
                        p = parts.get(key)
                        if p is None:
                            p = incoming(s, q)
                            again = True
                            continue
                        before = p.dirty
                        p2 = incoming(s, q)
                        if p2.dirty and not before:
                            again = True
                        keep = []
                        sub = self.phi_values(p, s)
                        for cand in p.invs:
                            if sub is not None and self.holds(s, cand, sub):
                                keep.append(cand)
                            else:
                                changed = True
                        p.invs = keep
                if again:
                    break
                if not changed:
                    break
            if again:
                continue
            break
        if self.record_on:
            self.records.append(rec)
        out = []
        for p in order:
            for r in p.results:
                if r[0] == 'back':
                    continue
                out.append(r)
        return out

    def peeled(self, fn, fr, head, body, st0, prune):
        """The first iterations of the loop kept apart (no join), later ones cut off: every state is
        exact, so this finds counterexamples; it proves nothing about the iterations cut off."""
        out = []
        work = [(st0, None)]
        for k in range(self.peel + 1):
            nxt = []
            for item in work:
                for r in self.run(fn, fr, head, item[0].copy(), head, body):
                    if r[0] == 'back':
                        nxt.append((prune(r[1]), item))
                    else:
                        out.append(r)
            if len(nxt) > self.peel_width:
                self.cuts += len(nxt) - self.peel_width
                step = len(nxt) / float(self.peel_width)
                nxt = [nxt[int(i * step)] for i in range(self.peel_width)]
            work = nxt
        left = []
        for s, before in work:
            last = before[0] if before is not None else None
            # a state that comes back to the loop head unchanged goes round for ever
            n = 0
            p = before
            while p is not None and n < 4:
                if same_state(s, p[0]):
                    out.append(('out', s, Out("loop", s, None, ("loop never ends", fn.blocks[head]["t"].get("sp"), fn.id, head))))
                    break
                p = p[1]
                n += 1
            else:
                if self.recurs(fn, fr, head, body, s, last):
                    out.append(('out', s, Out("loop", s, None, ("loop never ends", fn.blocks[head]["t"].get("sp"), fn.id, head))))
                    continue
                left.append(s)
        # a few more rounds for the few paths left (a loop over some other list known item by item)
        steps = self.steps
        more = 40 if len(left) <= 4 else 0
        while left and more and len(left) <= 4 and self.steps - steps < 20000:
            more -= 1
            nxt = []
            for s in left:
                for r in self.run(fn, fr, head, s.copy(), head, body):
                    if r[0] == 'back':
                        nxt.append(prune(r[1]))
                    else:
                        out.append(r)
            left = nxt
        self.cuts += len(left)
        return out

    def unrolled(self, fn, fr, head, body, st0, prune):
        """The iterations kept apart while few paths go round; None unless all of them end (a loop over a
        list that is known item by item does)."""
        if self.unrolling >= 2:
            return None
        steps = self.steps
        out = []
        work = [st0]
        self.unrolling += 1
        most, cap = (130, 40000) if self.unrolling == 1 else (20, 4000)
        try:
            for k in range(most):
                nxt = []
                for s in work:
                    for r in self.run(fn, fr, head, s.copy(), head, body):
                        if r[0] == 'back':
                            nxt.append(prune(r[1]))
                        else:
                            out.append(r)
                if not nxt:
                    return out
                if len(nxt) > 4 or self.steps - steps > cap:
                    return None
                work = nxt
        except (TooComplex, Unsupported):
            pass
        finally:
            self.unrolling -= 1
        return None

    def recurs(self, fn, fr, head, body, s, before):
        """Does the loop go round for ever from s?  The values that changed in the last iteration (counters,
        growing lists) are forgotten; if from there every path leads back to the loop head and nothing else
        changes, it does: a recurrent set."""
        if before is None or s.cells.keys() != before.cells.keys():
            return False
        h = s.copy()
        marks = []

        def forget(a, b):
            if a == b:
                return a
            if isinstance(a, Lin) and isinstance(b, Lin):
                x = atom(('fresh', 'recur', uid()), a.c if a.is_const() and b.is_const() and a.c > b.c else 0, 1 << 62)
                marks.append(L(x))
                return L(x)
            if isinstance(a, SeqV) and isinstance(b, SeqV):
                v = sym_seq(('fresh', 'recur', uid()), None)
                marks.append(v)
                return v
            if isinstance(a, Agg) and isinstance(b, Agg) and a.ty == b.ty and a.var == b.var and len(a.fs) == len(b.fs):
                return Agg(a.ty, a.var, [forget(x, y) for x, y in zip(a.fs, b.fs)])
            raise Unsupported("recurrence")

        def fits(a, b):
            if any(a is m for m in marks):
                return type(a) is type(b) and (not isinstance(a, Lin) or t.decide(p_le(a, b)) is True)
            if isinstance(a, Agg) and isinstance(b, Agg) and a.ty == b.ty and a.var == b.var and len(a.fs) == len(b.fs):
                return all(fits(x, y) for x, y in zip(a.fs, b.fs))
            return a == b
        try:
            for c in s.cells:
                h.cells[c] = forget(s.cells[c], before.cells[c])
            ref = dict(h.cells)
            known = (dict(h.rng), dict(h.lang), list(h.ineqs), set(h.nes), set(h.seqs), dict(h.sub))
            rs = self.run(fn, fr, head, h, head, body)
        except (Unsupported, TooComplex, Split):
            return False
        if len(rs) != 1 or rs[0][0] != 'back':
            return False
        t = rs[0][1]
        if (dict(t.rng), dict(t.lang), list(t.ineqs), set(t.nes), set(t.seqs), dict(t.sub)) != known:
            return False
        return all(c in t.cells and fits(v, t.cells[c]) for c, v in ref.items())

    def run_part(self, fn, fr, head, body, p):
        h = p.head.copy()
        h.cnt = dict(h.cnt)
        h.tags = h.tags + ((p.rec, p),)
        ok = True
        for c in p.invs:
            try:
                if not h.assume(c):
                    ok = False
                    break
            except Split:
                pass
        if not ok:
            p.results = []
            return
        p.results = self.run(fn, fr, head, h, head, body)
        keep = mir.keep_at(fn, head)
        if keep is not None:
            for r in p.results:
                if r[0] == 'back':
                    r[1].cells = {c: v for c, v in r[1].cells.items() if not (c[0] == 'L' and c[1] == fr and c[2] not in keep)}

    def shape(self, s, st0):
        """Partition key: enum variants and constant booleans in the surviving cells."""
        out = []
        cells0 = st0.cells
        for c in cells0:
            v = s.cells.get(c)
            if v is None:
                continue
            w = cells0[c]
            if v is w:
                continue
            k = self.vshape(v, w)
            if k is not None:
                out.append((c, k))
        out.sort(key=lambda x: repr(x[0]))
        return tuple(out)

    def vshape(self, v, w):
        """Difference in variant structure from the entry value w (None when the same)."""
        if v is w:
            return None
        if isinstance(v, Agg):
            if isinstance(w, Agg) and v.var == w.var and len(v.fs) == len(w.fs):
                ks = []
                for i, (a, b) in enumerate(zip(v.fs, w.fs)):
                    k = self.vshape(a, b)
                    if k is not None:
                        ks.append((i, k))
                return tuple(ks) if ks else None
            if v.var is None:
                return None
            return ('var', v.var, tuple(self.vshape(a, None) for a in v.fs))
        if isinstance(v, (IterV, ObjV)) and isinstance(w, (IterV, ObjV, type(None))):
            wp = w.p if w is not None and type(v) is type(w) and v.kind == w.kind and len(v.p) == len(w.p) else (None,) * len(v.p)
            ks = []
            for j, (a, b) in enumerate(zip(v.p, wp)):
                if isinstance(a, (Agg, IterV, ObjV, BoxV)):
                    k = self.vshape(a, b)
                    if k is not None:
                        ks.append((j, k))
            return tuple(ks) if ks else None
        if isinstance(v, BoxV):
            return self.vshape(v.v, w.v if isinstance(w, BoxV) else None)
        if v is TRUE or v is FALSE:
            if v is w:
                return None
            return v[0]
        if isinstance(v, SymV) and v.ty is not None and self.types[v.ty]["k"] == "enum" and isinstance(w, Agg):
            return 'sym'
        return None

    # phi symbols
    def phi_lin(self, p, pos):
        a = atom(('phi', p.uid + (p.idx,), pos), -INF, INF)
        p.phis[a] = pos
        return L(a)

    def unstable(self, p, t):
        """Does the term mention a phi of this loop or something created inside an iteration?"""
        u = p.uid
        return mentions_phi(t, u)

    def abstract(self, p, v, pos):
        """Value of a new partition first reached from a back edge: everything that depends on
        iteration-local symbols becomes a phi of this partition."""
        if isinstance(v, Lin):
            if any(self.unstable(p, a.key) for a in v.atoms()):
                return self.phi_lin(p, pos)
            return v
        if isinstance(v, Agg):
            fs = [self.abstract(p, x, pos + (i,)) for i, x in enumerate(v.fs)]
            return Agg(v.ty, v.var, fs)
        if is_pred(v):
            if v is TRUE or v is FALSE:
                return v
            if self.unstable(p, v):
                return self.phi_bool(p, pos)
            return v
        if isinstance(v, (IterV, ObjV)):
            return type(v)(v.kind, *[self.abstract(p, x, pos + (i,)) if not isinstance(x, (str, int, type(None))) else x for i, x in enumerate(v.p)])
        if isinstance(v, BoxV):
            return BoxV(self.abstract(p, v.v, pos + ('b',)))
        if not self.unstable(p, v):
            return v
        if isinstance(v, SymV):
            return SymV(self.abs_term(p, v.t, pos), v.ty)
        if isinstance(v, StrV):
            return StrV(self.abs_term(p, v.t, pos))
        if isinstance(v, Ptr):
            return Ptr(self.abs_term(p, v.cell, pos + ('c',)), self.abs_term(p, v.path, pos + ('p',)))
        if isinstance(v, SeqV):
            return self.phi_seq(p, v, v, pos)
        if isinstance(v, MapV):
            return MapV(('phiv', p.uid + (p.idx,), pos), (), v.vty)
        return v

    def abs_term(self, p, t, pos):
        if isinstance(t, Lin):
            if any(self.unstable(p, a.key) for a in t.atoms()):
                return self.phi_lin(p, pos)
            return t
        if isinstance(t, tuple) and not is_pred(t):
            if t and t[0] in ('phi', 'phiv') :
                return ('phiv', p.uid + (p.idx,), pos) if mentions_phi(t, p.uid) else t
            return tuple(self.abs_term(p, x, pos + (i,)) for i, x in enumerate(t))
        if isinstance(t, (SymV, StrV, Agg, SeqV, Ptr, MapV, IterV, ObjV, BoxV)):
            return self.abstract(p, t, pos)
        return t

    def phi_bool(self, p, pos):
        a = atom(('phi', p.uid + (p.idx,), pos), 0, 1)
        p.phis[a] = pos
        return ('eq', Lin(-1, ((a, 1),)))

    def phi_seq(self, p, v, w, pos):
        ety = None
        for q in (v, w):
            for s in q.segs:
                if s[0] == 's' and s[4] is not None:
                    ety = s[4]
                elif s[0] == 'b':
                    ety = self.u8_ty()
                elif s[0] == 'e' and ety is None:
                    ety = self.value_ty(s[1])
        term = ('phiv', p.uid + (p.idx,), pos)
        r = sym_seq(term, ety)
        p.phis[atom(('len', term), 0, ISIZE)] = pos + ('len',)
        return r

    def u8_ty(self):
        if not hasattr(self, "_u8"):
            self._u8 = None
            for i, t in enumerate(self.types):
                if t["k"] == "uint" and t["bits"] == 8:
                    self._u8 = i
        return self._u8

    def value_ty(self, v):
        if isinstance(v, (SymV, Agg)):
            return v.ty
        return None

    def join(self, p, v, w, pos, sw):
        """Join of the head value v with the incoming value w."""
        if v is w or v == w:
            return v
        if isinstance(v, Lin) and isinstance(w, Lin):
            a = v.single()
            if a is not None and a.key[0] == 'phi' and a.key[1] == p.uid + (p.idx,) and a.key[2] == pos:
                return v
            if sw.norm(w) == sw.norm(v) and not self.unstable(p, w):
                return v
            return self.phi_lin(p, pos)
        if is_pred(v) and is_pred(w):
            if v[0] == 'eq' and v[1].t and v[1].t[0][0].key[0] == 'phi' and v[1].t[0][0].key[1] == p.uid + (p.idx,) and v[1].t[0][0].key[2] == pos:
                return v
            return self.phi_bool(p, pos)
        if isinstance(v, Agg) and isinstance(w, Agg) and v.var == w.var and len(v.fs) == len(w.fs):
            return Agg(v.ty if v.ty is not None else w.ty, v.var, [self.join(p, a, b, pos + (i,), sw) for i, (a, b) in enumerate(zip(v.fs, w.fs))])
        if isinstance(v, (IterV, ObjV)) and type(v) is type(w) and v.kind == w.kind and len(v.p) == len(w.p):
            out = []
            for i, (a, b) in enumerate(zip(v.p, w.p)):
                if a == b:
                    out.append(a)
                elif isinstance(a, (str, int, type(None))) or isinstance(b, (str, int, type(None))):
                    return SymV(('phiv', p.uid + (p.idx,), pos), None)
                else:
                    out.append(self.join(p, a, b, pos + (i,), sw))
            return type(v)(v.kind, *out)
        if isinstance(v, BoxV) and isinstance(w, BoxV):
            return BoxV(self.join(p, v.v, w.v, pos + ('b',), sw))
        if isinstance(v, SeqV) and isinstance(w, SeqV):
            if len(v.segs) == 1 and v.segs[0][0] == 's' and not w.segs:
                s = v.segs[0]
                w = SeqV([('s', s[1], s[3], s[3], s[4])])
            if len(v.segs) == 1 and v.segs[0][0] == 's' and v.segs[0][1] == ('phiv', p.uid + (p.idx,), pos):
                return v
            if len(v.segs) == 1 and len(w.segs) == 1 and v.segs[0][0] == 's' and w.segs[0][0] == 's' and v.segs[0][1] == w.segs[0][1]:
                s, r = v.segs[0], w.segs[0]
                return SeqV([('s', s[1], self.join(p, s[2], r[2], pos + ('lo',), sw), self.join(p, s[3], r[3], pos + ('hi',), sw), s[4])])
            return self.phi_seq(p, v, w, pos)
        if isinstance(v, MapV) and isinstance(w, MapV):
            return MapV(('phiv', p.uid + (p.idx,), pos), (), v.vty if v.vty is not None else w.vty)
        if isinstance(v, StrV) and isinstance(w, StrV):
            t = self.join_term(p, v.t, w.t, pos, sw)
            if t is None:
                term = ('phiv', p.uid + (p.idx,), pos)
                p.phis[atom(('len', ('sym', term)), 0, ISIZE)] = pos + ('len',)
                return StrV(('sym', term))
            return StrV(t)
        if isinstance(v, SymV) and isinstance(w, SymV):
            t = self.join_term(p, v.t, w.t, pos, sw)
            if t is not None:
                return SymV(t, v.ty)
            return SymV(('phiv', p.uid + (p.idx,), pos), v.ty if v.ty is not None else w.ty)
        if isinstance(v, Ptr) and isinstance(w, Ptr):
            c = self.join_term(p, v.cell, w.cell, pos + ('c',), sw)
            q = self.join_term(p, v.path, w.path, pos + ('p',), sw)
            if c is not None and q is not None:
                return Ptr(c, q)
            return SymV(('phiv', p.uid + (p.idx,), pos), None)
        ty = self.value_ty(v)
        if ty is None:
            ty = self.value_ty(w)
        return SymV(('phiv', p.uid + (p.idx,), pos), ty)

    def join_term(self, p, a, b, pos, sw):
        if a == b:
            return a
        if isinstance(a, Lin) and isinstance(b, Lin):
            return self.join(p, a, b, pos, sw)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and not is_pred(a):
            out = []
            for i, (x, y) in enumerate(zip(a, b)):
                j = self.join_term(p, x, y, pos + (i,), sw)
                if j is None:
                    return None
                out.append(j)
            return tuple(out)
        if isinstance(a, (SymV, StrV, Agg, SeqV, Ptr)) and type(a) is type(b):
            return self.join(p, a, b, pos, sw)
        return None

    # invariants
    def phi_values(self, p, s):
        """{phi atom: value in state s} by walking head and state values in parallel."""
        sub = {}
        for c, v in p.head.cells.items():
            w = s.cells.get(c)
            if w is None:
                return None
            self.match(p, v, w, sub)
        return sub

    def match(self, p, v, w, sub):
        if isinstance(v, Lin):
            a = v.single()
            if a is not None and a in p.phis and isinstance(w, Lin):
                sub.setdefault(a, w)
            return
        if is_pred(v):
            if v[0] == 'eq' and len(v[1].t) == 1 and v[1].t[0][0] in p.phis and is_pred(w):
                sub.setdefault(v[1].t[0][0], w)
            return
        if v is w:
            if not p.phis:
                return
        if isinstance(v, Agg) and isinstance(w, Agg):
            for a, b in zip(v.fs, w.fs):
                self.match(p, a, b, sub)
        elif isinstance(v, (IterV, ObjV)) and isinstance(w, (IterV, ObjV)):
            for a, b in zip(v.p, w.p):
                self.match(p, a, b, sub)
        elif isinstance(v, BoxV) and isinstance(w, BoxV):
            self.match(p, v.v, w.v, sub)
        elif isinstance(v, SeqV) and isinstance(w, SeqV):
            if len(v.segs) == 1 and v.segs[0][0] == 's':
                s = v.segs[0]
                if s[1][0] == 'phiv':
                    la = atom(('len', s[1]), 0, ISIZE)
                    if la in p.phis:
                        sub.setdefault(la, seq_len(w))
                if len(w.segs) == 1 and w.segs[0][0] == 's':
                    self.match(p, s[2], w.segs[0][2], sub)
                    self.match(p, s[3], w.segs[0][3], sub)
        elif isinstance(v, StrV) and isinstance(w, StrV):
            if v.t[0] == 'sym' and isinstance(v.t[1], tuple) and v.t[1][0] == 'phiv':
                la = atom(('len', v.t), 0, ISIZE)
                if la in p.phis:
                    sub.setdefault(la, slen(w.t))
            else:
                self.match_term(p, v.t, w.t, sub)
        elif isinstance(v, SymV) and isinstance(w, SymV):
            self.match_term(p, v.t, w.t, sub)
        elif isinstance(v, Ptr) and isinstance(w, Ptr):
            self.match_term(p, v.cell, w.cell, sub)
            self.match_term(p, v.path, w.path, sub)

    def match_term(self, p, a, b, sub):
        if isinstance(a, tuple) and isinstance(b, tuple) and not is_pred(a):
            for x, y in zip(a, b):
                self.match_term(p, x, y, sub)
        else:
            self.match(p, a, b, sub)

    def holds(self, s, cand, sub):
        """Does candidate invariant cand hold in state s with phis replaced by their values there?"""
        try:
            q = subst_pred(cand, sub)
        except Unsupported:
            return False
        if q is None:
            return False
        return s.decide(q) is True

    def candidates(self, p, ins, st0):
        phis = list(p.phis)
        if not phis or not ins:
            return []
        subs = [(q, s, self.phi_values(p, s)) for q, s in ins]
        subs = [x for x in subs if x[2] is not None]
        if not subs:
            return []
        cands = []
        first = subs[0]
        ints = [a for a in phis if all(isinstance(x[2].get(a), Lin) for x in subs)]
        # ranges
        for a in ints:
            los, his = [], []
            for q, s, sub in subs:
                lo, hi = s.bounds(s.norm(sub[a]))
                los.append(lo)
                his.append(hi)
            lo0, hi0 = first[1].bounds(first[1].norm(first[2][a]))
            if first[0] is not None:
                lo0, hi0 = 1, 0
            for c in sorted(set([lo0, 0, 1]), reverse=True):
                if c <= lo0 and c > -INF:
                    cands.append(p_le(K(c), L(a)))
            for c in sorted(set([hi0, 1, 15, 16, 255, 4095, 4096, 65535, (1 << 32) - 1, ISIZE, (1 << 64) - 1])):
                if c >= hi0:
                    cands.append(p_le(L(a), K(c)))
        # relation to the entry value
        for a in ints:
            e = first[2][a]
            if first[0] is None and not e.is_const():
                cands.append(p_le(e, L(a)))
                cands.append(p_le(L(a), e))
        # equal differences
        for i in range(len(ints)):
            for j in range(i):
                a, b = ints[i], ints[j]
                d = first[1].norm(first[2][a] - first[2][b])
                if not mentions_phi_lin(d, p.uid):
                    cands.append(p_eq(L(a) - L(b), d))
                d = first[1].norm(first[2][a] + first[2][b])
                if not mentions_phi_lin(d, p.uid):
                    cands.append(p_eq(L(a) + L(b), d))
        # facts of the incoming states, rewritten over the new phi values
        seen = set()
        for q, s, sub in subs:
            facts = list(s.ineqs)
            for at, r in s.rng.items():
                if at.key[0] in ('phi', 'len'):
                    if r[-1][1] < INF:
                        facts.append(L(at) - r[-1][1])
                    if r[0][0] > -INF:
                        facts.append(K(r[0][0]) - L(at))
            for f in facts:
                for a in ints:
                    e = s.norm(sub[a])
                    for at, k in e.t:
                        if abs(k) == 1:
                            kf = f.coef(at)
                            if kf:
                                # at = k*(phi - rest)
                                rest = lin_comb(e, 1, L(at), -k)
                                at_expr = (L(a) - rest).scale(k)
                                g = lin_comb(lin_comb(f, 1, L(at), -kf), 1, at_expr, kf)
                                # express other iteration-local symbols too, by matching their images
                                g = self.rewrite_over(p, g, s, sub, ints)
                                if g is None or g in seen:
                                    continue
                                seen.add(g)
                                if len(seen) < 120:
                                    cands.append(('le', g) if g.t else TRUE)
        out = []
        done = set()
        for c in cands:
            if c is TRUE or c is FALSE or c in done:
                continue
            done.add(c)
            if all(self.holds(s, c, sub) for q, s, sub in subs if q is None):
                out.append(c)
        # keep only the tightest constant bounds to stay small
        return out

    def rewrite_over(self, p, g, s, sub, ints):
        """Replaces old phi atoms in g by new ones when some phi's new value is old phi + const."""
        new = set(ints)
        for _ in range(4):
            bad = [a for a in g.atoms() if mentions_phi(a.key, p.uid) and a not in new]
            olds = bad
            if not olds:
                return g
            o = olds[0]
            done = False
            for a in ints:
                e = s.norm(sub[a])
                k = e.coef(o)
                if abs(k) == 1:
                    rest = lin_comb(e, 1, L(o), -k)
                    if any(mentions_phi(x.key, p.uid) for x in rest.atoms()):
                        continue
                    kf = g.coef(o)
                    g = lin_comb(lin_comb(g, 1, L(o), -kf), 1, (L(a) - rest).scale(k), kf)
                    done = True
                    break
            if not done:
                return None
        return None


def mentions_phi(t, uid):
    if isinstance(t, tuple):
        if len(t) >= 2 and t[0] in ('phi', 'phiv') and isinstance(t[1], tuple) and t[1][:len(uid)] == uid:
            return True
        for x in t:
            if mentions_phi(x, uid):
                return True
        return False
    if isinstance(t, Lin):
        return any(mentions_phi(a.key, uid) for a, _ in t.t)
    if isinstance(t, dom.Atom):
        return mentions_phi(t.key, uid)
    if isinstance(t, (SymV, StrV)):
        return mentions_phi(t.t, uid)
    if isinstance(t, Agg):
        return any(mentions_phi(x, uid) for x in t.fs)
    if isinstance(t, SeqV):
        return any(mentions_phi(x, uid) for x in t.segs)
    if isinstance(t, Ptr):
        return mentions_phi(t.cell, uid) or mentions_phi(t.path, uid)
    if isinstance(t, MapV):
        return mentions_phi(t.base, uid) or mentions_phi(t.ins, uid)
    if isinstance(t, (IterV, ObjV)):
        return mentions_phi(t.p, uid)
    if isinstance(t, BoxV):
        return mentions_phi(t.v, uid)
    return False


def mentions_phi_lin(x, uid):
    return mentions_phi(x, uid)


def subst_lin(x, sub):
    r = Lin(x.c)
    for a, k in x.t:
        v = sub.get(a)
        if v is None:
            r = lin_comb(r, 1, L(a), k)
        elif isinstance(v, Lin):
            r = lin_comb(r, 1, v, k)
        else:
            return None
    return r


def subst_pred(p, sub):
    k = p[0]
    if k in ('T', 'F'):
        return p
    if k in ('le', 'eq', 'ne'):
        x = subst_lin(p[1], sub)
        if x is None:
            return None
        if x.is_const():
            ok = {'le': x.c <= 0, 'eq': x.c == 0, 'ne': x.c != 0}[k]
            return TRUE if ok else FALSE
        return (k, x)
    if k in ('and', 'or'):
        a, b = subst_pred(p[1], sub), subst_pred(p[2], sub)
        if a is None or b is None:
            return None
        return (k, a, b)
    return p
