"""Shared machinery of the obligations: program access, comparison of what the analysis derived
for the code with what the specification derives on the same abstract state, and the search for a
concrete valuation of a path's facts (which turns a mismatch into an exact report)."""
import random
import re
import time
from dom import *
import dom
import rx
import mir
import interp
import models
from interp import Interp, Out, TooComplex, mentions_phi

IDENT = rx.R('[_a-zA-Z][_a-zA-Z0-9]*')


class Missing(Exception):
    """A function or type that the repository's own tests name is not in the program."""


class Finding(object):
    """One reported construct."""

    def __init__(self, ob, cls, what, where, witness=None):
        self.ob = ob            # obligation id
        self.cls = cls          # class of breakage (maps to properties)
        self.what = what
        self.where = where
        self.witness = witness

    def key(self):
        return "%s|%s|%s" % (self.ob, self.cls, self.what)

    def as_json(self):
        return {"obligation": self.ob, "class": self.cls, "what": self.what, "where": self.where,
                "witness": self.witness}


class ObResult(object):
    def __init__(self, ob):
        self.ob = ob
        self.total = 0
        self.discharged = 0
        self.findings = []
        self.undecided = []
        self.analysed = {}
        self.fns = set()
        self.samples = []
        self.wall = 0.0

    def good(self, n=1):
        self.total += n
        self.discharged += n

    def bad(self, cls, what, where, witness=None):
        self.total += 1
        f = Finding(self.ob, cls, what, where, witness)
        if not any(g.key() == f.key() for g in self.findings):
            self.findings.append(f)

    def open(self, why, where=None):
        self.total += 1
        x = {"why": str(why)[:400], "where": where}
        if x not in self.undecided and len(self.undecided) < 60:
            self.undecided.append(x)

    def count(self, **kw):
        for k, v in kw.items():
            self.analysed[k] = self.analysed.get(k, 0) + v

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(str(s)[:300])


class Ctx(object):
    def __init__(self, prog, tier="quick"):
        self.prog = prog
        self.tier = tier
        self.models = models.Models()
        self.res = {}

    def interp(self):
        ip = Interp(self.prog, self.models)
        return ip

    # -- anchors
    def fn(self, suffix, need=True):
        """The unique local function whose path ends with suffix."""
        c = [f for f in self.prog.local_fns() if f.kind == "item" and f.has_body() and
             (f.name == suffix or f.name.endswith("::" + suffix)) and "{closure" not in f.name.split("::")[-1]]
        if not c:
            c = [f for f in self.prog.local_fns() if f.has_body() and strip_generics(f.name).endswith("::" + suffix)]
        if not c:
            if need:
                raise Missing(suffix)
            return None
        c.sort(key=lambda f: len(f.name))
        return c[0]

    def fns(self, suffix):
        return [f for f in self.prog.local_fns() if f.has_body() and
                (f.name.endswith("::" + suffix) or strip_generics(f.name).endswith("::" + suffix))]

    def ty(self, suffix, need=True):
        for i, t in enumerate(self.prog.types):
            if t["k"] in ("struct", "enum") and t["name"].endswith("::" + suffix) and "assembler" in t["name"]:
                return i
        if need:
            raise Missing(suffix)
        return None

    def variants(self, tyi):
        return {v["n"]: i for i, v in enumerate(self.prog.types[tyi]["variants"])}

    def where(self, fn, sp=None):
        sp = sp or fn.span
        return "%s (%s)" % (fn.name, span_str(sp))


def strip_generics(s):
    out = []
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    r = "".join(out).replace("::::", "::")
    return r[:-2] if r.endswith("::") else r


def span_str(sp):
    if not sp:
        return "?"
    if isinstance(sp, (list, tuple)):
        return "%s:%s" % (sp[0], sp[1])
    return str(sp)


# ---- languages --------------------------------------------------------------------------------
class Langs(object):
    """Language preconditions of the input strings of one analysis."""

    def __init__(self, f):
        self.f = f

    def __enter__(self):
        self.old = dom.DEFAULT_LANG[0]
        dom.DEFAULT_LANG[0] = self.f
        return self

    def __exit__(self, *a):
        dom.DEFAULT_LANG[0] = self.old


# ---- running a specification on a state -------------------------------------------------------
def fork(ip, st, f, limit=4000):
    """Runs f(state) splitting on undecided predicates; yields (state, value)."""
    work = [st]
    n = 0
    while work:
        s0 = work.pop()
        n += 1
        if n > limit:
            raise TooComplex("specification splits")
        s = s0.copy()
        try:
            yield s, f(s)
        except Split as e:
            for p in (e.pred, p_not(e.pred)):
                work.extend(ip.assume_multi(s0.copy(), p))
        except Infeasible:
            pass


def norm_val(st, v):
    if isinstance(v, Lin):
        return st.norm(v)
    if is_pred(v):
        d = st.decide(v)
        return TRUE if d is True else FALSE if d is False else v
    if isinstance(v, Agg):
        return Agg(v.ty, v.var, [norm_val(st, x) for x in v.fs])
    if isinstance(v, StrV):
        return StrV(norm_term(st, v.t))
    if isinstance(v, SymV):
        return SymV(norm_term(st, v.t), v.ty)
    if isinstance(v, SeqV):
        out = []
        for s in v.segs:
            if s[0] == 'e':
                out.append(('e', norm_val(st, s[1])))
            elif s[0] == 's':
                lo, hi = st.norm(s[2]), st.norm(s[3])
                if st.decide(p_eq(lo, hi)) is True:
                    continue
                if out and out[-1][0] == 's' and out[-1][1] == s[1] and out[-1][3] == lo:
                    out[-1] = ('s', s[1], out[-1][2], hi, s[4])
                    continue
                out.append(('s', norm_term(st, s[1]), lo, hi, s[4]))
            elif s[1][0] == 'lit':
                out.extend(('e', K(x)) for x in s[1][1].encode('utf-8'))
            else:
                out.append(('b', norm_term(st, s[1])))
        return SeqV(out)
    if isinstance(v, Ptr):
        return Ptr(norm_term(st, v.cell), norm_term(st, v.path))
    if isinstance(v, MapV):
        return MapV(norm_term(st, v.base), norm_term(st, v.ins), v.vty)
    if isinstance(v, BoxV):
        return BoxV(norm_val(st, v.v))
    if isinstance(v, (IterV, ObjV)):
        return type(v)(v.kind, *[norm_term(st, x) for x in v.p])
    return v


def norm_term(st, t):
    if isinstance(t, tuple) and not is_pred(t):
        if len(t) == 4 and t[0] == 'sub':
            return s_sub(norm_term(st, t[1]), st.norm(t[2]), st.norm(t[3]))
        if len(t) == 3 and t[0] == 'chr' and isinstance(t[1], Lin):
            c = st.norm(t[1])
            return ('lit', chr(c.c)) if c.is_const() else ('chr', c, t[2])
        if len(t) == 2 and t[0] == 'cat' and isinstance(t[1], tuple):
            return s_cat(*[norm_term(st, x) for x in t[1]])
        return tuple(norm_term(st, x) for x in t)
    if isinstance(t, (str, int, type(None), dom.Atom)):
        return t
    return norm_val(st, t)


def same(st, a, b):
    """Provable equality of two abstract values in st."""
    if a == b:
        return True
    if isinstance(a, Lin) and isinstance(b, Lin):
        if st.prove_eq0(a - b):
            return True
        lo, hi = st.bounds(st.norm(a))
        lo2, hi2 = st.bounds(st.norm(b))
        if lo >= 0 and lo2 >= 0 and max(hi, hi2) < (1 << 40):
            n = max(width(hi), width(hi2), 1)
            x, y = to_bits(st, a, n), to_bits(st, b, n)
            return x is not None and x == y
        return False
    if is_pred(a) and is_pred(b):
        x, y = st.decide(a), st.decide(b)
        if x is not None and x == y:
            return True
        return a == b
    if isinstance(a, Agg) and isinstance(b, Agg):
        return a.var == b.var and len(a.fs) == len(b.fs) and all(same(st, x, y) for x, y in zip(a.fs, b.fs))
    if isinstance(a, StrV) and isinstance(b, StrV):
        if norm_term(st, a.t) == norm_term(st, b.t):
            return True
        return st._decide_seq(a.t, b.t) is True
    if isinstance(a, BoxV) and isinstance(b, BoxV):
        return same(st, a.v, b.v)
    if isinstance(a, SeqV) and isinstance(b, SeqV):
        a, b = norm_val(st, a), norm_val(st, b)
        if a == b:
            return True
        if len(a.segs) == len(b.segs):
            for x, y in zip(a.segs, b.segs):
                if x[0] != y[0]:
                    return False
                if x[0] == 'e':
                    if not same(st, x[1], y[1]):
                        return False
                elif x[0] == 's':
                    if x[1] != y[1] or not same(st, x[2], y[2]) or not same(st, x[3], y[3]):
                        return False
                elif not same(st, StrV(x[1]), StrV(y[1])):
                    return False
            return True
        return False
    na, nb = norm_val(st, a), norm_val(st, b)
    return na == nb


# ---- exactness --------------------------------------------------------------------------------
INEXACT_TAGS = frozenset(("havoc", "unk", "call", "opq"))


def inexact(t, allow=()):
    """First reason why a term is not determined by the inputs, or None."""
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            if t[0] in INEXACT_TAGS:
                return t[0]
            if t[0] in ('phi', 'phiv'):
                for a in allow:
                    if t == a:
                        return None
                return "loop value"
        for x in t:
            r = inexact(x, allow)
            if r:
                return r
        return None
    if isinstance(t, Lin):
        for a in t.atoms():
            r = inexact(a.key, allow)
            if r:
                return r
        return None
    if isinstance(t, dom.Atom):
        return inexact(t.key, allow)
    if isinstance(t, (SymV, StrV)):
        return inexact(t.t, allow)
    if isinstance(t, Agg):
        return inexact(t.fs, allow)
    if isinstance(t, SeqV):
        return inexact(t.segs, allow)
    if isinstance(t, Ptr):
        return inexact(t.cell, allow) or inexact(t.path, allow)
    if isinstance(t, MapV):
        return inexact(t.base, allow) or inexact(t.ins, allow)
    if isinstance(t, (IterV, ObjV)):
        return inexact(t.p, allow)
    if isinstance(t, BoxV):
        return inexact(t.v, allow)
    return None


def inexact_state(st, allow=()):
    if st.notes:
        return sorted(st.notes)[0]
    for a, r in st.rng.items():
        if r != ((a.lo, a.hi),):
            x = inexact(a.key, allow)
            if x:
                return x
    for f in list(st.ineqs) + list(st.nes):
        x = inexact(f, allow)
        if x:
            return x
    for b in st.lang:
        x = inexact(b, allow)
        if x:
            return x
    for q in st.seqs:
        x = inexact(q, allow)
        if x:
            return x
    return None


# ---- valuations -------------------------------------------------------------------------------
class Undef(Exception):
    pass


def fmt_number(t):
    """A formatted number or character whose text is known once the number is."""
    return t[0] == 'fmt' and isinstance(t[6], Lin) and t[1] in ("display", "x", "X", "b", "o", "char") and t[5] is None and (t[4] is None or isinstance(t[4], int))


def fmt_text(t, n):
    _, kind, zero, alt, w, p, _ = t
    if kind == "char":
        if w is not None or not 0 <= n < 0x110000 or 0xD800 <= n < 0xE000:
            raise Undef()
        return chr(n)
    if kind != "display" and n < 0:
        raise Undef()
    s = str(n) if kind == "display" else format(n, kind)
    pre = "0" + kind.lower() if alt and kind != "display" else ""
    if s[:1] == "-":
        pre, s = "-", s[1:]
    if zero and w:
        s = s.rjust(w - len(pre), "0")
    return (pre + s).rjust(w or 0)


def str_bases(t, acc):
    """Base string terms of a string term."""
    k = t[0]
    if k == 'lit':
        return
    if k in ('sub', 'lower', 'upper'):
        return str_bases(t[1], acc)
    if k == 'cat':
        for x in t[1]:
            str_bases(x, acc)
        return
    if k == 'fn':
        for x in t[2:]:
            str_bases(x, acc)
        return
    if k == 'chr':
        return
    if k == 'rec':
        collect(t[1], set(), acc)
        return
    if fmt_number(t):
        collect(t[6], set(), acc)
        return
    acc.add(t)


def ihex_text(c):
    """Text of a concrete record (A, variant, fields...); variants as in ihex::record::Record."""
    def num(x):
        if not isinstance(x, int) or isinstance(x, bool):
            raise Undef()
        return x
    var = c[1]
    if var == 0:
        off, val = c[2], c[3]
        if isinstance(off, tuple):
            off, val = val, off
        bs = [num(x) for x in val[1:]]
        raw = [len(bs), num(off) >> 8 & 255, num(off) & 255, 0] + bs
    elif var == 1:
        raw = [0, 0, 0, 1]
    else:
        raise Undef()
    raw.append(-sum(raw) & 255)
    return ":" + "".join("%02X" % (x & 255) for x in raw)


class Valuation(object):
    def __init__(self, st, ints, words):
        self.st = st
        self.ints = ints
        self.words = words
        self.cache = {}

    def lin(self, x):
        r = x.c
        for a, k in x.t:
            r += k * self.atom(a)
        return r

    def atom(self, a):
        if a in self.cache:
            return self.cache[a]
        r = self._atom(a)
        self.cache[a] = r
        return r

    def _atom(self, a):
        s = self.st.sub.get(a)
        if s is not None:
            return self.lin(s)
        return self.own(a)

    def own(self, a):
        """The value of a by its meaning, whatever the state says it equals."""
        k = a.key
        if k[0] == 'isbnd':
            b = self.str(k[1]).encode('utf-8')
            p = self.lin(k[2])
            return int(0 <= p <= len(b) and (p == len(b) or b[p] & 0xC0 != 0x80))
        if k[0] == 'bits':
            b = k[1]
            v = self.lin(b) if isinstance(b, Lin) else self.atom(b)
            return (v >> k[2]) & ((1 << (k[3] - k[2] + 1)) - 1)
        if k[0] == 'len' and is_strterm(k[1]):
            return len(self.str(k[1]).encode('utf-8'))
        if k[0] == 'nchars':
            return len(self.str(k[1]))
        if k[0] == 'utf8':
            return len(chr(self.atom(k[1]) if isinstance(k[1], dom.Atom) else self.lin(k[1])).encode('utf-8'))
        if k[0] == 'ch' and is_strterm(k[1]) and isinstance(k[2], Lin):
            b = self.str(k[1]).encode('utf-8')
            p = self.lin(k[2])
            if p >= len(b):
                raise Undef()
            try:
                return ord(b[p:].decode('utf-8')[0])
            except UnicodeDecodeError:
                raise Undef()
        if k[0] == 'byte' and is_strterm(k[1]):
            b = self.str(k[1]).encode('utf-8')
            p = self.lin(k[2])
            if p >= len(b):
                raise Undef()
            return b[p]
        if k[0] == 'num' and len(k) == 3:
            try:
                return int(self.str(k[2]), k[1])
            except ValueError:
                raise Undef()
        if k[0] == 'op':
            if k[1] == 'div':
                return self.lin(k[2]) // k[3]
            if k[1] == 'id':
                return self.lin(k[2])
            if k[1] == 'mul':
                return self.lin(k[2]) * self.lin(k[3])
            if k[1] == 'wrap':
                v, lo, hi = self.lin(k[2]), k[3], k[4]
                return (v - lo) % (hi - lo + 1) + lo
            if k[1] in ('BitAnd', 'BitOr', 'BitXor'):
                x, y = self.lin(k[2]), self.lin(k[3])
                return {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[k[1]]
            if k[1] == 'Shr':
                return self.lin(k[2]) >> k[3]
            raise Undef()
        if a in self.ints:
            return self.ints[a]
        raise Undef()

    def str(self, t):
        k = t[0]
        if k == 'lit':
            return t[1]
        if k == 'lower':
            return asc(self.str(t[1]), False)
        if k == 'upper':
            return asc(self.str(t[1]), True)
        if k == 'cat':
            return "".join(self.str(x) for x in t[1])
        if k == 'chr':
            return chr(self.lin(t[1]))
        if k == 'sub':
            b = self.str(t[1]).encode('utf-8')
            s, e = self.lin(t[2]), self.lin(t[3])
            if not (0 <= s <= e <= len(b)):
                raise Undef()
            try:
                return b[s:e].decode('utf-8')
            except UnicodeDecodeError:
                raise Undef()
        if k == 'rec':
            return ihex_text(self.conc(t[1]))
        if k == 'fn':
            return dom.STRFN[t[1]](*[self.str(x) for x in t[2:]])
        if fmt_number(t):
            return fmt_text(t, self.lin(t[6]))
        if t in self.words:
            return self.words[t]
        raise Undef()

    def ckey(self, k):
        if isinstance(k, tuple):
            if is_strterm(k) and (k[0] in ('sub', 'lower', 'upper', 'cat', 'chr', 'lit', 'fn') or fmt_number(k)):
                return ('lit', self.str(k))
            if is_strterm(k) and k in self.words:
                return ('lit', self.words[k])
            return tuple(self.ckey(x) for x in k)
        if isinstance(k, Lin):
            return self.lin(k)
        if isinstance(k, (StrV, Agg, SeqV, SymV)):
            return self.conc(k)
        return k

    def pred(self, p):
        k = p[0]
        if k == 'T':
            return True
        if k == 'F':
            return False
        if k == 'le':
            return self.lin(p[1]) <= 0
        if k == 'eq':
            return self.lin(p[1]) == 0
        if k == 'ne':
            return self.lin(p[1]) != 0
        if k == 'in':
            return rx.matches(p[2], self.str(p[1]))
        if k == 'seq':
            return self.str(p[1]) == self.str(p[2])
        if k == 'sne':
            return self.str(p[1]) != self.str(p[2])
        if k == 'and':
            return self.pred(p[1]) and self.pred(p[2])
        if k == 'or':
            return self.pred(p[1]) or self.pred(p[2])
        raise Undef()

    def conc(self, v):
        """Concrete rendering (hashable) of an abstract value; unknown parts stay symbolic."""
        if isinstance(v, Lin):
            try:
                return self.lin(v)
            except Undef:
                return ('?', v)
        if is_pred(v):
            try:
                return self.pred(v)
            except Undef:
                return ('?', v)
        if isinstance(v, StrV):
            try:
                return self.str(v.t)
            except Undef:
                return ('?', v.t)
        if isinstance(v, Agg):
            return ('A', v.var) + tuple(self.conc(x) for x in v.fs)
        if isinstance(v, SeqV):
            out = []
            for s in v.segs:
                if s[0] == 'e':
                    out.append(self.conc(s[1]))
                elif s[0] == 's':
                    lo, hi = self.conc(s[2]), self.conc(s[3])
                    if lo != hi:
                        out.append(('seg', s[1], lo, hi))
                else:
                    try:
                        out.extend(self.str(s[1]).encode('utf-8'))
                    except Undef:
                        out.append(('?', s[1]))
            return ('Q',) + tuple(out)
        if isinstance(v, BoxV):
            return self.conc(v.v)
        return v


def asc(s, up):
    return "".join((c.upper() if up else c.lower()) if ord(c) < 128 else c for c in s)


def is_strterm(t):
    return isinstance(t, tuple) and bool(t) and t[0] in ('sym', 'lit', 'sub', 'lower', 'upper', 'cat', 'chr', 'fmt', 'elem', 'fn', 'rec')


def collect(x, atoms, strs):
    """Atoms and base strings occurring in a term or value."""
    if isinstance(x, Lin):
        for a in x.atoms():
            collect(a, atoms, strs)
    elif isinstance(x, dom.Atom):
        if x in atoms:
            return
        atoms.add(x)
        k = x.key
        if k[0] in ('len', 'nchars', 'ch', 'byte', 'isbnd') and is_strterm(k[1]):
            str_bases(k[1], strs)
        if k[0] == 'num':
            str_bases(k[2], strs)
        if k[0] in ('bits', 'utf8', 'op', 'ch', 'byte', 'num', 'len', 'nchars', 'isbnd'):
            for y in k[1:]:
                collect(y, atoms, strs)
        elif compound(k):
            key_strs(k, atoms, strs)
    elif isinstance(x, StrV):
        str_bases(x.t, strs)
        collect(x.t, atoms, strs)
    elif isinstance(x, (Agg,)):
        for y in x.fs:
            collect(y, atoms, strs)
    elif isinstance(x, SeqV):
        for s in x.segs:
            if s[0] == 'e':
                collect(s[1], atoms, strs)
            elif s[0] == 's':
                collect(s[2], atoms, strs)
                collect(s[3], atoms, strs)
            else:
                str_bases(s[1], strs)
                collect(s[1], atoms, strs)
    elif isinstance(x, BoxV):
        collect(x.v, atoms, strs)
    elif is_pred(x):
        if x[0] in ('le', 'eq', 'ne'):
            collect(x[1], atoms, strs)
        elif x[0] in ('in',):
            str_bases(x[1], strs)
            collect(x[1], atoms, strs)
        elif x[0] in ('seq', 'sne'):
            str_bases(x[1], strs)
            str_bases(x[2], strs)
        elif x[0] in ('and', 'or'):
            collect(x[1], atoms, strs)
            collect(x[2], atoms, strs)
    elif isinstance(x, tuple):
        if x and x[0] == 'sub' and len(x) == 4:
            collect(x[2], atoms, strs)
            collect(x[3], atoms, strs)
            collect(x[1], atoms, strs)
        elif x and x[0] == 'cat' and isinstance(x[1], tuple):
            for y in x[1]:
                collect(y, atoms, strs)
        elif x and x[0] in ('rec', 'chr'):
            collect(x[1], atoms, strs)
        elif x and x[0] == 'fmt' and len(x) == 7:
            collect(x[6], atoms, strs)


def compound(k):
    if isinstance(k, tuple):
        return is_strterm(k) or any(compound(x) for x in k)
    return isinstance(k, (Lin, StrV))


def key_strs(k, atoms, strs):
    """String bases and index atoms inside the key of an uninterpreted atom."""
    if isinstance(k, tuple):
        if is_strterm(k):
            str_bases(k, strs)
            collect(k, atoms, strs)
            return
        for x in k:
            key_strs(x, atoms, strs)
    elif isinstance(k, (Lin, StrV, Agg, SeqV)):
        collect(k, atoms, strs)


DERIVED = ('bits', 'nchars', 'utf8', 'ch', 'byte', 'num', 'op', 'isbnd')


def is_derived(a):
    k = a.key
    return k[0] in DERIVED or (k[0] == 'len' and is_strterm(k[1]))


class Solver(object):
    """Local search for a concrete valuation satisfying all facts of a state."""

    def __init__(self, st, extra=(), seed=1):
        self.st = st
        self.rnd = random.Random(seed)
        atoms, strs = set(), set()
        for a in st.rng:
            collect(a, atoms, strs)
        for f in list(st.ineqs) + list(st.nes):
            collect(f, atoms, strs)
        for a, s in st.sub.items():
            collect(a, atoms, strs)
            collect(s, atoms, strs)
        for b in st.lang:
            str_bases(b, strs)
        for q in st.seqs:
            str_bases(q[1], strs)
            str_bases(q[2], strs)
        for x in extra:
            collect(x, atoms, strs)
        self.atoms = sorted(atoms, key=lambda a: a.uid)
        self.strs = sorted(strs, key=repr)
        self.free = [a for a in self.atoms if a not in st.sub and not is_derived(a)]
        self.cons = []
        for a in self.atoms:
            self.cons.append(('rng', a, st.range(a)))
            if a in st.sub and is_derived(a):
                self.cons.append(('own', a))
        for f in st.ineqs:
            self.cons.append(('le', f))
        for f in st.nes:
            self.cons.append(('ne', f))
        for q in st.seqs:
            self.cons.append(('s', q))
        for b, R in st.lang.items():
            if b[0] in ('fn', 'cat', 'chr') or fmt_number(b):
                self.cons.append(('lang', b, R))
        self.words0 = {}

    def words(self, k):
        """k-th choice of words for the string bases."""
        out = {}
        for i, b in enumerate(self.strs):
            lg = self.st.lang_of(b)
            alts = self.words0.get(b)
            if alts is None:
                alts = word_choices(lg)
                self.words0[b] = alts
            if not alts:
                return None
            out[b] = alts[(k if len(self.strs) == 1 else (k >> i) if k < 64 else self.rnd.randrange(64)) % len(alts)]
        return out

    def violated(self, v):
        bad = []
        undef = False
        for c in self.cons:
            try:
                if c[0] == 'rng':
                    ok = rs_has(c[2], v.atom(c[1]))
                elif c[0] == 'own':
                    ok = v.own(c[1]) == v.atom(c[1])
                elif c[0] == 'le':
                    ok = v.lin(c[1]) <= 0
                elif c[0] == 'ne':
                    ok = v.lin(c[1]) != 0
                elif c[0] == 'lang':
                    ok = rx.matches(c[2], v.str(c[1]))
                else:
                    ok = (v.str(c[1][1]) == v.str(c[1][2])) == (c[1][0] == '=')
            except Undef:
                undef = True
                continue
            if not ok:
                bad.append(c)
        if undef and not bad:
            return None
        if not bad:
            # congruence: equal arguments give equal values
            seen = {}
            for a in self.free:
                if compound(a.key):
                    try:
                        k = v.ckey(a.key)
                    except Undef:
                        return None
                    if seen.setdefault(k, v.ints[a]) != v.ints[a]:
                        bad.append(('cong', a, seen[k]))
        return bad

    def start(self, a, mode):
        r = self.st.range(a)
        bitcons = [(d.key[2], d.key[3], self.st.range(d)) for d in self.atoms if d.key[0] == 'bits' and
                   (d.key[1] is a or (isinstance(d.key[1], Lin) and d.key[1].single() is a))]
        if bitcons and r[-1][1] - r[0][0] <= 70000:
            ok = [x for lo, hi in r for x in range(lo, hi + 1)
                  if all(rs_has(rg, (x >> i) & ((1 << (j - i + 1)) - 1)) for i, j, rg in bitcons)]
            if not ok:
                return None
            return ok[0] if mode == 0 else ok[-1] if mode == 1 else self.rnd.choice(ok)
        if mode == 0:
            v = r[0][0]
            if v < -(1 << 70):
                v = 0 if rs_has(r, 0) else r[-1][1]
            return v
        if mode == 1:
            return min(r[-1][1], r[-1][0] + 300)
        lo, hi = self.rnd.choice(r)
        lo = max(lo, -(1 << 20))
        hi = min(hi, max(lo, 1 << 20))
        if self.rnd.random() < 0.6:
            hi = min(hi, lo + 16)
        return self.rnd.randint(lo, hi)

    def solve(self, tries=60):
        for k in range(tries):
            w = self.words(k)
            if w is None:
                return None
            self.w = w
            ints = {}
            ok = True
            for a in self.free:
                x = self.start(a, 0 if k == 0 else 1 if k == 1 else 2)
                if x is None:
                    return None
                ints[a] = x
            for step in range(80):
                v = Valuation(self.st, ints, w)
                bad = self.violated(v)
                if bad is None:
                    break
                if not bad:
                    yield v
                    break
                if not self.repair(v, ints, bad):
                    break

    def repair(self, v, ints, bad):
        c = self.rnd.choice(bad)
        if c[0] == 'own':
            a = c[1]
            if a.key[0] == 'len' and a.key[1] in self.w:
                return self.resize(a.key[1], v.atom(a))
            if a.key[0] == 'isbnd' and a.key[1] in self.w:
                return self.rebound(a.key[1], v.lin(a.key[2]), v.atom(a))
            return False
        if c[0] == 'rng':
            a = c[1]
            if a.key[0] == 'isbnd' and a.key[1] in self.w:
                return self.rebound(a.key[1], v.lin(a.key[2]), c[2][0][0])
            if a in self.st.sub:
                f = self.st.sub[a]
                x = v.lin(f)
                r = c[2]
                d = None
                if x < r[0][0]:
                    d = r[0][0] - x
                elif x > r[-1][1]:
                    d = r[-1][1] - x
                else:
                    d = 1
                return self.bump(f, d, ints)
            if a in ints:
                ints[a] = self.start(a, 2)
                return ints[a] is not None
            if a.key[0] == 'bits':
                b = a.key[1]
                b = b.single() if isinstance(b, Lin) else b
                if b in ints:
                    i, j = a.key[2], a.key[3]
                    lo, hi = self.rnd.choice(c[2])
                    t = self.rnd.randint(lo, hi)
                    m = ((1 << (j - i + 1)) - 1) << i
                    ints[b] = (ints[b] & ~m) | ((t << i) & m)
                    return rs_has(self.st.range(b), ints[b])
                f = b.key[2] if isinstance(b, dom.Atom) and b.key[:2] == ('op', 'id') else a.key[1] if isinstance(a.key[1], Lin) else None
                if isinstance(f, Lin):
                    # the number is moved by the least amount that sets the bits as wanted
                    i, j = a.key[2], a.key[3]
                    lo, hi = self.rnd.choice(c[2])
                    x = v.lin(f)
                    m = ((1 << (j - i + 1)) - 1) << i
                    d = ((x & ~m) | ((self.rnd.randint(lo, hi) << i) & m)) - x
                    return self.bump(f, d + self.rnd.choice((0, 0, 1 << (j + 1), -(1 << (j + 1)))), ints)
            if a.key[0] in ('len', 'nchars') and a.key[1] in self.w:
                lo, hi = self.rnd.choice(c[2])
                return self.resize(a.key[1], lo if self.rnd.random() < 0.5 else self.rnd.randint(lo, min(hi, lo + 9000)))
            if a.key[0] == 'op' and a.key[1] == 'div':
                return self.bump(a.key[2], self.rnd.choice((-1, 1)) * a.key[3], ints)
            return False
        if c[0] == 'cong':
            if self.rnd.random() < 0.5:
                ints[c[1]] = c[2]
                return True
            return False
        if c[0] == 'le':
            x = v.lin(c[1])
            return self.bump(c[1], -x, ints)
        if c[0] == 'ne':
            return self.bump(c[1], self.rnd.choice((1, -1)), ints)
        if c[0] == 's':
            op, x, y = c[1][:3]
            if self.rnd.random() < 0.5:
                x, y = y, x
            for a, b in ((x, y), (y, x)):
                try:
                    if op == '=':
                        if self.assign(v, a, v.str(b)):
                            return True
                    else:
                        w = v.str(a)
                        if w:
                            i = len(w) - 1 if self.rnd.random() < 0.6 else self.rnd.randrange(len(w))
                            if self.assign(v, a, w[:i] + self.rnd.choice("abyz019") + w[i + 1:]):
                                return True
                except Undef:
                    pass
        return False

    def assign(self, v, t, w):
        """Makes the string term t denote w by changing its base word."""
        if t in self.w:
            new, b = w, t
        elif t[0] == 'sub' and t[1] in self.w:
            b = t[1]
            o = self.w[b].encode('utf-8')
            new = (o[:v.lin(t[2])] + w.encode('utf-8') + o[v.lin(t[3]):]).decode('utf-8', 'ignore')
        elif t[0] in ('lower', 'upper'):
            return self.assign(v, t[1], w)
        else:
            return False
        if new == self.w[b] or not (self.st.lang_of(b) is rx.ALL or rx.matches(self.st.lang_of(b), new)):
            return False
        self.w[b] = new
        return True

    def resize(self, b, n):
        """Another word of n characters for the string b."""
        if n < 0 or n > 20000 or n == len(self.w[b]):
            return False
        lg = self.st.lang_of(b)
        old = self.w[b]
        for x in (old[:n] if n < len(old) else old + 'x' * (n - len(old)), 'x' * n):
            if lg is rx.ALL or rx.matches(lg, x):
                self.w[b] = x
                return True
        return False

    def rebound(self, b, p, want):
        """Makes byte position p of the string b a character boundary, or not."""
        w = self.w[b].encode('utf-8')
        if want:
            x = w[:p].decode('utf-8', 'ignore')
            x += 'x' * (p - len(x.encode('utf-8'))) + w[p:].decode('utf-8', 'ignore')
        else:
            if p < 1 or p >= len(w):
                return False
            x = w[:p - 1].decode('utf-8', 'ignore')
            x += 'x' * (p - 1 - len(x.encode('utf-8'))) + '\u00e9' + w[p + 1:].decode('utf-8', 'ignore')
        x += 'x' * (len(w) - len(x.encode('utf-8')))
        if x == self.w[b] or not (self.st.lang_of(b) is rx.ALL or rx.matches(self.st.lang_of(b), x)):
            return False
        self.w[b] = x
        return True

    def bump(self, f, d, ints):
        """Changes some atom of f so that f changes by about d."""
        f = self.st.norm(f)
        xs = [(a, k) for a, k in f.t if a in ints or a.key[0] in ('len', 'nchars') and a.key[1] in self.w]
        if len(xs) > 1 and self.rnd.random() < 0.5 and self.spread([x for x in xs if x[0] in ints], d, ints):
            return True
        self.rnd.shuffle(xs)
        for a, k in xs:
            if a not in ints:
                n = d // k if d % k == 0 else (d // k) + (1 if self.rnd.random() < 0.5 else 0)
                if self.resize(a.key[1], len(self.w[a.key[1]]) + n):
                    return True
                continue
            n = d // k if d % k == 0 else (d // k) + (1 if self.rnd.random() < 0.5 else 0)
            t = ints[a] + n
            r = self.st.range(a)
            if not rs_has(r, t):
                t = max(r[0][0], min(t, r[-1][1]))
                if not rs_has(r, t):
                    continue
            if t != ints[a]:
                ints[a] = t
                return True
        return False


    def spread(self, xs, d, ints):
        """Changes several atoms so that the form changes by exactly d: greatest coefficients first, as with digits."""
        new = {}
        xs = sorted(xs, key=lambda p: -abs(p[1]))
        for i, (a, k) in enumerate(xs):
            r = self.st.range(a)
            # what the remaining atoms can still contribute
            lo = hi = 0
            for b, q in xs[i + 1:]:
                rb = self.st.range(b)
                p = sorted((q * (rb[0][0] - ints[b]), q * (rb[-1][1] - ints[b])))
                lo, hi = lo + p[0], hi + p[1]
            n = d // k
            best = None
            for m in (n, n + 1, n - 1, 0):
                t = max(r[0][0], min(ints[a] + m, r[-1][1]))
                if not rs_has(r, t):
                    continue
                rest = d - k * (t - ints[a])
                miss = max(lo - rest, rest - hi, 0)
                if best is None or miss < best[0]:
                    best = (miss, t, rest)
            if best is None:
                continue
            new[a] = best[1]
            d = best[2]
        if d != 0:
            return False
        ints.update(new)
        return True


_wc = {}
TRICKY = (" a ", "\u00e9", "a\u00e9b", "\u20ac", "aa", "\\", "\\n", '\\"', "\t", ";", "a\nb", "\n", "AbC", "\U0001f600", "\u0130", "$1F", "a b", "0")


def word_choices(lg):
    r = _wc.get(lg)
    if r is None:
        r = []
        cur = lg
        for _ in range(6):
            w = rx.witness(cur)
            if w is None:
                break
            r.append(w)
            cur = rx.inter(cur, rx.neg(rx.lit(w)))
        for q in ('.*[A-Z].*', '.*[a-z].*', '.*[A-Z].*[a-z].*', '.*[0-9].*', '.*_.*'):
            w = rx.witness(rx.inter(cur, rx.R(q)))
            if w is not None and w not in r:
                r.insert(1, w)
        for w in TRICKY:
            if w not in r and rx.matches(lg, w):
                r.append(w)
        for n in (3, 5, 8, 20):
            w = rx.witness(rx.inter(cur, rx.cat(rx.rep(rx.ANY, n, n), rx.ALL)))
            if w is not None and w not in r:
                r.append(w)
        _wc[lg] = r
    return r


def find_witness(st, differ=None, extra=(), tries=60):
    """A valuation of st (for which differ(valuation) holds, when given), or None."""
    s = Solver(st, extra)
    for v in s.solve(tries):
        if differ is None or differ(v):
            return v
    return None


def describe(v, limit=24):
    """Readable valuation."""
    out = {}
    for b, w in sorted(v.words.items(), key=repr):
        out[tstr(b)] = w if len(w) < 60 else "%s... (%d characters)" % (w[:20], len(w))
    for a, x in sorted(v.ints.items(), key=lambda p: p[0].uid):
        if len(out) >= limit:
            break
        out[tstr(a.key)] = x
    return out


def timed(f):
    def g(ctx, *a, **k):
        t = time.time()
        r = f(ctx, *a, **k)
        r.wall = round(time.time() - t, 3)
        return r
    g.__name__ = f.__name__
    return g
