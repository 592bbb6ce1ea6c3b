"""Abstract domain: linear integer forms over interned atoms with interval sets and linear
inequalities, predicates, strings with regular-language constraints, sequences, maps, aggregates."""
import rx

INF = 1 << 200
ISIZE = (1 << 63) - 1


class Atom(object):
    __slots__ = ("key", "lo", "hi", "uid")

    def __repr__(self):
        return "<%s>" % (tstr(self.key),)


_atoms = {}


def atom(key, lo=0, hi=ISIZE):
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.key = key
        a.lo = lo
        a.hi = hi
        a.uid = len(_atoms)
        _atoms[key] = a
    return a


def tstr(k):
    """Readable rendering of a term."""
    if isinstance(k, tuple):
        if len(k) == 2 and k[0] in ('sym', 'in'):
            return tstr(k[1])
        if k and k[0] == 'idx' and len(k) == 3:
            return "%s[%s]" % (tstr(k[1]), tstr(k[2]))
        if k and k[0] == 'lit':
            return repr(k[1])
        if k and k[0] in ('phi', 'phiv'):
            return "phi%s" % (tstr(k[2:]),)
        return "(" + " ".join(tstr(x) for x in k) + ")"
    return str(k)


class Lin(object):
    __slots__ = ("c", "t", "h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, tuple((a.uid, k) for a, k in t)))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t)

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        return lin_comb(self, 1, o, 1)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return lin_comb(self, 1, o, -1)

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Lin(self.c * k, tuple((a, c * k) for a, c in self.t))

    def is_const(self):
        return not self.t

    def single(self):
        """The atom when the form is exactly one atom with coefficient 1 and no constant."""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return self.t[0][0]
        return None

    def coef(self, a):
        for x, k in self.t:
            if x is a:
                return k
        return 0

    def atoms(self):
        return [a for a, _ in self.t]

    def __repr__(self):
        if not self.t:
            return str(self.c)
        s = " + ".join(("%s" % tstr(a.key)) if k == 1 else "%d*%s" % (k, tstr(a.key)) for a, k in self.t)
        return s if self.c == 0 else "%s + %d" % (s, self.c)


def lin_comb(x, kx, y, ky):
    d = {}
    for a, c in x.t:
        d[a] = c * kx
    for a, c in y.t:
        n = d.get(a, 0) + c * ky
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return Lin(x.c * kx + y.c * ky, tuple(sorted(d.items(), key=lambda p: p[0].uid)))


def K(n):
    return Lin(n)


ZERO = Lin(0)
ONE = Lin(1)


def L(a):
    return Lin(0, ((a, 1),))


# ---- range sets -------------------------------------------------------------------------------
def rs_and(x, y):
    out = []
    i = j = 0
    while i < len(x) and j < len(y):
        lo = max(x[i][0], y[j][0])
        hi = min(x[i][1], y[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if x[i][1] < y[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def rs_minus_point(x, p):
    out = []
    for a, b in x:
        if a <= p <= b:
            if a < p:
                out.append((a, p - 1))
            if p < b:
                out.append((p + 1, b))
        else:
            out.append((a, b))
    return tuple(out)


def rs_has(x, p):
    for a, b in x:
        if a <= p <= b:
            return True
    return False


def rs_or(x, y):
    out = []
    for a, b in sorted(x + y):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return tuple(out)


# ---- predicates -------------------------------------------------------------------------------
TRUE = ('T',)
FALSE = ('F',)


def p_le(a, b):
    """a <= b"""
    d = a - b
    if d.is_const():
        return TRUE if d.c <= 0 else FALSE
    return ('le', d)


def p_lt(a, b):
    return p_le(a + 1, b)


def p_eq(a, b):
    d = a - b
    if d.is_const():
        return TRUE if d.c == 0 else FALSE
    if d.t[0][1] < 0:
        d = d.scale(-1)
    return ('eq', d)


def p_ne(a, b):
    return p_not(p_eq(a, b))


def p_not(p):
    k = p[0]
    if k == 'T':
        return FALSE
    if k == 'F':
        return TRUE
    if k == 'le':
        return ('le', p[1].scale(-1) + 1)
    if k == 'eq':
        return ('ne', p[1])
    if k == 'ne':
        return ('eq', p[1])
    if k == 'in':
        return ('in', p[1], rx.neg(p[2]))
    if k == 'seq':
        return ('sne', p[1], p[2])
    if k == 'sne':
        return ('seq', p[1], p[2])
    if k == 'and':
        return ('or', p_not(p[1]), p_not(p[2]))
    if k == 'or':
        return ('and', p_not(p[1]), p_not(p[2]))
    raise Exception("p_not %r" % (p,))


def p_and(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    return ('and', a, b)


def p_or(a, b):
    return p_not(p_and(p_not(a), p_not(b)))


def p_atom(key):
    """Uninterpreted boolean."""
    return ('eq', Lin(-1, ((atom(key, 0, 1), 1),)))


def is_pred(v):
    if not isinstance(v, tuple) or not v:
        return False
    k = v[0]
    if k in ('T', 'F'):
        return len(v) == 1
    if k in ('le', 'eq', 'ne'):
        return len(v) == 2 and isinstance(v[1], Lin)
    return k in ('in', 'seq', 'sne', 'and', 'or') and len(v) == 3 and isinstance(v[1], tuple)


# ---- values -----------------------------------------------------------------------------------
class StrV(object):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, StrV) and self.t == o.t

    def __hash__(self):
        return hash(('S', self.t))

    def __repr__(self):
        return "str:%s" % tstr(self.t)


class SeqV(object):
    """segs: tuple of ('e', value) | ('s', term, lo, hi, elemty) | ('b', strterm)"""
    __slots__ = ("segs",)

    def __init__(self, segs=()):
        self.segs = tuple(segs)

    def __eq__(self, o):
        return isinstance(o, SeqV) and self.segs == o.segs

    def __hash__(self):
        return hash(('Q', self.segs))

    def __repr__(self):
        out = []
        for s in self.segs:
            if s[0] == 'e':
                out.append(repr(s[1]))
            elif s[0] == 's':
                out.append("%s[%r..%r]" % (tstr(s[1]), s[2], s[3]))
            else:
                out.append("bytes(%s)" % tstr(s[1]))
        return "[" + ", ".join(out) + "]"


class Agg(object):
    __slots__ = ("ty", "var", "fs")

    def __init__(self, ty, var, fs):
        self.ty = ty
        self.var = var
        self.fs = tuple(fs)

    def __eq__(self, o):
        return isinstance(o, Agg) and self.var == o.var and self.fs == o.fs

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('A', self.var, self.fs))

    def __repr__(self):
        return "Agg%s(%s)" % ("" if self.var is None else "#%s" % self.var, ", ".join(map(repr, self.fs)))


class Ptr(object):
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.cell == o.cell and self.path == o.path

    def __hash__(self):
        return hash(('P', self.cell, self.path))

    def __repr__(self):
        return "&%s%s" % (tstr(self.cell), "".join(".%s" % (p,) for p in self.path))


class SymV(object):
    __slots__ = ("t", "ty")

    def __init__(self, t, ty):
        self.t = t
        self.ty = ty

    def __eq__(self, o):
        return isinstance(o, SymV) and self.t == o.t

    def __hash__(self):
        return hash(('Y', self.t))

    def __repr__(self):
        return "sym:%s" % tstr(self.t)


class MapV(object):
    """Map: base term (or None when empty) plus insertions, newest last."""
    __slots__ = ("base", "ins", "vty")

    def __init__(self, base, ins=(), vty=None):
        self.base = base
        self.ins = tuple(ins)
        self.vty = vty

    def __eq__(self, o):
        return isinstance(o, MapV) and self.base == o.base and self.ins == o.ins

    def __hash__(self):
        return hash(('M', self.base, self.ins))

    def __repr__(self):
        return "map:%s%s" % (tstr(self.base), "".join("+{%r:%r}" % i for i in self.ins))


class IterV(object):
    """Iterator object. kind + payload tuple of values."""
    __slots__ = ("kind", "p")

    def __init__(self, kind, *p):
        self.kind = kind
        self.p = tuple(p)

    def __eq__(self, o):
        return isinstance(o, IterV) and self.kind == o.kind and self.p == o.p

    def __hash__(self):
        return hash(('I', self.kind, self.p))

    def __repr__(self):
        return "iter:%s%r" % (self.kind, self.p)


class ObjV(object):
    """Other modelled std object (regex, file handle, formatter arguments, ...)."""
    __slots__ = ("kind", "p")

    def __init__(self, kind, *p):
        self.kind = kind
        self.p = tuple(p)

    def __eq__(self, o):
        return isinstance(o, ObjV) and self.kind == o.kind and self.p == o.p

    def __hash__(self):
        return hash(('O', self.kind, self.p))

    def __repr__(self):
        return "%s%r" % (self.kind, self.p)


class BoxV(object):
    """Owned heap value (Box / uninitialised box)."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, BoxV) and self.v == o.v

    def __hash__(self):
        return hash(('B', self.v))

    def __repr__(self):
        return "box(%r)" % (self.v,)


UNIT = Agg(None, None, ())
UNINIT = ObjV("uninit")


class Split(Exception):
    def __init__(self, pred):
        self.pred = pred


class Infeasible(Exception):
    pass


class Unsupported(Exception):
    pass


# ---- string terms -----------------------------------------------------------------------------
def lit_len(s):
    return len(s.encode('utf-8'))


def slen(t):
    k = t[0]
    if k == 'lit':
        return K(lit_len(t[1]))
    if k == 'sub':
        return t[3] - t[2]
    if k == 'chr' and len(t) == 3:
        return K(t[2])
    if k in ('lower', 'upper'):
        return slen(t[1])
    if k == 'cat':
        r = ZERO
        for x in t[1]:
            r = r + slen(x)
        return r
    return L(atom(('len', t), 0, ISIZE))


def s_sub(t, s, e):
    """t[s..e] (byte positions)"""
    if t[0] == 'sub':
        return s_sub(t[1], t[2] + s, t[2] + e)
    if t[0] == 'lit' and s.is_const() and e.is_const():
        b = t[1].encode('utf-8')
        try:
            return ('lit', b[s.c:e.c].decode('utf-8'))
        except UnicodeDecodeError:
            raise Unsupported("char boundary")
    if s == ZERO and e == slen(t):
        return t
    if s.is_const() and e.is_const() and t[0] in ('cat', 'chr'):
        cs = cells(t)
        if cs is not None:
            return cells_sub(cs, s.c, e.c)
    return ('sub', t, s, e)


def canon(t, rep):
    """The string term with equal base strings replaced by one of them."""
    if t[0] == 'sym':
        while t in rep:
            t = rep[t]
        return t
    if t[0] in ('lower', 'upper'):
        return (t[0], canon(t[1], rep))
    if t[0] == 'sub':
        return ('sub', canon(t[1], rep)) + tuple(t[2:])
    if t[0] == 'cat':
        return ('cat', tuple(canon(x, rep) for x in t[1]))
    return t


# A text given character by character: ('lit', w) and ('chr', code point, UTF-8 length) pieces.
def cells(t):
    """[(code point as int or Lin, UTF-8 length)] of a text known character by character, or None."""
    if t[0] == 'lit':
        return [(ord(c), lit_len(c)) for c in t[1]]
    if t[0] == 'chr':
        return [(t[1], t[2])] if len(t) == 3 else None
    if t[0] == 'cat':
        out = []
        for x in t[1]:
            c = cells(x)
            if c is None:
                return None
            out.extend(c)
        return out
    return None


def is_cells(t):
    """Symbolic character-by-character text."""
    if t[0] == 'chr':
        return len(t) == 3
    if t[0] == 'cat':
        return all(x[0] == 'lit' or x[0] == 'chr' and len(x) == 3 for x in t[1])
    return False


def of_cells(cs):
    return s_cat(*[('lit', chr(c)) if isinstance(c, int) else ('lit', chr(c.c)) if c.is_const() else ('chr', c, n) for c, n in cs])


def cells_index(cs, p):
    """Index of the cell starting at byte p (len(cs) at the end), or None inside a character."""
    q = 0
    for i, (c, n) in enumerate(cs):
        if q == p:
            return i
        if q > p:
            return None
        q += n
    return len(cs) if q == p else None


def cells_sub(cs, a, b):
    i, j = cells_index(cs, a), cells_index(cs, b)
    if i is None or j is None or i > j:
        raise Unsupported("char boundary")
    return of_cells(cs[i:j])


def class_pred(c, rng):
    p = FALSE
    for lo, hi in rng:
        p = p_or(p, p_eq(c, K(lo)) if lo == hi else p_and(p_le(K(lo), c), p_le(c, K(hi))))
    return p


def char_ranges(st, c):
    """Possible code points of a character value."""
    if isinstance(c, int):
        return ((c, c),)
    c = st.norm(c)
    if c.is_const():
        return ((c.c, c.c),)
    a = c.single()
    if a is not None:
        return st.range(a)
    lo, hi = st.bounds(c)
    return ((max(lo, 0), min(hi, 0x10FFFF)),)


def char_derivs(st, c, R):
    """[(charset, derivative)] of R by a character: one entry per derivative it can have."""
    rs = char_ranges(st, c)
    out = []
    for _, cs, d in rx.classes(R):
        x = rs_and(rs, cs)
        if x:
            out.append((x, d))
    return out


def char_deriv(st, c, R):
    """Derivative of R by a character; splits when it depends on which one it is."""
    ds = char_derivs(st, c, R)
    if not ds:
        raise Infeasible()
    for cs, d in ds[:-1]:
        if st.need(class_pred(c, cs)):
            return d
    return ds[-1][1]


def cells_in(st, cs, R):
    """Three-valued membership of a character-by-character text."""
    cur = {R}
    for c, n in cs:
        nxt = set()
        for r in cur:
            for _, d in char_derivs(st, c, r):
                nxt.add(d)
        cur = nxt
        if len(cur) > 64:
            return None
        if cur == {rx.EMPTY}:
            return False
        if cur == {rx.ALL}:
            return True
    a = set(rx.nullable(r) for r in cur)
    return a.pop() if len(a) == 1 else None


def cells_eq(st, xs, ys):
    if len(xs) != len(ys) or [n for _, n in xs] != [n for _, n in ys]:
        return False
    r = True
    for (a, _), (b, _) in zip(xs, ys):
        a = K(a) if isinstance(a, int) else a
        b = K(b) if isinstance(b, int) else b
        d = st.decide(p_eq(a, b))
        if d is False:
            return False
        if d is None:
            r = None
    return r


def cells_need(st, cs, R):
    for c, n in cs:
        if R is rx.EMPTY or R is rx.ALL:
            break
        R = char_deriv(st, c, R)
    return rx.nullable(R)


def s_cat(*ts):
    out = []
    for t in ts:
        xs = t[1] if t[0] == 'cat' else (t,)
        for x in xs:
            if x[0] == 'lit':
                if not x[1]:
                    continue
                if out and out[-1][0] == 'lit':
                    out[-1] = ('lit', out[-1][1] + x[1])
                    continue
            out.append(x)
    if not out:
        return ('lit', '')
    if len(out) == 1:
        return out[0]
    return ('cat', tuple(out))


def s_lower(t):
    if t[0] == 'lit':
        return ('lit', t[1].lower())
    if t[0] == 'lower':
        return t
    return ('lower', t)


def s_upper(t):
    if t[0] == 'lit':
        return ('lit', t[1].upper())
    return ('upper', t)


def lang_base(t, R):
    """(base term, language) with  t in R  <=>  base in language."""
    while True:
        k = t[0]
        if k == 'lower':
            t = t[1]
            R = rx.map_ascii_lower_inv(R)
            continue
        if k == 'upper':
            t = t[1]
            R = rx.map_ascii_upper_inv(R)
            continue
        if k == 'sub' and t[2].is_const() and t[2].c <= 8 and t[1][0] != 'lit':
            n = t[2].c
            if t[3] == slen(t[1]):
                R = rx.cat(rx.rep(rx.ANY, n, n), R)
                t = t[1]
                continue
            if t[3].is_const() and t[3].c <= 8:
                m = t[3].c - n
                R = rx.cat(rx.rep(rx.ANY, n, n), rx.cat(rx.inter(R, rx.rep(rx.ANY, m, m)), rx.ALL))
                t = t[1]
                continue
        return t, R


# ---- sequences --------------------------------------------------------------------------------
def seg_len(s):
    if s[0] == 'e':
        return ONE
    if s[0] == 's':
        return s[3] - s[2]
    return slen(s[1])


def seq_len(v):
    r = ZERO
    for s in v.segs:
        r = r + seg_len(s)
    return r


_uid = [0]


def uid():
    _uid[0] += 1
    return _uid[0]


def sym_seq(term, ety):
    return SeqV([('s', term, ZERO, L(atom(('len', term), 0, ISIZE)), ety)])


# ---- bit-level view ----------------------------------------------------------------------------
def width(n):
    return n.bit_length()


# ---- state ------------------------------------------------------------------------------------
STRFN = {}       # evaluators of uninterpreted string functions
DEFAULT_LANG = [lambda base: rx.ALL]


_at = {}


def chars_at(lg, n):
    """Characters that can stand at position n of a word of lg."""
    r = _at.get((lg, n))
    if r is None:
        x = lg
        for _ in range(n):
            x = rx.deriv_any(x)
        r = _at[(lg, n)] = rx.first_set(x)
    return r


_ascii = {}
ASCII = rx.star(rx.chars(((0, 127),)))


def is_ascii_lang(lg):
    r = _ascii.get(lg)
    if r is None:
        r = _ascii[lg] = rx.subset(lg, ASCII)
    return r


class State(object):
    __slots__ = ("cells", "rng", "ineqs", "nes", "sub", "lang", "seqs", "log", "cnt", "notes", "stack", "panic", "facts", "tags")

    def __init__(self):
        self.cells = {}
        self.rng = {}
        self.ineqs = []
        self.nes = set()
        self.sub = {}
        self.lang = {}
        self.seqs = set()     # disequalities between non-literal string terms
        self.log = ()         # effect log
        self.cnt = {}         # deterministic counters
        self.notes = frozenset()   # reasons for imprecision on this path
        self.stack = ()
        self.panic = None
        self.tags = ()        # loop partitions passed through
        self.facts = set()    # model-specific facts (character boundaries)

    def copy(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.rng = dict(self.rng)
        s.ineqs = list(self.ineqs)
        s.nes = set(self.nes)
        s.sub = dict(self.sub)
        s.lang = dict(self.lang)
        s.seqs = set(self.seqs)
        s.log = self.log
        s.cnt = dict(self.cnt)
        s.notes = self.notes
        s.stack = self.stack
        s.panic = self.panic
        s.facts = set(self.facts)
        s.tags = self.tags
        return s

    def note(self, why):
        self.notes = self.notes | frozenset([why])

    def fresh(self, tag):
        n = self.cnt.get(tag, 0)
        self.cnt[tag] = n + 1
        return n

    # -- ranges
    def range(self, a):
        r = self.rng.get(a)
        if r is not None:
            return r
        return ((a.lo, a.hi),)

    def lo(self, a):
        return self.range(a)[0][0]

    def hi(self, a):
        return self.range(a)[-1][1]

    def norm(self, x):
        """Normal form of a linear term under the known equalities."""
        for a, k in x.t:
            if a in self.sub or a in self.rng or a.key[0] in ('bits', 'len', 'nchars', 'utf8', 'op'):
                break
        else:
            return x
        r = Lin(x.c)
        for a, k in x.t:
            r = lin_comb(r, 1, self.norm_atom(a), k)
        return r

    def known_bits(self, base):
        """{bit index: value} of an atom, from slices of it that are constant."""
        out = None
        for a, r in self.rng.items():
            k = a.key
            if k[0] == 'bits' and k[1] is base and len(r) == 1 and r[0][0] == r[0][1]:
                if out is None:
                    out = {}
                v = r[0][0]
                for p in range(k[2], k[3] + 1):
                    out[p] = (v >> (p - k[2])) & 1
        return out

    def norm_atom(self, a):
        s = self.sub.get(a)
        if s is not None:
            return self.norm(s)
        r = self.rng.get(a)
        if r is not None and len(r) == 1 and r[0][0] == r[0][1]:
            return K(r[0][0])
        k = a.key[0]
        if k == 'bits':
            base, i, j = a.key[1], a.key[2], a.key[3]
            b = self.norm(L(base))
            if b.single() is base:
                lo, hi = self.lo(base), self.hi(base)
                if lo >= 0:
                    if hi < (1 << i):
                        return ZERO
                    if i == 0 and hi < (1 << (j + 1)):
                        return b
                kb = self.known_bits(base)
                if kb:
                    c = 0
                    for p in range(i, j + 1):
                        x = kb.get(p)
                        if x is None:
                            return L(a)
                        c |= x << (p - i)
                    return K(c)
                return L(a)
            v = bits_slice(self, b, i, j)
            if v is not None:
                return v
        elif k == 'len':
            t = a.key[1]
            if isinstance(t, tuple) and t in self.lang:
                w = self.const_str(t)
                if w is not None:
                    return K(lit_len(w))
        elif k == 'ch':
            t, n = a.key[1], a.key[2]
            if isinstance(n, Lin) and n.is_const() and 0 <= n.c <= 16 and t in self.lang:
                cs = chars_at(self.lang[t], n.c)
                if len(cs) == 1 and cs[0][0] == cs[0][1]:
                    return K(cs[0][0])
        elif k == 'nchars':
            w = self.const_str(a.key[1])
            if w is not None:
                return K(len(w))
        elif k == 'utf8':
            c = self.norm(L(a.key[1]))
            lo, hi = self.bounds(c)
            f = lambda x: 1 if x < 0x80 else 2 if x < 0x800 else 3 if x < 0x10000 else 4
            if lo >= 0 and f(lo) == f(min(hi, 0x10FFFF)):
                return K(f(lo))
        elif k == 'op' and a.key[1] == 'id':
            n = self.norm(a.key[2])
            if n != a.key[2]:
                return n
        return L(a)

    def lang_of(self, b):
        r = self.lang.get(b)
        if r is None:
            r = DEFAULT_LANG[0](b)
        return r

    def const_str(self, t):
        """The literal content of a string term if it is known exactly."""
        if t[0] == 'lit':
            return t[1]
        b, _ = lang_base(t, rx.ALL)
        lg = self.lang_of(b)
        if lg is rx.ALL:
            return None
        w = _single_word(lg)
        if w is None:
            return None
        return eval_derived(t, b, w)

    def bounds(self, x):
        lo = hi = x.c
        for a, k in x.t:
            r = self.rng.get(a)
            if r is None:
                al, ah = a.lo, a.hi
            else:
                al, ah = r[0][0], r[-1][1]
            if k > 0:
                lo += k * al
                hi += k * ah
            else:
                lo += k * ah
                hi += k * al
        return lo, hi

    def prove_le0(self, x, depth=3):
        x = self.norm(x)
        return self._prove(x, depth)

    def _prove(self, x, depth):
        lo, hi = self.bounds(x)
        if hi <= 0:
            return True
        if lo > 0:
            return False
        if depth == 0 or not x.t:
            return False
        for f in self.ineqs:
            for a, kf in f.t:
                kx = x.coef(a)
                if kx and (kx > 0) == (kf > 0):
                    if kx % kf == 0:
                        y = lin_comb(x, 1, f, -(kx // kf))
                        if self._prove(self.norm(y), depth - 1):
                            return True
        return False

    def prove_eq0(self, x):
        x = self.norm(x)
        if x.is_const():
            return x.c == 0
        return self._prove(x, 2) and self._prove(x.scale(-1), 2)

    # -- predicates
    def decide(self, p):
        k = p[0]
        if k == 'T':
            return True
        if k == 'F':
            return False
        if k == 'le':
            x = self.norm(p[1])
            lo, hi = self.bounds(x)
            if hi <= 0:
                return True
            if lo > 0:
                return False
            if len(x.t) == 1:
                # one atom: consult its range set exactly
                a, c = x.t[0]
                ok = bad = False
                for (l, h) in self.range(a):
                    v1, v2 = x.c + c * l, x.c + c * h
                    mn, mx = min(v1, v2), max(v1, v2)
                    if mn <= 0:
                        ok = True
                    if mx > 0:
                        bad = True
                if ok and not bad:
                    return True
                if bad and not ok:
                    return False
            if self.ineqs:
                if self._prove(x, 3):
                    return True
                if self._prove(x.scale(-1) + 1, 3):
                    return False
                # x <= 0 with x+? != 0 sharpening
            if self.nes:
                y = x - 1
                if (y in self.nes or y.scale(-1) in self.nes) and self._prove(y, 2):
                    # x <= 1 and x != 1
                    return True
                if (x in self.nes or x.scale(-1) in self.nes) and self._prove(x.scale(-1), 2):
                    # x >= 0 and x != 0
                    return False
            return None
        if k in ('eq', 'ne'):
            r = self._decide_eq(p[1])
            if r is None:
                return None
            return r if k == 'eq' else not r
        if k == 'in':
            return self._decide_in(p[1], p[2])
        if k in ('seq', 'sne'):
            r = self._decide_seq(p[1], p[2])
            if r is None:
                return None
            return r if k == 'seq' else not r
        if k == 'and':
            a = self.decide(p[1])
            b = self.decide(p[2])
            if a is False or b is False:
                return False
            if a and b:
                return True
            s = self.atom_set(p)
            if s is not None:
                return False if not s[1] else True if s[1] == self.range(s[0]) else None
            return None
        if k == 'or':
            r = self.decide(p_not(p))
            return None if r is None else not r
        raise Exception(k)

    def atom_set(self, p):
        """(atom, values) for a condition on one atom only: it holds for those of its possible values; else None."""
        k = p[0]
        if k in ('and', 'or'):
            x = self.atom_set(p[1])
            if x is None:
                return None
            y = self.atom_set(p[2])
            if y is None or x[0] is not y[0] and x[0] != y[0]:
                return None
            return x[0], (rs_and if k == 'and' else rs_or)(x[1], y[1])
        if k not in ('le', 'eq', 'ne'):
            return None
        x = self.norm(p[1])
        if len(x.t) != 1:
            return None
        a, c = x.t[0]
        r = self.range(a)
        if k == 'le':
            # c*a + d <= 0
            w = ((-INF, (-x.c) // c),) if c > 0 else ((-(-x.c // -c), INF),)
            return a, rs_and(r, w)
        v = (-x.c) // c if (-x.c) % c == 0 else None
        if k == 'eq':
            return a, ((v, v),) if v is not None and rs_has(r, v) else ()
        return a, r if v is None else rs_minus_point(r, v)

    def _decide_eq(self, x0):
        x = self.norm(x0)
        if x.is_const():
            return x.c == 0
        lo, hi = self.bounds(x)
        if lo > 0 or hi < 0:
            return False
        if len(x.t) == 1:
            a, c = x.t[0]
            if (-x.c) % c != 0:
                return False
            v = (-x.c) // c
            if not rs_has(self.range(a), v):
                return False
            return None
        if self.nes and (x in self.nes or x.scale(-1) in self.nes):
            return False
        if self.ineqs:
            if self._prove(x.scale(-1) + 1, 3) or self._prove(x + 1, 3):
                return False
            if self._prove(x, 3) and self._prove(x.scale(-1), 3):
                return True
        return None

    def _decide_in(self, t, R):
        if t[0] == 'lit':
            return rx.matches(R, t[1])
        b, Rb = lang_base(t, R)
        if b[0] == 'lit':
            return rx.matches(Rb, b[1])
        if b[0] in ('cat', 'chr') and is_cells(b):
            return cells_in(self, cells(b), Rb)
        lg = self.lang_of(b)
        if rx.disjoint(lg, Rb):
            return False
        if rx.subset(lg, Rb):
            return True
        return None

    def _decide_seq(self, a, b):
        if a == b:
            return True
        if a[0] == 'lit' and b[0] == 'lit':
            return a[1] == b[1]
        if a[0] == 'lit':
            a, b = b, a
        if b[0] == 'lit':
            return self._decide_in(a, rx.lit(b[1]))
        if is_cells(a) and is_cells(b):
            return cells_eq(self, cells(a), cells(b))
        ca, cb = self.const_str(a), self.const_str(b)
        if ca is not None and cb is not None:
            return ca == cb
        if cb is not None:
            return self._decide_in(a, rx.lit(cb))
        if ca is not None:
            return self._decide_in(b, rx.lit(ca))
        if ('s', a, b) in self.seqs or ('s', b, a) in self.seqs:
            return False
        if ('=', a, b) in self.seqs or ('=', b, a) in self.seqs:
            return True
        rep = self._equals()
        if rep and canon(a, rep) == canon(b, rep):
            return True
        return None

    def _equals(self):
        """Representatives of the base strings known to be equal to others."""
        rep = {}
        for q in self.seqs:
            if q[0] == '=' and q[1][0] == 'sym' and q[2][0] == 'sym':
                x, y = q[1], q[2]
                while x in rep:
                    x = rep[x]
                while y in rep:
                    y = rep[y]
                if x != y:
                    if repr(y) < repr(x):
                        x, y = y, x
                    rep[y] = x
        return rep

    def _seqs_hold(self):
        """False when two texts are equal and not equal, or equal texts have no length in common."""
        rep = self._equals()
        if not rep:
            return True
        for q in self.seqs:
            if q[0] == 's' and canon(q[1], rep) == canon(q[2], rep):
                return False
        for y, x in rep.items():
            while x in rep:
                x = rep[x]
            a, b = self.norm(slen(x)), self.norm(slen(y))
            if self.decide(p_eq(a, b)) is False:
                return False
        return True

    def need(self, p):
        r = self.decide(p)
        if r is None:
            self._split_cells(p)
            raise Split(p)
        return r

    def _split_cells(self, p):
        """Membership of a character-by-character text is decided character by character."""
        if p[0] == 'in':
            t, R = p[1], p[2]
        elif p[0] in ('seq', 'sne') and (p[1][0] == 'lit' or p[2][0] == 'lit'):
            t, R = (p[1], rx.lit(p[2][1])) if p[2][0] == 'lit' else (p[2], rx.lit(p[1][1]))
        else:
            return
        b, R = lang_base(t, R)
        if b[0] in ('cat', 'chr') and is_cells(b):
            cells_need(self, cells(b), R)

    def assume(self, p):
        """Adds p. Returns False when p contradicts what is known."""
        d = self.decide(p)
        if d is True:
            return True
        if d is False:
            return False
        k = p[0]
        if k in ('in', 'seq', 'sne'):
            self._split_cells(p)
        if k == 'and':
            return self.assume(p[1]) and self.assume(p[2])
        if k == 'or':
            if self.decide(p[1]) is False:
                return self.assume(p[2])
            if self.decide(p[2]) is False:
                return self.assume(p[1])
            s = self.atom_set(p)
            if s is not None:
                return self._narrow(*s)
            raise Split(p[1])
        if k == 'in':
            b, Rb = lang_base(p[1], p[2])
            return self._add_lang(b, Rb)
        if k == 'seq':
            a, b = p[1], p[2]
            if a[0] == 'lit':
                a, b = b, a
            if b[0] == 'lit':
                bb, R = lang_base(a, rx.lit(b[1]))
                return self._add_lang(bb, R)
            self.seqs.add(('=', a, b))
            return self._seqs_hold()
        if k == 'sne':
            a, b = p[1], p[2]
            if a[0] == 'lit':
                a, b = b, a
            if b[0] == 'lit':
                bb, R = lang_base(a, rx.neg(rx.lit(b[1])))
                return self._add_lang(bb, R)
            self.seqs.add(('s', a, b))
            return self._seqs_hold()
        x = self.norm(p[1])
        if k == 'le':
            if len(x.t) == 1:
                a, c = x.t[0]
                if c > 0:
                    return self._narrow(a, ((-INF, (-x.c) // c),))
                return self._narrow(a, ((_ceil_div(x.c, -c), INF),))
            self.ineqs.append(x)
            return True
        if k == 'eq':
            if len(x.t) == 1:
                a, c = x.t[0]
                v = (-x.c) // c
                return self._narrow(a, ((v, v),))
            return self._add_eq(x)
        if k == 'ne':
            if len(x.t) == 1:
                a, c = x.t[0]
                v = (-x.c) // c
                return self._narrow(a, rs_minus_point(self.range(a), v))
            self.nes.add(x)
            # sharpen x <= 0, x != 0 into x <= -1
            if self._prove(x, 2):
                self.ineqs.append(x + 1)
            elif self._prove(x.scale(-1), 2):
                self.ineqs.append(x.scale(-1) + 1)
            return True
        raise Exception(k)

    def _add_lang(self, b, R):
        cur = self.lang_of(b)
        new = rx.inter(cur, R)
        if rx.is_empty(new):
            return False
        self.lang[b] = new
        return True

    def _narrow(self, a, rs):
        r = rs_and(self.range(a), rs)
        if not r:
            return False
        self.rng[a] = r
        k = a.key
        if len(r) == 1 and r[0][0] == r[0][1]:
            # facts that mention this atom become sharper; re-normalise the inequalities
            v = r[0][0]
            if k[0] == 'nchars' and v <= 64:
                b, R = lang_base(k[1], rx.rep(rx.ANY, v, v))
                if b[0] != 'lit' and not self._add_lang(b, R):
                    return False
        if k[0] == 'len' and isinstance(k[1], tuple) and k[1][0] == 'sym' and (r[-1][0] <= 8 or r[-1][1] <= 8) and len(r) <= 4:
            lg = self.lang_of(k[1])
            if lg is not rx.ALL and is_ascii_lang(lg):
                R = rx.alt(*[rx.rep(rx.ANY, max(lo, 0), hi if hi <= 64 else None) for lo, hi in r if hi >= 0])
                if not self._add_lang(k[1], R):
                    return False
        if k[0] == 'ch' and isinstance(k[2], Lin) and k[2].is_const() and k[1] in self.lang and k[2].c <= 16:
            n = k[2].c
            R = rx.cat(rx.rep(rx.ANY, n, n), rx.cat(rx.chars(r), rx.ALL))
            if not self._add_lang(k[1], R):
                return False
        for f in self.ineqs:
            lo, _ = self.bounds(f)
            if lo > 0:
                return False
        return True

    def _add_eq(self, x):
        # eliminate the newest atom with unit coefficient
        best = None
        for a, c in x.t:
            if abs(c) == 1 and a.key[0] not in ('bits',):
                pr = (1 if a.key[0] in ('phi', 'fresh') else 0, a.uid)
                if best is None or pr > best[0]:
                    best = (pr, a, c)
        if best is None:
            self.ineqs.append(x)
            self.ineqs.append(x.scale(-1))
            return True
        _, a, c = best
        # c*a + rest = 0  ->  a = -rest/c
        rest = lin_comb(x, 1, L(a), -c)
        sol = rest.scale(-1) if c == 1 else rest
        r = self.range(a)
        self.sub[a] = sol
        lo, hi = r[0][0], r[-1][1]
        slo, shi = self.bounds(sol)
        if slo > hi or shi < lo:
            return False
        if slo < lo:
            self.ineqs.append(K(lo) - sol)
        if shi > hi:
            self.ineqs.append(sol - K(hi))
        new = []
        for f in self.ineqs:
            g = self.norm(f)
            if g.is_const():
                if g.c > 0:
                    return False
                continue
            if self.bounds(g)[0] > 0:
                return False
            new.append(g)
        self.ineqs = new
        nn = set()
        for f in self.nes:
            g = self.norm(f)
            if g.is_const():
                if g.c == 0:
                    return False
                continue
            nn.add(g)
        self.nes = nn
        for b in list(self.sub):
            if b is not a:
                self.sub[b] = self.norm(self.sub[b])
        return True


def _ceil_div(a, b):
    return -((-a) // b)


_sw = {}


def _single_word(R):
    r = _sw.get(R, 0)
    if r == 0:
        r = None
        w = rx.witness(R)
        if w is not None and rx.is_empty(rx.inter(R, rx.neg(rx.lit(w)))):
            r = w
        _sw[R] = r
    return r


def eval_derived(t, base, w):
    if t == base:
        return w
    k = t[0]
    if k == 'lower':
        return eval_derived(t[1], base, w).lower()
    if k == 'upper':
        return eval_derived(t[1], base, w).upper()
    if k == 'sub':
        s = eval_derived(t[1], base, w).encode('utf-8')
        n = t[2].c
        e = t[3].c if t[3].is_const() else len(s)
        return s[n:e].decode('utf-8')
    raise Unsupported("derived")


# ---- bit operations on linear forms -----------------------------------------------------------
def to_bits(st, x, n):
    """List of n bit descriptors (0, 1 or (atom, index)) of a non-negative form, or None."""
    b = to_bits0(st, x, n)
    if b is not None:
        return b
    # a low part that is not a sum of disjoint fields: its bits are those of an atom standing for it
    x = st.norm(x)
    for j in (4, 8, 12, 16):
        m = (1 << j) - 1
        low = Lin(x.c & m, tuple((a, k) for a, k in x.t if k & m))
        if not low.t:
            continue
        lo, hi = st.bounds(low)
        if lo < 0 and st.decide(p_le(ZERO, low)) is not True or hi > m and st.decide(p_le(low, K(m))) is not True:
            continue
        high = x - low
        rest = to_bits(st, Lin(high.c >> j, tuple((a, k >> j) for a, k in high.t)), max(n - j, 1))
        if rest is None:
            return None
        b = to_bits0(st, low, j)
        if b is None:
            a = atom(('op', 'id', low), 0, m)
            b = [(a, p) for p in range(j)]
        return (b + rest)[:max(n, 1)]
    return None


def to_bits0(st, x, n):
    """List of n bit descriptors (0, 1 or (atom, index)) of a non-negative form, or None."""
    x = st.norm(x)
    lo, hi = st.bounds(x)
    if lo < 0:
        return None
    bits = [0] * max(n, 1)
    if x.c < 0:
        return None
    used = [False] * (max(n, 1) + 64)
    kbs = {}
    c = x.c
    parts = []
    for a, k in x.t:
        if k <= 0:
            return None
        if st.lo(a) < 0:
            return None
        w = width(st.hi(a))
        for b in range(k.bit_length()):
            if k >> b & 1:
                parts.append((a, b, w))
    for a, sh, w in parts:
        for i in range(w):
            p = sh + i
            if p < len(used):
                if used[p]:
                    return None
                used[p] = True
            if p < n:
                bits[p] = (a, i) if a.key[0] != 'bits' else (a.key[1], a.key[2] + i)
    for p in range(len(bits)):
        q = bits[p]
        if isinstance(q, tuple):
            if q[0] not in kbs:
                kbs[q[0]] = st.known_bits(q[0]) or {}
            x = kbs[q[0]].get(q[1])
            if x is not None:
                bits[p] = x
    p = 0
    while c:
        if c & 1:
            if p < len(used) and used[p]:
                return None
            if p < n:
                bits[p] = 1
        c >>= 1
        p += 1
    return bits


def from_bits(st, bits):
    c = 0
    r = ZERO
    i = 0
    n = len(bits)
    while i < n:
        b = bits[i]
        if b == 0:
            i += 1
            continue
        if b == 1:
            c += 1 << i
            i += 1
            continue
        a, s = b
        j = i
        while j + 1 < n and isinstance(bits[j + 1], tuple) and bits[j + 1][0] is a and bits[j + 1][1] == s + (j + 1 - i):
            j += 1
        e = s + (j - i)
        w = width(st.hi(a))
        if s == 0 and e >= w - 1:
            t = L(a)
            if a.key[0] == 'op' and a.key[1] == 'id':
                t = a.key[2]
        else:
            e2 = min(e, w - 1)
            if e2 < s:
                t = ZERO
            else:
                t = L(atom(('bits', a, s, e2), 0, (1 << (e2 - s + 1)) - 1))
        r = lin_comb(r, 1, t, 1 << i)
        i = j + 1
    return r + c


def bits_slice(st, x, i, j):
    b = to_bits(st, x, j + 1)
    if b is None:
        return None
    return from_bits(st, b[i:j + 1])


def opaque_op(name, args, lo, hi):
    return L(atom(('op', name) + tuple(args), lo, hi))
