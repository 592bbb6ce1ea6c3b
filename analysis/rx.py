"""Regular languages over Unicode code points, by Brzozowski derivatives with boolean operators.

Nodes are hash-consed tuples:
  ('E',)            empty language
  ('e',)            empty word
  ('c', ranges)     one character out of a set (tuple of (lo, hi))
  ('.', a, b)       concatenation
  ('|', frozenset)  union
  ('&', frozenset)  intersection
  ('~', a)          complement
  ('*', a)          star
"""
MAXC = 0x10FFFF
EMPTY = ('E',)
EPS = ('e',)


class RxError(Exception):
    pass


# ---- character sets ---------------------------------------------------------------------------
def cs_norm(rs):
    rs = sorted((a, b) for a, b in rs if a <= b)
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return tuple(out)


def cs_neg(rs):
    out = []
    p = 0
    for a, b in rs:
        if a > p:
            out.append((p, a - 1))
        p = b + 1
    if p <= MAXC:
        out.append((p, MAXC))
    return tuple(out)


def cs_and(x, y):
    out = []
    i = j = 0
    while i < len(x) and j < len(y):
        lo = max(x[i][0], y[j][0])
        hi = min(x[i][1], y[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if x[i][1] < y[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def cs_has(rs, c):
    for a, b in rs:
        if a <= c <= b:
            return True
    return False


ANYSET = ((0, MAXC),)


# ---- constructors -----------------------------------------------------------------------------
_cons = {}


def _mk(t):
    return _cons.setdefault(t, t)


def chars(rs):
    rs = cs_norm(rs)
    return _mk(('c', rs)) if rs else EMPTY


ANY = chars(ANYSET)


def cat(a, b):
    if a is EMPTY or b is EMPTY:
        return EMPTY
    if a is EPS:
        return b
    if b is EPS:
        return a
    if a[0] == '.':
        return _mk(('.', a[1], cat(a[2], b)))
    return _mk(('.', a, b))


def star(a):
    if a is EMPTY or a is EPS:
        return EPS
    if a[0] == '*':
        return a
    return _mk(('*', a))


ALL = star(ANY)


def alt(*xs):
    s = set()
    cs = []
    for x in xs:
        if x[0] == '|':
            for y in x[1]:
                (cs.append(y) if y[0] == 'c' else s.add(y))
        elif x[0] == 'c':
            cs.append(x)
        elif x is not EMPTY:
            s.add(x)
    if cs:
        rs = []
        for c in cs:
            rs.extend(c[1])
        s.add(chars(rs))
    if ALL in s:
        return ALL
    if not s:
        return EMPTY
    if len(s) == 1:
        return next(iter(s))
    for x in s:
        if x[0] == '~' and x[1] in s:
            return ALL
    return _mk(('|', frozenset(s)))


def inter(*xs):
    s = set()
    for x in xs:
        if x[0] == '&':
            s |= x[1]
        elif x is not ALL:
            s.add(x)
    if EMPTY in s:
        return EMPTY
    if not s:
        return ALL
    cs = [x for x in s if x[0] == 'c']
    if len(cs) > 1:
        r = ANYSET
        for c in cs:
            r = cs_and(r, c[1])
        s -= set(cs)
        if not r:
            return EMPTY
        s.add(chars(r))
    if EPS in s:
        return EPS if all(nullable(x) for x in s) else EMPTY
    if len(s) == 1:
        return next(iter(s))
    for x in s:
        if x[0] == '~' and x[1] in s:
            return EMPTY
    return _mk(('&', frozenset(s)))


def neg(a):
    if a[0] == '~':
        return a[1]
    if a is EMPTY:
        return ALL
    if a is ALL:
        return EMPTY
    return _mk(('~', a))


def lit(s):
    r = EPS
    for ch in reversed(s):
        r = cat(chars([(ord(ch), ord(ch))]), r)
    return r


def plus(a):
    return cat(a, star(a))


def opt(a):
    return alt(a, EPS)


def rep(a, lo, hi):
    r = EPS
    if hi is None:
        r = star(a)
    else:
        for _ in range(hi - lo):
            r = alt(EPS, cat(a, r))
    for _ in range(lo):
        r = cat(a, r)
    return r


# ---- semantics --------------------------------------------------------------------------------
_null = {}


def nullable(a):
    r = _null.get(a)
    if r is None:
        k = a[0]
        if k in ('E', 'c'):
            r = False
        elif k in ('e', '*'):
            r = True
        elif k == '.':
            r = nullable(a[1]) and nullable(a[2])
        elif k == '|':
            r = any(nullable(x) for x in a[1])
        elif k == '&':
            r = all(nullable(x) for x in a[1])
        else:
            r = not nullable(a[1])
        _null[a] = r
    return r


_deriv = {}


def deriv(a, c):
    """Derivative by code point c (callers pass class representatives)."""
    k = (a, c)
    r = _deriv.get(k)
    if r is not None:
        return r
    t = a[0]
    if t in ('E', 'e'):
        r = EMPTY
    elif t == 'c':
        r = EPS if cs_has(a[1], c) else EMPTY
    elif t == '.':
        r = cat(deriv(a[1], c), a[2])
        if nullable(a[1]):
            r = alt(r, deriv(a[2], c))
    elif t == '|':
        r = alt(*[deriv(x, c) for x in a[1]])
    elif t == '&':
        r = inter(*[deriv(x, c) for x in a[1]])
    elif t == '*':
        r = cat(deriv(a[1], c), a)
    else:
        r = neg(deriv(a[1], c))
    _deriv[k] = r
    return r


_classes = {}


def classes(a):
    """A partition of the alphabet (list of (representative, charset)) fine enough for deriv(a, .)."""
    r = _classes.get(a)
    if r is None:
        cuts = set([0, MAXC + 1])

        def walk(x):
            t = x[0]
            if t == 'c':
                for lo, hi in x[1]:
                    cuts.add(lo)
                    cuts.add(hi + 1)
            elif t == '.':
                walk(x[1])
                if nullable(x[1]):
                    walk(x[2])
            elif t in '|&':
                for y in x[1]:
                    walk(y)
            elif t in '*~':
                walk(x[1])
        walk(a)
        cs = sorted(cuts)
        by = {}
        for i in range(len(cs) - 1):
            d = deriv(a, cs[i])
            by.setdefault(d, []).append((cs[i], cs[i + 1] - 1))
        r = [(rs[0][0], tuple(rs), d) for d, rs in by.items()]
        _classes[a] = r
    return r


_empty = {}


def is_empty(a):
    r = _empty.get(a)
    if r is not None:
        return r
    seen = {a}
    st = [a]
    res = True
    while st:
        x = st.pop()
        if nullable(x):
            res = False
            break
        k = _empty.get(x)
        if k is False:
            res = False
            break
        if k is True:
            continue
        for _, _, d in classes(x):
            if d not in seen:
                seen.add(d)
                st.append(d)
    _empty[a] = res
    if res:
        for x in seen:
            _empty[x] = True
    return res


def witness(a, limit=200000):
    """A shortest word of a (prefers printable characters), or None."""
    from collections import deque
    q = deque([(a, ())])
    seen = {a}
    while q:
        x, w = q.popleft()
        if nullable(x):
            return ''.join(chr(c) for c in w)
        for rep_, rs, d in classes(x):
            if d is not EMPTY and d not in seen:
                seen.add(d)
                q.append((d, w + (_nice(rs),)))
    return None


def _nice(rs):
    for pref in (ord('a'), ord('0'), ord('Z'), ord(' ')):
        if cs_has(rs, pref):
            return pref
    for a, b in rs:
        lo = max(a, 0x21)
        hi = min(b, 0x7e)
        if lo <= hi:
            return lo
    return rs[0][0]


def subset(a, b):
    return is_empty(inter(a, neg(b)))


def disjoint(a, b):
    return is_empty(inter(a, b))


def equal(a, b):
    return a is b or (subset(a, b) and subset(b, a))


_mid = {}
_mre = []
_mstep = {}


def matches(a, s):
    k = _mid.get(a)
    if k is None:
        k = _mid[a] = len(_mre)
        _mre.append(a)
    for ch in s:
        n = _mstep.get((k, ch))
        if n is None:
            d = deriv(_mre[k], ord(ch))
            n = _mid.get(d)
            if n is None:
                n = _mid[d] = len(_mre)
                _mre.append(d)
            _mstep[(k, ch)] = n
        k = n
    return nullable(_mre[k])


def first_set(a):
    """Characters that can start a word of a."""
    rs = []
    for _, cs, d in classes(a):
        if not is_empty(d):
            rs.extend(cs)
    return cs_norm(rs)


def deriv_any(a):
    """Words left after removing any one first character."""
    return alt(*[d for _, _, d in classes(a)]) if classes(a) else EMPTY


def len_bounds(a, cap=64):
    """(min, max or None) word length; None, None when empty."""
    if is_empty(a):
        return None, None
    cur = {a}
    lo = None
    n = 0
    hi = 0
    while n <= cap:
        if any(nullable(x) for x in cur):
            if lo is None:
                lo = n
            hi = n
        nxt = set()
        for x in cur:
            for _, _, d in classes(x):
                if d is not EMPTY and not is_empty(d):
                    nxt.add(d)
        if not nxt:
            return lo, hi
        cur = nxt
        n += 1
    return (lo if lo is not None else 0), None


def longest_prefix(a, s):
    """Length of the longest prefix of s in a, or None."""
    best = 0 if nullable(a) else None
    for i, ch in enumerate(s):
        a = deriv(a, ord(ch))
        if a is EMPTY:
            break
        if nullable(a):
            best = i + 1
    return best


def ci(s):
    """All ASCII letter-case variants of s."""
    r = EPS
    for ch in reversed(s):
        if ch.isascii() and ch.isalpha():
            r = cat(chars([(ord(ch.lower()),) * 2, (ord(ch.upper()),) * 2]), r)
        else:
            r = cat(lit(ch), r)
    return r


def map_ascii_lower_inv(a):
    """{ w | ascii_lower(w) in a }"""
    t = a[0]
    if t == 'c':
        rs = []
        up = cs_and(a[1], ((ord('a'), ord('z')),))
        keep = cs_and(a[1], cs_neg(((ord('A'), ord('Z')),)))
        rs.extend(keep)
        rs.extend((x - 32, y - 32) for x, y in up)
        return chars(rs)
    if t in 'Ee':
        return a
    if t == '.':
        return cat(map_ascii_lower_inv(a[1]), map_ascii_lower_inv(a[2]))
    if t == '|':
        return alt(*[map_ascii_lower_inv(x) for x in a[1]])
    if t == '&':
        return inter(*[map_ascii_lower_inv(x) for x in a[1]])
    if t == '~':
        return neg(map_ascii_lower_inv(a[1]))
    return star(map_ascii_lower_inv(a[1]))


def map_ascii_upper_inv(a):
    t = a[0]
    if t == 'c':
        rs = []
        lo = cs_and(a[1], ((ord('A'), ord('Z')),))
        keep = cs_and(a[1], cs_neg(((ord('a'), ord('z')),)))
        rs.extend(keep)
        rs.extend((x + 32, y + 32) for x, y in lo)
        return chars(rs)
    if t in 'Ee':
        return a
    if t == '.':
        return cat(map_ascii_upper_inv(a[1]), map_ascii_upper_inv(a[2]))
    if t == '|':
        return alt(*[map_ascii_upper_inv(x) for x in a[1]])
    if t == '&':
        return inter(*[map_ascii_upper_inv(x) for x in a[1]])
    if t == '~':
        return neg(map_ascii_upper_inv(a[1]))
    return star(map_ascii_upper_inv(a[1]))


# ---- parser for the subset of regex syntax used by the `regex` crate ---------------------------
# White_Space property (regex 0.1 \s is Unicode-aware).
SPACE = cs_norm([(9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A),
                 (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)])
ASCII_DIGIT = ((48, 57),)


class Parser(object):
    """Returns (anchored_start, node, anchored_end, greedy_ok)."""

    def __init__(self, s):
        self.s = s
        self.i = 0
        self.greedy_ok = True

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else None

    def parse(self):
        start = False
        if self.peek() == '^':
            start = True
            self.i += 1
        n = self.alts()
        end = False
        if self.peek() == '$':
            self.i += 1
            end = True
        if self.i != len(self.s):
            raise RxError("unsupported regex syntax at %d in %r" % (self.i, self.s))
        return start, n, end, self.greedy_ok

    def alts(self):
        xs = [self.seq()]
        while self.peek() == '|':
            self.i += 1
            xs.append(self.seq())
        if len(xs) > 1:
            # leftmost-first picks the first alternative; only harmless when alternatives start
            # with disjoint characters
            fs = [first_set(x) for x in xs]
            for a in range(len(fs)):
                if nullable(xs[a]):
                    self.greedy_ok = False
                for b in range(a):
                    if cs_and(fs[a], fs[b]):
                        self.greedy_ok = False
        return alt(*xs) if len(xs) > 1 else xs[0]

    def seq(self):
        r = []
        while self.peek() is not None and self.peek() not in '|)':
            if self.peek() == '$' and self.i == len(self.s) - 1:
                break
            r.append(self.rep())
        n = EPS
        for x in reversed(r):
            n = cat(x, n)
        return n

    def rep(self):
        a = self.atom()
        while self.peek() is not None and self.peek() in '*+?{':
            c = self.peek()
            if c == '*':
                a = star(a)
                self.i += 1
            elif c == '+':
                a = plus(a)
                self.i += 1
            elif c == '?':
                a = opt(a)
                self.i += 1
            else:
                j = self.s.find('}', self.i)
                body = self.s[self.i + 1:j]
                self.i = j + 1
                if ',' in body:
                    lo, hi = body.split(',', 1)
                    a = rep(a, int(lo), int(hi) if hi.strip() else None)
                else:
                    a = rep(a, int(body), int(body))
            if self.peek() == '?':
                self.greedy_ok = False
                self.i += 1
        return a

    def atom(self):
        c = self.peek()
        if c == '(':
            self.i += 1
            if self.s.startswith('?:', self.i):
                self.i += 2
            elif self.peek() == '?':
                raise RxError("unsupported group in %r" % self.s)
            n = self.alts()
            if self.peek() != ')':
                raise RxError("unbalanced group in %r" % self.s)
            self.i += 1
            return n
        if c == '[':
            return chars(self.cls())
        if c == '.':
            self.i += 1
            return chars(cs_neg(((10, 10),)))
        if c == '\\':
            k, v = self.esc()
            return chars(v)
        if c in '^$':
            raise RxError("inner anchor in %r" % self.s)
        self.i += 1
        return chars([(ord(c), ord(c))])

    def esc(self):
        self.i += 1
        c = self.peek()
        if c is None:
            raise RxError("trailing backslash")
        self.i += 1
        m = {'n': 10, 't': 9, 'r': 13, 'f': 12, 'v': 11, 'a': 7}
        if c in m:
            return 'c', ((m[c], m[c]),)
        if c == 's':
            return 's', SPACE
        if c == 'S':
            return 's', cs_neg(SPACE)
        if c in 'dDwWpPbBAz':
            raise RxError("unsupported escape \\%s" % c)
        if c == 'x':
            if self.peek() == '{':
                j = self.s.find('}', self.i)
                v = int(self.s[self.i + 1:j], 16)
                self.i = j + 1
            else:
                v = int(self.s[self.i:self.i + 2], 16)
                self.i += 2
            return 'c', ((v, v),)
        if c.isalnum():
            raise RxError("unsupported escape \\%s" % c)
        return 'c', ((ord(c), ord(c)),)

    def cls(self):
        self.i += 1
        negate = False
        if self.peek() == '^':
            negate = True
            self.i += 1
        rs = []
        first = True
        while True:
            c = self.peek()
            if c is None:
                raise RxError("unterminated class")
            if c == ']' and not first:
                self.i += 1
                break
            first = False
            if c == '[':
                raise RxError("nested class")
            if c == '\\':
                k, v = self.esc()
                if k == 's':
                    rs.extend(v)
                    continue
                lo = v[0][0]
            else:
                self.i += 1
                lo = ord(c)
            if self.peek() == '-' and self.i + 1 < len(self.s) and self.s[self.i + 1] != ']':
                self.i += 1
                c2 = self.peek()
                if c2 == '\\':
                    k, v = self.esc()
                    hi = v[0][0]
                else:
                    self.i += 1
                    hi = ord(c2)
                rs.append((lo, hi))
            else:
                rs.append((lo, lo))
        rs = cs_norm(rs)
        return cs_neg(rs) if negate else rs


_pcache = {}


def parse(s):
    r = _pcache.get(s)
    if r is None:
        r = Parser(s).parse()
        _pcache[s] = r
    return r


def R(s):
    """Language of an (unanchored-syntax) pattern."""
    return parse(s)[1]
