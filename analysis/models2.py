"""Further transfer functions: less common Vec/str operations.

Pure string functions without a closed form in the string domain stay uninterpreted terms
('fn', name, arguments...) that a valuation can evaluate, so a path through them is still exact."""
from models import *
from models import call_closure, both, pattern_lang, rx_chars, CLASSES
from models import model, ret, some, none, as_str, as_seq, target, deref, panic, range_bounds, str_eq, char_str, bytes_seq

WS = "\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"


def _tm_start(s, p):
    while p and s.startswith(p):
        s = s[len(p):]
    return s


def _tm_end(s, p):
    while p and s.endswith(p):
        s = s[:len(s) - len(p)]
    return s


EVAL = {
    'trim': lambda s: s.strip(WS),
    'trim_start': lambda s: s.lstrip(WS),
    'trim_end': lambda s: s.rstrip(WS),
    'trim_matches': lambda s, p: _tm_end(_tm_start(s, p), p),
    'trim_start_matches': _tm_start,
    'trim_end_matches': _tm_end,
    'replace': lambda s, a, b: s.replace(a, b),
    'ulower': lambda s: s.lower(),
    'uupper': lambda s: s.upper(),
}
dom.STRFN = EVAL


def strfn(st, name, *ts):
    cs = [st.const_str(t) for t in ts]
    if all(c is not None for c in cs):
        return ('lit', EVAL[name](*cs))
    return ('fn', name) + tuple(ts)


def pat_str(ip, st, v):
    """A char or string pattern as a string term."""
    if isinstance(v, Lin):
        return char_str(st, v)
    return as_str(ip, st, v)


@model(r"~(core|std|alloc)::str::<impl str>::(trim|trim_start|trim_end|trim_left|trim_right)$")
def m_trim(ip, st, fn, args, site):
    t = as_str(ip, st, args[0])
    name = {"trim_left": "trim_start", "trim_right": "trim_end"}.get(fn.def_.split("::")[-1], fn.def_.split("::")[-1])
    if st.decide(('in', t, rx.R('[_a-zA-Z0-9]*'))) is True:
        return ret(st, StrV(t))
    if is_cells(t):
        return ret(st, StrV(cells_trim(st, cells(t), CLASSES["is_whitespace"], name != "trim_end", name != "trim_start")))
    return ret(st, StrV(strfn(st, name, t)))


@model(r"~(core|std|alloc)::str::<impl str>::(trim_matches|trim_start_matches|trim_end_matches|trim_left_matches|trim_right_matches)$")
def m_trim_matches(ip, st, fn, args, site):
    t = as_str(ip, st, args[0])
    n = fn.def_.split("::")[-1].replace("_left_", "_start_").replace("_right_", "_end_")
    cs = cells(t)
    pat = deref(ip, st, args[1]) if isinstance(args[1], Ptr) else args[1]
    if isinstance(pat, StrV) and len(st.const_str(pat.t) or "") == 1:
        pat = K(ord(st.const_str(pat.t)))
    if cs is not None and not isinstance(pat, StrV):
        if isinstance(pat, Lin):
            args = [args[0], pat]
        outs = []
        work = [(st, 0, len(cs), n != "trim_end_matches", n != "trim_start_matches")]
        while work:
            s, i, j, front, back = work.pop()
            if i == j or not front and not back:
                outs.append(Out("ret", s, StrV(of_cells(cs[i:j]))))
                continue
            for s2, h in char_hit(ip, s, args[1], cs[i][0] if front else cs[j - 1][0], site):
                if front:
                    work.append((s2, i + 1, j, True, back) if h else (s2, i, j, False, back))
                else:
                    work.append((s2, i, j - 1, False, True) if h else (s2, i, j, False, False))
        return outs
    return ret(st, StrV(strfn(st, n, t, pat_str(ip, st, args[1]))))


def cells_trim(st, cs, rng, front, back):
    def hit(c):
        return st.need(class_pred(K(c) if isinstance(c, int) else c, rng))
    i, j = 0, len(cs)
    while front and i < j and hit(cs[i][0]):
        i += 1
    while back and i < j and hit(cs[j - 1][0]):
        j -= 1
    return of_cells(cs[i:j])


def char_hit(ip, st, pat, c, site):
    """[(state, does the char match the pattern)] for char, char slice and closure patterns (None: string)."""
    c = K(c) if isinstance(c, int) else st.norm(c)
    v = pat
    if isinstance(v, Ptr):
        v = deref(ip, st, v)
    if isinstance(v, StrV):
        return None
    if isinstance(v, Lin):
        return [(st, st.need(p_eq(c, v)))]
    if isinstance(v, SeqV):
        R, _ = pattern_lang(ip, st, v)
        return [(st, st.need(class_pred(c, rx.first_set(R))))]
    out = []
    for o, f2 in call_closure(ip, st, pat, [c], site):
        if o.kind != "ret":
            raise Unsupported("pattern closure")
        out.extend(both(ip, o.st, o.val))
    return out


@model(r"~core::str::<impl str>::(find|rfind)$")
def m_str_find(ip, st, fn, args, site):
    t = as_str(ip, st, args[0])
    cs = cells(t)
    if cs is None:
        raise Unsupported("find in symbolic text")
    back = fn.def_.endswith("rfind")
    at = [0]
    for c, n in cs:
        at.append(at[-1] + n)
    pat = args[1]
    v = deref(ip, st, pat) if isinstance(pat, Ptr) else pat
    order = range(len(cs))
    if isinstance(v, StrV):
        w = st.const_str(v.t)
        if w is None:
            raise Unsupported("symbolic pattern")
        order = range(len(cs) - len(w) + 1)
        for i in (reversed(order) if back else order):
            if cells_need(st, cs[i:i + len(w)], rx.lit(w)):
                return ret(st, some(ip, fn, site, K(at[i])))
        return ret(st, none(ip, fn, site))
    outs = []
    cur = [st]
    for i in (reversed(order) if back else order):
        nxt = []
        for s in cur:
            for s2, h in char_hit(ip, s, pat, cs[i][0], site):
                if h:
                    outs.append(Out("ret", s2, some(ip, fn, site, K(at[i]))))
                else:
                    nxt.append(s2)
        cur = nxt
    return outs + [Out("ret", s, none(ip, fn, site)) for s in cur]


@model(r"~core::str::<impl str>::lines$")
def m_lines(ip, st, fn, args, site):
    cs = cells(as_str(ip, st, args[0]))
    if cs is None:
        raise Unsupported("lines of symbolic text")
    out, cur = [], []
    for c, n in cs:
        if st.need(p_eq(K(c) if isinstance(c, int) else c, K(10))):
            if cur and st.need(p_eq(K(cur[-1][0]) if isinstance(cur[-1][0], int) else cur[-1][0], K(13))):
                cur = cur[:-1]
            out.append(cur)
            cur = []
        else:
            cur.append((c, n))
    if cur:
        out.append(cur)
    return ret(st, IterV("into", SeqV([('e', StrV(of_cells(x))) for x in out])))


def hits(ip, st, cs, pat, site, back=False, most=None):
    """[(state, [(first cell, one past the last cell)])]: where the pattern occurs, in text order."""
    v = deref(ip, st, pat) if isinstance(pat, Ptr) else pat
    if isinstance(v, StrV):
        w = st.const_str(v.t)
        if not w:
            raise Unsupported("symbolic or empty pattern")
        out, k = [], len(w)
        i = len(cs) - k if back else 0
        while 0 <= i <= len(cs) - k and (most is None or len(out) < most):
            if cells_need(st, cs[i:i + k], rx.lit(w)):
                out.append((i, i + k))
                i += -k if back else k
            else:
                i += -1 if back else 1
        return [(st, sorted(out))]
    order = list(range(len(cs)))
    if back:
        order.reverse()
    outs, work = [], [(st, 0, ())]
    while work:
        s, q, found = work.pop()
        if q == len(order) or (most is not None and len(found) >= most):
            outs.append((s, sorted(found)))
            continue
        i = order[q]
        for s2, h in char_hit(ip, s, pat, cs[i][0], site):
            work.append((s2, q + 1, found + ((i, i + 1),) if h else found))
    return outs


def pieces(cs, hs):
    out, at = [], 0
    for a, b in hs:
        out.append(cs[at:a])
        at = b
    return out + [cs[at:]]


@model(r"~(core|std|alloc)::str::<impl str>::(split|rsplit|splitn|rsplitn|split_terminator|rsplit_terminator|split_inclusive|matches|rmatches|match_indices)$")
def m_split(ip, st, fn, args, site):
    name = fn.def_.split("::")[-1]
    cs = cells(as_str(ip, st, args[0]))
    if cs is None:
        raise Unsupported("split of symbolic text")
    back = name.startswith("r")
    most = None
    pat = args[1]
    if name in ("splitn", "rsplitn"):
        n = st.norm(args[1])
        if not n.is_const():
            raise Unsupported("symbolic number of pieces")
        n = n.c
        if n == 0:
            return ret(st, IterV("into", SeqV(())))
        most, pat = n - 1, args[2]
    outs = []
    for s, hs in hits(ip, st, cs, pat, site, back, most):
        if name in ("matches", "rmatches", "match_indices"):
            xs = [cs[a:b] for a, b in hs]
        elif name == "split_inclusive":
            xs = [cs[a:b] for a, b in zip([0] + [h[1] for h in hs], [h[1] for h in hs])]
            if not hs or hs[-1][1] < len(cs):
                xs.append(cs[hs[-1][1] if hs else 0:])
            if not cs:
                xs = []
        else:
            xs = pieces(cs, hs)
            if name.endswith("terminator") and not xs[-1]:
                xs.pop()
        vs = [StrV(of_cells(x)) for x in xs]
        if name == "match_indices":
            at = [0]
            for c, n in cs:
                at.append(at[-1] + n)
            vs = [Agg(None, None, (K(at[a]), x)) for (a, b), x in zip(hs, vs)]
        if back:
            vs.reverse()
        outs.append(Out("ret", s, IterV("into", SeqV([('e', x) for x in vs]))))
    return outs


@model(r"~(core|std|alloc)::str::<impl str>::(split_whitespace|split_ascii_whitespace)$")
def m_split_ws(ip, st, fn, args, site):
    cs = cells(as_str(ip, st, args[0]))
    if cs is None:
        raise Unsupported("split of symbolic text")
    rng = CLASSES["is_ascii_whitespace" if "ascii" in fn.def_.split("::")[-1] else "is_whitespace"]
    out, cur = [], []
    for c, n in cs:
        if st.need(class_pred(K(c) if isinstance(c, int) else c, rng)):
            if cur:
                out.append(cur)
            cur = []
        else:
            cur = cur + [(c, n)]
    if cur:
        out.append(cur)
    return ret(st, IterV("into", SeqV([('e', StrV(of_cells(x))) for x in out])))


@model(r"~(core|std|alloc)::str::<impl str>::(split_once|rsplit_once)$")
def m_split_once(ip, st, fn, args, site):
    cs = cells(as_str(ip, st, args[0]))
    if cs is None:
        raise Unsupported("split of symbolic text")
    outs = []
    for s, hs in hits(ip, st, cs, args[1], site, fn.def_.endswith("rsplit_once"), 1):
        if hs:
            (a, b), = hs
            outs.append(Out("ret", s, some(ip, fn, site, Agg(None, None, (StrV(of_cells(cs[:a])), StrV(of_cells(cs[b:])))))))
        else:
            outs.append(Out("ret", s, none(ip, fn, site)))
    return outs


@model(r"~(core|std|alloc)::str::<impl str>::replace$")
def m_replace(ip, st, fn, args, site):
    return ret(st, StrV(strfn(st, 'replace', as_str(ip, st, args[0]), pat_str(ip, st, args[1]), as_str(ip, st, args[2]))))


@model("std::vec::Vec::<T, A>::insert")
def m_vec_insert(ip, st, fn, args, site):
    p, v = target(ip, st, args[0])
    n = st.norm(seq_len(v))
    i = st.norm(args[1])
    if not st.need(p_le(i, n)):
        return panic(st, "insertion index out of bounds", site)
    a, b = ip.seq_slice(st, v, ZERO, i), ip.seq_slice(st, v, i, n)
    ip.store(st, p.cell, p.path, SeqV(tuple(a.segs) + (('e', args[2]),) + tuple(b.segs)))
    return ret(st, UNIT)


@model("std::vec::Vec::<T, A>::remove")
def m_vec_remove(ip, st, fn, args, site):
    p, v = target(ip, st, args[0])
    n = st.norm(seq_len(v))
    i = st.norm(args[1])
    if not st.need(p_lt(i, n)):
        return panic(st, "removal index out of bounds", site)
    x = ip.seq_get(st, v, i)
    a, b = ip.seq_slice(st, v, ZERO, i), ip.seq_slice(st, v, i + 1, n)
    ip.store(st, p.cell, p.path, SeqV(tuple(a.segs) + tuple(b.segs)))
    return ret(st, x)


@model("std::vec::Vec::<T, A>::swap_remove")
def m_vec_swap_remove(ip, st, fn, args, site):
    p, v = target(ip, st, args[0])
    n = st.norm(seq_len(v))
    i = st.norm(args[1])
    if not st.need(p_lt(i, n)):
        return panic(st, "swap_remove index out of bounds", site)
    x = ip.seq_get(st, v, i)
    if st.need(p_eq(i, n - 1)):
        ip.store(st, p.cell, p.path, ip.seq_slice(st, v, ZERO, n - 1))
        return ret(st, x)
    l = ip.seq_get(st, v, n - 1)
    a, b = ip.seq_slice(st, v, ZERO, i), ip.seq_slice(st, v, i + 1, n - 1)
    ip.store(st, p.cell, p.path, SeqV(tuple(a.segs) + (('e', l),) + tuple(b.segs)))
    return ret(st, x)


@model("std::vec::Vec::<T, A>::split_off")
def m_vec_split_off(ip, st, fn, args, site):
    p, v = target(ip, st, args[0])
    n = st.norm(seq_len(v))
    i = st.norm(args[1])
    if not st.need(p_le(i, n)):
        return panic(st, "split_off index out of bounds", site)
    r = ip.seq_slice(st, v, i, n)
    ip.store(st, p.cell, p.path, ip.seq_slice(st, v, ZERO, i))
    return ret(st, r)


@model("~std::vec::Vec::<T, A>::(drain|splice)$")
def m_vec_drain(ip, st, fn, args, site):
    if fn.def_.endswith("splice"):
        raise Unsupported("splice")
    p, v = target(ip, st, args[0])
    n = st.norm(seq_len(v))
    lo, hi = range_bounds(ip, st, args[1], n)
    if not st.need(p_le(lo, hi)) or not st.need(p_le(hi, n)):
        return panic(st, "drain range out of bounds", site)
    d = ip.seq_slice(st, v, lo, hi)
    a, b = ip.seq_slice(st, v, ZERO, lo), ip.seq_slice(st, v, hi, n)
    ip.store(st, p.cell, p.path, SeqV(tuple(a.segs) + tuple(b.segs)))
    return ret(st, IterV("into", d))


@model("std::vec::Vec::<T, A>::resize")
def m_vec_resize(ip, st, fn, args, site):
    p, v = target(ip, st, args[0])
    n = st.norm(seq_len(v))
    m = st.norm(args[1])
    if st.need(p_le(m, n)):
        ip.store(st, p.cell, p.path, ip.seq_slice(st, v, ZERO, m))
        return ret(st, UNIT)
    d = st.norm(m - n)
    for k in range(1, 33):
        if st.need(p_eq(d, K(k))):
            ip.store(st, p.cell, p.path, SeqV(tuple(v.segs) + (('e', args[2]),) * k))
            return ret(st, UNIT)
    raise Unsupported("resize by a symbolic amount")


def known(v, what):
    if not all(s[0] == 'e' for s in v.segs):
        raise Unsupported(what + " of a symbolic sequence")
    return [s[1] for s in v.segs]


def eq_pred(ip, st, x, y):
    x, y = deref(ip, st, x), deref(ip, st, y)
    if isinstance(x, Lin) and isinstance(y, Lin):
        return p_eq(x, y)
    if isinstance(x, StrV) and isinstance(y, StrV):
        return str_eq(x.t, y.t)
    if x == y:
        return TRUE
    raise Unsupported("equality of elements")


@model("~std::vec::Vec::<T, A>::dedup$")
def m_vec_dedup(ip, st, fn, args, site):
    p, v = target(ip, st, args[0])
    out = []
    for x in known(v, "dedup"):
        if out and st.need(eq_pred(ip, st, out[-1], x)):
            continue
        out.append(x)
    ip.store(st, p.cell, p.path, SeqV([('e', x) for x in out]))
    return ret(st, UNIT)


@model("~std::vec::Vec::<T, A>::(retain|retain_mut)$")
def m_vec_retain(ip, st, fn, args, site):
    p, v = target(ip, st, args[0])
    xs = known(v, "retain")
    outs = []
    work = [(st, 0, (), args[1])]
    while work:
        s, i, kept, f = work.pop()
        if i == len(xs):
            ip.store(s, p.cell, p.path, SeqV([('e', x) for x in kept]))
            outs.append(Out("ret", s, UNIT))
            continue
        for o, f2 in call_closure(ip, s, f, [Ptr(('val', xs[i]))], site):
            if o.kind != "ret":
                outs.append(o)
                continue
            for s2, keep in both(ip, o.st, o.val):
                work.append((s2, i + 1, kept + (xs[i],) if keep else kept, f2))
    return outs


def sort_key_le(ip, st, a, b):
    """a <= b in the derived order of numbers, text constants, tuples and references."""
    a, b = deref(ip, st, a) if isinstance(a, Ptr) else a, deref(ip, st, b) if isinstance(b, Ptr) else b
    if isinstance(a, Lin) and isinstance(b, Lin):
        return st.need(p_le(a, b))
    if isinstance(a, StrV) and isinstance(b, StrV):
        x, y = st.const_str(a.t), st.const_str(b.t)
        if x is not None and y is not None:
            return x.encode() <= y.encode()
    if isinstance(a, Agg) and isinstance(b, Agg) and a.var is None and b.var is None and len(a.fs) == len(b.fs):
        for x, y in zip(a.fs, b.fs):
            if not sort_key_le(ip, st, x, y):
                return False
            if not sort_key_le(ip, st, y, x):
                return True
        return True
    raise Unsupported("order of %r" % (a,))


@model(r"~(std|core|alloc)::slice::<impl \[T\]>::(sort_by_key|sort_unstable_by_key|sort_by_cached_key)$")
def m_sort_key(ip, st, fn, args, site):
    p, v = target(ip, st, args[0])
    xs = known(v, "sort")
    todo = [(st, [])]
    outs = []
    for x in xs:
        nxt = []
        for s, ks in todo:
            for o, f2 in call_closure(ip, s, args[1], [Ptr(('val', x))], site):
                if o.kind != "ret":
                    outs.append(o)
                else:
                    nxt.append((o.st, ks + [o.val]))
        todo = nxt
    if len(todo) != 1:
        raise Unsupported("sort key by cases")
    s, ks = todo[0]
    out = []
    for x, key in zip(xs, ks):
        k = len(out)
        while k > 0 and not sort_key_le(ip, s, out[k - 1][1], key):
            k -= 1
        out.insert(k, (x, key))
    ip.store(s, p.cell, p.path, SeqV([('e', x) for x, _ in out]))
    outs.append(Out("ret", s, UNIT))
    return outs


@model(r"~(std|core|alloc)::slice::<impl \[T\]>::(sort_by|sort_unstable_by)$")
def m_sort_by(ip, st, fn, args, site):
    """Stable insertion by the comparison closure."""
    p, v = target(ip, st, args[0])
    xs = known(v, "sort")
    todo = [(st, [])]
    outs = []
    for x in xs:
        nxt = []
        for s, done in todo:
            cur = [(s, len(done))]
            while cur:
                s1, k = cur.pop()
                if k == 0:
                    nxt.append((s1, [x] + done))
                    continue
                for o, f2 in call_closure(ip, s1, args[1], [Ptr(('val', done[k - 1])), Ptr(('val', x))], site):
                    if o.kind != "ret":
                        outs.append(o)
                        continue
                    d = o.val if isinstance(o.val, Lin) else ip.discr(o.val)
                    for s2, gt in both(ip, o.st, p_le(ONE, d)):
                        if gt:
                            cur.append((s2, k - 1))
                        else:
                            nxt.append((s2, done[:k] + [x] + done[k:]))
        todo = nxt
        if len(todo) > 200:
            raise Unsupported("sort by cases")
    for s, done in todo:
        ip.store(s, p.cell, p.path, SeqV([('e', x) for x in done]))
        outs.append(Out("ret", s, UNIT))
    return outs


@model(r"~(std|core|alloc)::slice::<impl \[T\]>::(sort|sort_unstable)$")
def m_sort(ip, st, fn, args, site):
    p, v = target(ip, st, args[0])
    out = []
    for x in known(v, "sort"):
        k = len(out)
        while k > 0 and not sort_key_le(ip, st, out[k - 1], x):
            k -= 1
        out.insert(k, x)
    ip.store(st, p.cell, p.path, SeqV([('e', x) for x in out]))
    return ret(st, UNIT)


@model(r"~(std|core)::slice::<impl \[T\]>::swap$")
def m_swap(ip, st, fn, args, site):
    p, v = target(ip, st, args[0])
    n = st.norm(seq_len(v))
    for a in args[1:3]:
        if not st.need(p_lt(a, n)):
            return panic(st, "index out of bounds", site)
    x, y = ip.seq_get(st, v, args[1]), ip.seq_get(st, v, args[2])
    v = ip.seq_set(st, v, args[1], (), y)
    v = ip.seq_set(st, v, args[2], (), x)
    ip.store(st, p.cell, p.path, v)
    return ret(st, UNIT)


@model(r"~(std|core)::slice::<impl \[T\]>::(starts_with|ends_with)$")
def m_slice_starts(ip, st, fn, args, site):
    v, w = as_seq(ip, st, args[0]), as_seq(ip, st, args[1])
    n, m = st.norm(seq_len(v)), st.norm(seq_len(w))
    if not m.is_const():
        raise Unsupported("starts_with")
    if not st.need(p_le(m, n)):
        return ret(st, FALSE)
    for i in range(m.c):
        j = K(i) if fn.def_.endswith("starts_with") else st.norm(n - m + i)
        if not st.need(eq_pred(ip, st, ip.seq_get(st, v, j), ip.seq_get(st, w, K(i)))):
            return ret(st, FALSE)
    return ret(st, TRUE)


# ------------------------------------------------------------------------------------------ ihex
def record_variant(ip, st, x):
    v = ip.variant_index(st, x)
    t = ip.types[x.ty]
    return t["variants"][v]["n"], v


def record_data(x):
    for f in x.fs:
        if isinstance(f, SeqV):
            return f
    return None


@model(r"~(.*::)?ihex::writer::<impl (\w+::)*Record>::to_string$", r"~(.*::)?ihex::record::Record::to_string$")
def m_rec_text(ip, st, fn, args, site):
    x = deref(ip, st, args[0])
    n, v = record_variant(ip, st, x)
    if n == "Data":
        d = record_data(x)
        if not st.need(p_le(seq_len(d), K(255))):
            return ret(st, Agg(None, 1, (SymV(('opq', 'writer-error'), None),)))
    return ret(st, Agg(None, None, (StrV(('rec', x)),)))


@model(r"~(.*::)?ihex::writer::create_object_file_representation$")
def m_ihex_object(ip, st, fn, args, site):
    v = as_seq(ip, st, args[0])
    err = Agg(None, 1, (SymV(('opq', 'writer-error'), None),))
    xs = known(v, "records")
    kinds = [record_variant(ip, st, x) for x in xs]
    if not xs or kinds[-1][0] != "EndOfFile" or len([1 for k in kinds if k[0] == "EndOfFile"]) > 1:
        return ret(st, err)
    out = []
    for x, (n, k) in zip(xs, kinds):
        if n == "Data" and not st.need(p_le(seq_len(record_data(x)), K(255))):
            return ret(st, err)
        if out:
            out.append(('lit', '\n'))
        out.append(('rec', x))
    return ret(st, Agg(None, None, (StrV(dom.s_cat(*out)),)))


# --------------------------------------------------------------------------- command line, files
@model("std::env::args")
def m_args(ip, st, fn, args, site):
    st.log = st.log + (('args',),)
    ety = None
    for i, t in enumerate(ip.types):
        if t["k"] == "struct" and t["name"].endswith("string::String"):
            ety = i
    v = dom.sym_seq(('in', 'argv'), ety)
    if not st.assume(p_le(ONE, seq_len(v))):
        raise Infeasible()
    return ret(st, IterV("into", v))


@model(r"~getopts::Options::(new|default)$", r"~(.*::)?getopts::Options::new$", r"~<(.*::)?getopts::Options as std::default::Default>::default$")
def m_opt_new(ip, st, fn, args, site):
    return ret(st, ObjV("options", ()))


OPTDEF = {"optopt": (0, 1, "val"), "optflag": (0, 1, "flag"), "optflagmulti": (0, 1, "flag"), "optmulti": (0, 1, "val"),
          "optflagopt": (0, 1, "val?"), "reqopt": (0, 1, "req")}


@model(r"~(.*::)?getopts::Options::(optopt|optflag|optflagmulti|optmulti|optflagopt|reqopt)$")
def m_opt_def(ip, st, fn, args, site):
    p, v = target(ip, st, args[0])
    if not isinstance(v, ObjV) or v.kind != "options":
        raise Unsupported("options")
    a, b, kind = OPTDEF[fn.def_.split("::")[-1]]
    s, l = st.const_str(as_str(ip, st, args[1])), st.const_str(as_str(ip, st, args[2]))
    if s is None or l is None:
        raise Unsupported("option name")
    ip.store(st, p.cell, p.path, ObjV("options", v.p[0] + ((s, l, kind),)))
    return ret(st, args[0])


@model(r"~(.*::)?getopts::Options::(parsing_style|long_only)$")
def m_opt_style(ip, st, fn, args, site):
    st.note("option parsing style")
    return ret(st, args[0])


@model(r"~(.*::)?getopts::Options::(usage|short_usage|usage_with_format)$")
def m_opt_usage(ip, st, fn, args, site):
    return ret(st, StrV(('sym', ('usage', st.fresh('usage')))))


@model(r"~(.*::)?getopts::Options::parse$")
def m_opt_parse(ip, st, fn, args, site):
    o = deref(ip, st, args[0])
    if not isinstance(o, ObjV) or o.kind != "options":
        raise Unsupported("options")
    st.log = st.log + (('optparse', norm(st, as_seq(ip, st, args[1])), o.p[0]),)
    t = ip.types[rty(ip, fn, site)]
    if st.need(p_atom(('opterr',))):
        return ret(st, Agg(rty(ip, fn, site), 1, (ObjV("optfail"),)))
    return ret(st, Agg(rty(ip, fn, site), 0, (ip.sym(('matches',), t["args"][0]),)))


def norm(st, v):
    import core
    return core.norm_val(st, v)


def opt_name(ip, st, v):
    n = st.const_str(as_str(ip, st, v))
    if n is None:
        raise Unsupported("option name")
    for e in st.log:
        if e[0] == 'optparse':
            for s, l, k in e[2]:
                if n in (s, l):
                    return (s or l), k
    return None, None


@model(r"~(.*::)?getopts::Matches::(opt_present|opt_count|opt_defined)$")
def m_opt_present(ip, st, fn, args, site):
    n, k = opt_name(ip, st, args[1])
    if n is None:
        return panic(st, "No option defined", site)
    w = fn.def_.split("::")[-1]
    if w == "opt_present":
        return ret(st, p_atom(('opt', n)))
    if w == "opt_defined":
        return ret(st, TRUE)
    c = L(atom(('optcount', n), 0, 1))
    return ret(st, ONE if st.need(p_atom(('opt', n))) else ZERO)


@model(r"~(.*::)?getopts::Matches::opts_present$")
def m_opts_present(ip, st, fn, args, site):
    for x in known(as_seq(ip, st, args[1]), "options"):
        n, k = opt_name(ip, st, x)
        if n is None:
            return panic(st, "No option defined", site)
        if st.need(p_atom(('opt', n))):
            return ret(st, TRUE)
    return ret(st, FALSE)


@model(r"~(.*::)?getopts::Matches::(opt_str|opt_default)$")
def m_opt_str(ip, st, fn, args, site):
    n, k = opt_name(ip, st, args[1])
    if n is None:
        return panic(st, "No option defined", site)
    if k == "flag":
        raise Unsupported("value of a flag")
    if not st.need(p_atom(('opt', n))):
        return ret(st, none(ip, fn, site))
    return ret(st, some(ip, fn, site, StrV(('sym', ('optval', n)))))


@model(r"~<(.*::)?getopts::Fail as std::(fmt::Display|string::ToString)>::(fmt|to_string)$")
def m_fail_text(ip, st, fn, args, site):
    return ret(st, StrV(('sym', ('failtext', st.fresh('fail')))))


@model(r"~std::fs::OpenOptions::(new|read|write|append|truncate|create|create_new)$")
def m_oo(ip, st, fn, args, site):
    w = fn.def_.split("::")[-1]
    if w == "new":
        return ret(st, ObjV("openopts", ()))
    p, v = target(ip, st, args[0])
    b = args[1]
    on = st.need(b) if is_pred(b) else None
    if on is None or not isinstance(v, ObjV):
        raise Unsupported("OpenOptions")
    ip.store(st, p.cell, p.path, ObjV("openopts", tuple(x for x in v.p[0] if x != w) + ((w,) if on else ())))
    return ret(st, args[0])


@model(r"~std::fs::OpenOptions::open$")
def m_oo_open(ip, st, fn, args, site):
    o = deref(ip, st, args[0])
    path = deref(ip, st, args[1])
    fl = frozenset(o.p[0])
    if fl == frozenset(("read",)):
        kind = "open"
    elif fl in (frozenset(("write", "create", "truncate")),):
        kind = "create"
    else:
        kind = "open:" + "+".join(sorted(fl))
    n = effect_(st, kind, path)
    e = st.need(p_atom(('ioerr', kind, n)))
    st.log = st.log + (('result', n, 'err' if e else 'ok'),)
    if e:
        return ret(st, Agg(rty(ip, fn, site), 1, (ObjV("ioerror", kind, n),)))
    return ret(st, Agg(rty(ip, fn, site), 0, (ObjV("file", kind, n, path),)))


def effect_(st, name, *what):
    n = st.fresh('io')
    st.log = st.log + ((name, n) + tuple(what),)
    return n


@model(r"~std::fs::(remove_file|remove_dir|remove_dir_all|rename|copy|create_dir|create_dir_all|hard_link|set_permissions|read_dir|metadata|symlink_metadata|canonicalize|exists|read|read_link)$",
       r"~std::path::Path::(exists|is_file|is_dir|metadata|canonicalize|try_exists)$", r"~std::fs::File::(set_len|metadata|try_clone|set_permissions)$")
def m_fs_other(ip, st, fn, args, site):
    import dom as D
    what = []
    for a in args:
        try:
            what.append(norm(st, deref(ip, st, a)))
        except Unsupported:
            what.append(None)
    n = effect_(st, "fs:" + fn.def_.split("::")[-1], *what)
    t = ip.types[rty(ip, fn, site)]
    if t["k"] == "bool":
        return ret(st, p_atom(('fsresult', n)))
    e = st.need(p_atom(('ioerr', 'fs', n)))
    st.log = st.log + (('result', n, 'err' if e else 'ok'),)
    if e:
        return ret(st, Agg(rty(ip, fn, site), 1, (ObjV("ioerror", "fs", n),)))
    if fn.def_ == "std::fs::read":
        st.log = st.log + (('read', n, ObjV("file", "open", n, what[0])), ('result', n, 'ok'))
        return ret(st, Agg(rty(ip, fn, site), 0, (SeqV([('b', ('sym', ('content', n)))]),)))
    return ret(st, Agg(rty(ip, fn, site), 0, (ip.sym(('fsvalue', n), t["args"][0]),)))


@model("std::io::Error::kind")
def m_ioerr_kind(ip, st, fn, args, site):
    e = deref(ip, st, args[0])
    return ret(st, ip.sym(('ioerrkind', e.p if isinstance(e, ObjV) else st.fresh('kind')), rty(ip, fn, site)))


@model(r"~<std::io::ErrorKind as std::cmp::PartialEq>::(eq|ne)$")
def m_errkind_eq(ip, st, fn, args, site):
    a, b = ip.discr(deref(ip, st, args[0])), ip.discr(deref(ip, st, args[1]))
    p = p_eq(a, b)
    return ret(st, p if fn.def_.endswith("eq") else p_not(p))


@model(r"~<std::process::ExitCode as std::convert::From<u8>>::from$")
def m_exitcode(ip, st, fn, args, site):
    return ret(st, ObjV("exitcode", args[0]))


# ------------------------------------------------------------ operator traits on integers and bool
INT = r"(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|bool)"
OPT = r"(Add|Sub|Mul|Div|Rem|BitAnd|BitOr|BitXor|Shl|Shr)"


def int_op(ip, st, op, a, b, tyi, site):
    a = deref(ip, st, a) if isinstance(a, Ptr) else a
    b = deref(ip, st, b) if isinstance(b, Ptr) else b
    if op in ("Add", "Sub", "Mul"):
        r = ip.binop(st, op, a, b, tyi, True)
        if st.need(r.fs[1]):
            return None
        return r.fs[0]
    if op in ("Div", "Rem"):
        if st.need(p_eq(b, ZERO)):
            return None
        lo, hi = ip.int_range(ip.types[tyi])
        if lo < 0 and st.need(p_eq(a, K(lo))) and st.need(p_eq(b, K(-1))):
            return None
    if op in ("Shl", "Shr") and not (st.need(p_le(ZERO, b)) and st.need(p_lt(b, K(ip.types[tyi]["bits"])))):
        return None
    return ip.binop(st, op, a, b, tyi, False)


@model(r"~<&?('\w+ )?%s as std::ops::%s(<.*>)?>::\w+$" % (INT, OPT))
def m_int_op(ip, st, fn, args, site):
    op = re.search(r"std::ops::(\w+)", fn.def_).group(1)
    r = int_op(ip, st, op, args[0], args[1], rty(ip, fn, site), site)
    if r is None:
        return panic(st, "arithmetic overflow", site)
    return ret(st, r)


@model(r"~<%s as std::ops::%sAssign(<.*>)?>::\w+$" % (INT, OPT))
def m_int_op_assign(ip, st, fn, args, site):
    m = re.search(r"<(\w+) as std::ops::(\w+)Assign", fn.def_)
    p, v = target(ip, st, args[0])
    tyi = next((i for i, t in enumerate(ip.types) if t.get("s") == m.group(1)), None)
    if tyi is None:
        raise Unsupported("integer type " + m.group(1))
    r = int_op(ip, st, m.group(2), v, args[1], tyi, site)
    if r is None:
        return panic(st, "arithmetic overflow", site)
    ip.store(st, p.cell, p.path, r)
    return ret(st, Agg(None, None, ()))


@model(r"~<&?('\w+ )?%s as std::ops::(Not|Neg)>::\w+$" % INT)
def m_int_unary(ip, st, fn, args, site):
    a = deref(ip, st, args[0]) if isinstance(args[0], Ptr) else args[0]
    tyi = rty(ip, fn, site)
    if "::Not" in fn.def_:
        if is_pred(a):
            return ret(st, p_not(a))
        lo, hi = ip.int_range(ip.types[tyi])
        return ret(st, st.norm(K(hi) - a) if lo == 0 else st.norm(K(-1) - a))
    lo, hi = ip.int_range(ip.types[tyi])
    if st.need(p_eq(a, K(lo))):
        return panic(st, "arithmetic overflow", site)
    return ret(st, st.norm(ZERO - a))


# ------------------------------------------------------------ maps, continued
def map_items(ip, st, m):
    """Entries of a map built from nothing, in insertion order.  For a hash map any order is possible, so
    what happens in this one can happen (what depends on the order is the business of C15)."""
    if not isinstance(m, MapV) or m.base is not None:
        raise Unsupported("iteration over an unknown map")
    out = []
    for k, v in m.ins:
        for i, (k2, _) in enumerate(out):
            if st.need(key_eq(k, k2)):
                out[i] = (k2, v)
                break
        else:
            out.append((k, v))
    return out


HMAP = "std::collections::(hash_map::|hash::map::)?HashMap"


@model("~" + HMAP + "::<.*>::(iter|keys|values|into_keys|into_values|drain)$",
       r"~<(&'?\w* ?)?" + HMAP + r"<.*> as std::iter::IntoIterator>::into_iter$")
def m_map_iter(ip, st, fn, args, site):
    last = fn.def_.split("::")[-1]
    owned = last.startswith("into_") and not fn.def_.startswith("<&")
    m = deref(ip, st, args[0])
    w = (lambda x: x) if owned else (lambda x: Ptr(('val', x)))
    its = map_items(ip, st, m)
    if last.endswith("keys"):
        xs = [w(k) for k, _ in its]
    elif last.endswith("values"):
        xs = [w(v) for _, v in its]
    elif last == "drain":
        raise Unsupported("drain")
    else:
        xs = [Agg(None, None, (w(k), w(v))) for k, v in its]
    return ret(st, IterV("into", SeqV([('e', x) for x in xs])))


@model("~" + MAP + "(len|is_empty)$")
def m_map_len(ip, st, fn, args, site):
    n = len(map_items(ip, st, deref(ip, st, args[0])))
    if fn.def_.endswith("is_empty"):
        return ret(st, TRUE if n == 0 else FALSE)
    return ret(st, K(n))


# ------------------------------------------------------------ questions to the outside whose answer is anything
@model(r"~std::fs::(Metadata|FileType|Permissions)::(len|is_file|is_dir|is_symlink|readonly|file_type|permissions)$")
def m_metadata(ip, st, fn, args, site):
    v = deref(ip, st, args[0])
    t = rty(ip, fn, site)
    return ret(st, ip.sym(('fsquery', fn.def_.split("::")[-1], v.t if isinstance(v, SymV) else repr(v)), t))


@model(r"~std::env::(var|current_dir)$")
def m_env_var(ip, st, fn, args, site):
    name = st.const_str(as_str(ip, st, args[0])) if args else "cwd"
    key = ('env', name or st.fresh('env'))
    t = rty(ip, fn, site)
    if st.need(p_atom(('noenv',) + key)):
        return ret(st, Agg(t, 1, (ip.sym(('enverr',) + key, ip.types[t]["args"][1]),)))
    return ret(st, Agg(t, 0, (StrV(('sym', key)),)))


# ------------------------------------------------------------------------------------------ sets, queues, sources
SETN = "std::collections::(hash_set::|hash::set::|btree_set::|btree::set::)?(HashSet|BTreeSet)::<.*>::"


@model("~" + SETN + "(new|with_capacity)$", "~<std::collections::.*(HashSet|BTreeSet)<.*> as std::default::Default>::default$")
def m_set_new(ip, st, fn, args, site):
    return ret(st, MapV(None, (), None))


@model("~" + SETN + "contains$")
def m_set_has(ip, st, fn, args, site):
    return m_map_has(ip, st, fn, args, site)


@model("~" + SETN + "(insert|replace)$")
def m_set_insert(ip, st, fn, args, site):
    if fn.def_.endswith("replace"):
        raise Unsupported("replace")
    p, m = target(ip, st, args[0])
    k = key_of(ip, st, args[1])
    has, _ = map_lookup(ip, st, m, k)
    if has:
        return ret(st, FALSE)
    ip.store(st, p.cell, p.path, MapV(m.base, m.ins + ((k, UNIT),), m.vty))
    return ret(st, TRUE)


@model("~" + SETN + "(len|is_empty)$")
def m_set_len(ip, st, fn, args, site):
    m = deref(ip, st, args[0])
    if not isinstance(m, MapV) or m.base is not None:
        raise Unsupported("size of a set")
    ks = []
    for k, _ in m.ins:
        if not any(st.need(key_eq(k, x)) for x in ks):
            ks.append(k)
    return ret(st, K(len(ks)) if fn.def_.endswith("len") else (FALSE if ks else TRUE))


@model("~" + SETN + "clear$", "~" + MAP + "clear$")
def m_set_clear(ip, st, fn, args, site):
    p, m = target(ip, st, args[0])
    ip.store(st, p.cell, p.path, MapV(None, (), m.vty))
    return ret(st, UNIT)


@model("~" + MAP + "(remove|remove_entry)$", "~" + SETN + "(remove|take)$")
def m_map_remove(ip, st, fn, args, site):
    p, m = target(ip, st, args[0])
    if m.base is not None or not fn.def_.endswith("remove"):
        raise Unsupported("remove from a map")
    k = key_of(ip, st, args[1])
    has, v = map_lookup(ip, st, m, k)
    if has:
        ip.store(st, p.cell, p.path, MapV(None, tuple(x for x in m.ins if not st.need(key_eq(x[0], k))), m.vty))
    if m.vty is None:
        return ret(st, TRUE if has else FALSE)
    return ret(st, some(ip, fn, site, v) if has else none(ip, fn, site))


VDQ = "std::collections::(vec_deque::)?VecDeque::<.*>::"
model("~" + VDQ + "(new|with_capacity)$", "~<std::collections::.*VecDeque<.*> as std::default::Default>::default$")(lambda ip, st, fn, args, site: ret(st, SeqV()))
model("~" + VDQ + "push_back$")(m_vec_push)
model("~" + VDQ + "pop_back$")(m_vec_pop)
model("~" + VDQ + "clear$")(m_vec_clear)
model("~" + VDQ + "truncate$")(m_vec_trunc)
model("~" + VDQ + "len$")(m_vec_len)
model("~" + VDQ + "is_empty$")(m_vec_empty)
model("~" + VDQ + "iter$", "~<&'a std::collections::(vec_deque::)?VecDeque<.*> as std::iter::IntoIterator>::into_iter$")(m_slice_iter)
model("~<std::collections::(vec_deque::)?VecDeque<.*> as std::iter::IntoIterator>::into_iter$")(m_vec_into_iter)
model("~<std::collections::(vec_deque::)?VecDeque<.*> as std::iter::Extend<.*>>::extend$")(m_vec_extend)
model("~<std::collections::(vec_deque::)?VecDeque<.*> as std::convert::From<std::vec::Vec<.*>>>::from$",
      "~<std::vec::Vec<.*> as std::convert::From<std::collections::(vec_deque::)?VecDeque<.*>>>::from$")(lambda ip, st, fn, args, site: ret(st, args[0]))


@model("~" + VDQ + "push_front$")
def m_vdq_push_front(ip, st, fn, args, site):
    p, v = target(ip, st, args[0])
    ip.store(st, p.cell, p.path, SeqV((('e', args[1]),) + tuple(v.segs)))
    return ret(st, UNIT)


@model("~" + VDQ + "pop_front$")
def m_vdq_pop_front(ip, st, fn, args, site):
    p, v = target(ip, st, args[0])
    n = st.norm(seq_len(v))
    if not st.need(p_le(ONE, n)):
        return ret(st, none(ip, fn, site))
    x = ip.seq_get(st, v, ZERO)
    ip.store(st, p.cell, p.path, ip.seq_slice(st, v, ONE, n))
    return ret(st, some(ip, fn, site, x))


@model("~" + VDQ + "(front|back|get)$")
def m_vdq_peek(ip, st, fn, args, site):
    v = as_seq(ip, st, args[0])
    n = st.norm(seq_len(v))
    i = args[1] if fn.def_.endswith("get") else ZERO if fn.def_.endswith("front") else st.norm(n - 1)
    if not st.need(p_le(ONE, n)) or not st.need(p_lt(i, n)):
        return ret(st, none(ip, fn, site))
    return ret(st, some(ip, fn, site, Ptr(('val', ip.seq_get(st, v, i)))))


@model("std::iter::once", "~std::iter::(sources::)?(once::)?once$")
def m_iter_once(ip, st, fn, args, site):
    return ret(st, IterV("into", SeqV([('e', args[0])])))


@model("~std::iter::(sources::)?(empty::)?empty$")
def m_iter_empty(ip, st, fn, args, site):
    return ret(st, IterV("into", SeqV(())))


@model("~std::iter::(sources::)?(repeat::)?repeat$")
def m_iter_repeat(ip, st, fn, args, site):
    return ret(st, IterV("repeat", args[0]))


@model("~std::iter::(sources::)?(repeat_n::)?repeat_n$")
def m_iter_repeat_n(ip, st, fn, args, site):
    return ret(st, IterV("take", IterV("repeat", args[0]), st.norm(args[1])))


@model("~std::iter::(sources::)?(from_fn::)?from_fn$")
def m_iter_from_fn(ip, st, fn, args, site):
    return ret(st, IterV("from_fn", args[0]))


@model("~<std::option::Option<T> as std::iter::IntoIterator>::into_iter$")
def m_opt_into_iter(ip, st, fn, args, site):
    v = ip.variant_index(st, args[0])
    return ret(st, IterV("into", SeqV([('e', ip.payload(args[0], 1, 0))] if v == 1 else ())))


@model("~std::option::Option::<T>::iter$")
def m_opt_iter(ip, st, fn, args, site):
    x = deref(ip, st, args[0])
    v = ip.variant_index(st, x)
    return ret(st, IterV("slice", SeqV([('e', ip.payload(x, 1, 0))] if v == 1 else ())))


@model("~(core|std)::slice::<impl \\[T\\]>::chunks_exact$")
def m_chunks_exact(ip, st, fn, args, site):
    v = as_seq(ip, st, args[0])
    n, tot = st.norm(args[1]), st.norm(seq_len(v))
    if not n.is_const() or not tot.is_const():
        raise Unsupported("chunks_exact")
    if n.c == 0:
        return panic(st, "chunk size must be non-zero", site)
    return ret(st, IterV("chunks", ip.seq_slice(st, v, ZERO, K(tot.c // n.c * n.c)), n))
