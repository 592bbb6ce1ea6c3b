"""Abstract transfer functions for the parts of std (and regex, ihex, getopts) that c8s calls.

Dispatch is by resolved definition path, never by call-site text.  Everything not listed here and
not interpreted from its own MIR is treated as an unknown call (a note on the state), never as a
no-op.
"""
import re
from dom import *
import dom
import rx
import mir
from interp import Out

UTF8_LANG_ASCII = rx.star(rx.chars(((0, 127),)))

_exact = {}
_regex = []


def model(*names):
    def deco(f):
        for n in names:
            if n.startswith("~"):
                _regex.append((re.compile(n[1:]), f))
            else:
                _exact[n] = f
        return f
    return deco


class Models(object):
    def __init__(self):
        self.cache = {}
        self.regex_patterns = {}

    def lookup(self, ip, fn):
        r = self.cache.get(fn.id, 0)
        if r == 0:
            r = None
            if fn.crate != "c8s":
                r = _exact.get(fn.def_)
                if r is None:
                    for p, f in _regex:
                        if p.match(fn.def_):
                            r = f
                            break
                if r is None and fn.kind == "intrinsic":
                    r = _exact.get("intrinsic:" + fn.def_.split("::")[-1])
            else:
                r = lazy_deref(ip, fn)
            self.cache[fn.id] = r
        return r

    def release(self, ip, st, g):
        release_guard(ip, st, g)


# ------------------------------------------------------------------------------------- helpers
def ret(st, v):
    return [Out("ret", st, v)]


def rty(ip, fn, site):
    t = ip.ret_ty(fn)
    if t is None and site is not None:
        t = site.get("dty")
    return t


def some(ip, fn, site, v):
    return Agg(rty(ip, fn, site), 1, (v,))


def none(ip, fn, site):
    return Agg(rty(ip, fn, site), 0, ())


def ok(ip, fn, site, v):
    return Agg(rty(ip, fn, site), 0, (v,))


def err(ip, fn, site, v):
    return Agg(rty(ip, fn, site), 1, (v,))


def deref(ip, st, v):
    """Follow references to the content."""
    n = 0
    while True:
        n += 1
        if n > 20:
            raise Unsupported("deref depth")
        if isinstance(v, Ptr):
            v = ip.load(st, v.cell, v.path)
        elif isinstance(v, BoxV):
            v = v.v
        else:
            return v


def as_str(ip, st, v):
    v = deref(ip, st, v)
    if isinstance(v, StrV):
        return v.t
    raise Unsupported("not a string: %r" % (v,))


def as_seq(ip, st, v):
    v = deref(ip, st, v)
    if isinstance(v, SeqV):
        return v
    if isinstance(v, StrV):
        return SeqV([('b', v.t)])
    raise Unsupported("not a sequence: %r" % (v,))


def str_eq(a, b):
    if a == b:
        return TRUE
    if a[0] == 'lit' and b[0] == 'lit':
        return TRUE if a[1] == b[1] else FALSE
    if a[0] == 'lit':
        a, b = b, a
    if b[0] == 'lit':
        return ('in', a, rx.lit(b[1]))
    return ('seq', a, b)


def panic(st, msg, site):
    return [Out("panic", st, None, (msg, site and site.get("sp")))]


def elem_ref(v):
    """Reference to an element value as handed out by iterators and get()."""
    if isinstance(v, (Ptr,)):
        return Ptr(('val', v))
    return Ptr(('val', v))


# ------------------------------------------------------------------------------------- strings
@model("~core::str::traits::<impl std::cmp::PartialEq(<.*>)? for str>::(eq|ne)$",
       "~<std::string::String as std::cmp::PartialEq(<.*>)?>::(eq|ne)$",
       "~std::string::<impl std::cmp::PartialEq<.*> for .*>::(eq|ne)$",
       "~core::string::.*PartialEq.*::(eq|ne)$",
       r"~<&'?\w* ?str as std::cmp::PartialEq<std::string::String>>::(eq|ne)$",
       "~<str as std::cmp::PartialEq<std::string::String>>::(eq|ne)$",
       "~std::string::impl.*PartialEq.*::(eq|ne)$")
def m_str_eq(ip, st, fn, args, site):
    p = str_eq(as_str(ip, st, args[0]), as_str(ip, st, args[1]))
    return ret(st, p if fn.def_.endswith("::eq") else p_not(p))


@model("core::str::<impl str>::eq_ignore_ascii_case")
def m_eq_icase(ip, st, fn, args, site):
    a, b = as_str(ip, st, args[0]), as_str(ip, st, args[1])
    return ret(st, str_eq(ascii_case(a, False), ascii_case(b, False)))


@model("core::str::<impl str>::len", "std::string::String::len")
def m_str_len(ip, st, fn, args, site):
    return ret(st, st.norm(slen(as_str(ip, st, args[0]))))


@model("core::str::<impl str>::is_empty", "std::string::String::is_empty")
def m_str_empty(ip, st, fn, args, site):
    return ret(st, p_eq(slen(as_str(ip, st, args[0])), ZERO))


def ascii_only(st, t):
    if t[0] == 'lit':
        return all(ord(c) < 128 for c in t[1])
    if t[0] == 'cat':
        return all(ascii_only(st, x) for x in t[1])
    return st.decide(('in', t, UTF8_LANG_ASCII)) is True


def ascii_case(t, upper):
    if t[0] == 'lit':
        s = t[1]
        return ('lit', ''.join((c.upper() if upper else c.lower()) if ord(c) < 128 else c for c in s))
    if t[0] == ('upper' if upper else 'lower'):
        return t
    if t[0] in ('upper', 'lower'):
        t = t[1]
    return ('upper' if upper else 'lower', t)


@model("std::str::<impl str>::to_lowercase", "std::str::<impl str>::to_ascii_lowercase",
       "std::str::<impl str>::to_uppercase", "std::str::<impl str>::to_ascii_uppercase",
       "alloc::str::<impl str>::to_lowercase", "alloc::str::<impl str>::to_ascii_lowercase",
       "alloc::str::<impl str>::to_uppercase", "alloc::str::<impl str>::to_ascii_uppercase")
def m_case(ip, st, fn, args, site):
    t = as_str(ip, st, args[0])
    up = "upper" in fn.def_
    if "ascii" in fn.def_ or ascii_only(st, t):
        return ret(st, StrV(ascii_case(t, up)))
    return ret(st, StrV(models2.strfn(st, "uupper" if up else "ulower", t)))


@model("~.*::make_ascii_(lower|upper)case$")
def m_make_case(ip, st, fn, args, site):
    p = args[0]
    if not isinstance(p, Ptr):
        raise Unsupported("make_ascii_case")
    t = as_str(ip, st, p)
    ip.store(st, p.cell, p.path, StrV(ascii_case(t, "upper" in fn.def_)))
    return ret(st, UNIT)


@model("<std::string::String as std::ops::Deref>::deref", "std::string::String::as_str",
       "<std::string::String as std::convert::From<&str>>::from",
       "<std::string::String as std::clone::Clone>::clone",
       "std::str::<impl std::borrow::ToOwned for str>::to_owned",
       "alloc::str::<impl std::borrow::ToOwned for str>::to_owned",
       "<str as std::string::SpecToString>::spec_to_string",
       "<std::string::String as std::convert::AsRef<str>>::as_ref",
       "<std::string::String as std::borrow::Borrow<str>>::borrow",
       "<str as std::convert::AsRef<str>>::as_ref",
       "<std::string::String as std::convert::From<&std::string::String>>::from",
       "std::string::String::into_boxed_str", "std::str::<impl str>::into_string",
       "core::str::<impl str>::trim_matches_none",
       "~<std::string::String as std::ops::Index<std::ops::RangeFull>>::index$")
def m_str_id(ip, st, fn, args, site):
    return ret(st, StrV(as_str(ip, st, args[0])))


@model("<T as std::string::ToString>::to_string")
def m_to_string(ip, st, fn, args, site):
    v = deref(ip, st, args[0])
    if isinstance(v, StrV):
        return ret(st, v)
    return ret(st, StrV(fmt_term(ip, st, 'display', 0, None, None, args[0])))


@model("std::string::String::new", "<std::string::String as std::default::Default>::default")
def m_string_new(ip, st, fn, args, site):
    return ret(st, StrV(('lit', '')))


@model("std::string::String::with_capacity")
def m_string_cap(ip, st, fn, args, site):
    return ret(st, StrV(('lit', '')))


@model("<std::string::String as std::ops::Add<&str>>::add")
def m_str_add(ip, st, fn, args, site):
    return ret(st, StrV(s_cat(as_str(ip, st, args[0]), as_str(ip, st, args[1]))))


@model("std::string::String::push_str", "<std::string::String as std::ops::AddAssign<&str>>::add_assign",
       "<std::string::String as std::fmt::Write>::write_str")
def m_push_str(ip, st, fn, args, site):
    p = args[0]
    t = as_str(ip, st, p)
    while isinstance(p, Ptr) and isinstance(ip.load(st, p.cell, p.path), Ptr):
        p = ip.load(st, p.cell, p.path)
    ip.store(st, p.cell, p.path, StrV(s_cat(t, as_str(ip, st, args[1]))))
    if fn.def_.endswith("write_str"):
        return ret(st, ok(ip, fn, site, UNIT))
    return ret(st, UNIT)


@model("std::string::String::push")
def m_push_char(ip, st, fn, args, site):
    p = args[0]
    t = as_str(ip, st, p)
    ip.store(st, p.cell, p.path, StrV(s_cat(t, char_str(st, args[1]))))
    return ret(st, UNIT)


@model("std::string::String::clear")
def m_str_clear(ip, st, fn, args, site):
    ip.store(st, args[0].cell, args[0].path, StrV(('lit', '')))
    return ret(st, UNIT)


def char_str(st, c):
    c = st.norm(c)
    if c.is_const():
        return ('lit', chr(c.c))
    for n, hi in ((1, 0x7F), (2, 0x7FF), (3, 0xFFFF), (4, 0x10FFFF)):
        b = st.decide(p_le(c, K(hi)))
        if b is True:
            return ('chr', c, n)
        if b is None:
            break
    return ('chr', c)


@model("core::str::<impl str>::as_bytes", "std::string::String::as_bytes", "std::string::String::into_bytes",
       "core::str::<impl str>::into_bytes",
       "<str as std::convert::AsRef<[u8]>>::as_ref", "<std::string::String as std::convert::AsRef<[u8]>>::as_ref",
       "core::str::<impl std::convert::AsRef<[u8]> for str>::as_ref")
def m_as_bytes(ip, st, fn, args, site):
    t = as_str(ip, st, args[0])
    return ret(st, bytes_seq(t))


def bytes_seq(t):
    if t[0] == 'lit':
        return SeqV([('e', K(b)) for b in t[1].encode('utf-8')])
    if t[0] == 'cat':
        segs = []
        for x in t[1]:
            segs.extend(bytes_seq(x).segs)
        return SeqV(segs)
    if t[0] == 'chr' and len(t) == 3 and t[2] == 1:
        return SeqV([('e', t[1])])
    if t[0] == 'chr' and len(t) == 3:
        lead = {2: (0xC2, 0xDF), 3: (0xE0, 0xEF), 4: (0xF0, 0xF4)}[t[2]]
        return SeqV([('e', L(atom(('byte', t, K(k)), *(lead if k == 0 else (0x80, 0xBF))))) for k in range(t[2])])
    return SeqV([('b', t)])


@model("core::str::<impl str>::chars")
def m_chars(ip, st, fn, args, site):
    return ret(st, IterV("chars", StrV(as_str(ip, st, args[0]))))


@model("core::str::<impl str>::char_indices")
def m_char_indices(ip, st, fn, args, site):
    t = as_str(ip, st, args[0])
    return ret(st, IterV("charidx", StrV(t), ZERO))


@model("core::str::<impl str>::bytes")
def m_bytes(ip, st, fn, args, site):
    return ret(st, IterV("bytes", bytes_seq(as_str(ip, st, args[0]))))


@model("<std::str::Chars<'a> as std::clone::Clone>::clone", "<std::str::Chars<'_> as std::clone::Clone>::clone",
       r"~<std::(slice::Iter|vec::IntoIter|iter::\w+|str::\w+)<.*> as std::clone::Clone>::clone$")
def m_iter_clone(ip, st, fn, args, site):
    v = deref(ip, st, args[0])
    if isinstance(v, IterV):
        return ret(st, v)
    raise Unsupported("iterator clone")


@model("std::str::Chars::<'a>::as_str")
def m_chars_as_str(ip, st, fn, args, site):
    v = deref(ip, st, args[0])
    return ret(st, v.p[0])


def pattern_lang(ip, st, pat):
    """Language of single occurrences of a str pattern argument."""
    v = pat
    if isinstance(v, Ptr):
        v = deref(ip, st, v)
    if isinstance(v, StrV):
        s = st.const_str(v.t)
        if s is None:
            raise Unsupported("symbolic pattern")
        return rx.lit(s), s
    if isinstance(v, Lin):
        c = st.norm(v)
        if c.is_const():
            return rx.lit(chr(c.c)), chr(c.c)
    if isinstance(v, SeqV) and all(s[0] == 'e' for s in v.segs):
        cs = []
        for s in v.segs:
            c = st.norm(s[1])
            if not c.is_const():
                raise Unsupported("pattern")
            cs.append((c.c, c.c))
        return rx.chars(tuple(sorted(cs))), None
    raise Unsupported("pattern %r" % (v,))


@model("core::str::<impl str>::starts_with")
def m_starts_with(ip, st, fn, args, site):
    t = as_str(ip, st, args[0])
    R, s = pattern_lang(ip, st, args[1])
    return ret(st, starts_pred(ip, st, t, R))


def starts_pred(ip, st, t, R):
    """Predicate: t starts with a word of R."""
    b, RR = lang_base(t, rx.cat(R, rx.ALL))
    if b[0] == 'sub' and not (b[1] in st.lang):
        # text at a symbolic offset: go through the characters
        p = TRUE
        pos = b[2]
        chs = rx_chars(R)
        if chs is not None:
            for rng in chs:
                c = char_at(ip, st, b[1], pos, b[3])
                if c is None:
                    return FALSE
                q = FALSE
                for lo, hi in rng:
                    q = p_or(q, p_and(p_le(K(lo), c), p_le(c, K(hi))) if lo != hi else p_eq(c, K(lo)))
                p = p_and(p, q)
                if st.decide(q) is False:
                    return FALSE
                if not st.need(q):
                    return FALSE
                pos = st.norm(pos + L(utf8_atom(c)) if not c.is_const() else pos + len(chr(c.c).encode('utf-8')))
            return TRUE
    return ('in', t, rx.cat(R, rx.ALL))


def rx_chars(R):
    """R as a fixed sequence of character classes, or None."""
    out = []
    n = 0
    while True:
        lo, hi = rx.len_bounds(R)
        if lo != hi or hi is None or hi > 16:
            return None
        if hi == 0:
            return out
        fs = rx.first_set(R)
        out.append(fs)
        d = None
        for _, cs, dd in rx.classes(R):
            if rx.is_empty(dd):
                continue
            if d is None:
                d = dd
            if dd is not d and not rx.equal(dd, d):
                return None
        R = d
        n += 1


@model("core::str::<impl str>::ends_with")
def m_ends_with(ip, st, fn, args, site):
    t = as_str(ip, st, args[0])
    R, s = pattern_lang(ip, st, args[1])
    return ret(st, ('in', t, rx.cat(rx.ALL, R)))


@model("core::str::<impl str>::contains")
def m_contains(ip, st, fn, args, site):
    t = as_str(ip, st, args[0])
    R, s = pattern_lang(ip, st, args[1])
    return ret(st, ('in', t, rx.cat(rx.ALL, rx.cat(R, rx.ALL))))


@model("core::str::<impl str>::strip_prefix")
def m_strip_prefix(ip, st, fn, args, site):
    t = as_str(ip, st, args[0])
    R, s = pattern_lang(ip, st, args[1])
    if s is None:
        raise Unsupported("strip_prefix pattern")
    if st.need(starts_pred(ip, st, t, R)):
        return ret(st, some(ip, fn, site, StrV(s_sub(t, K(lit_len(s)), slen(t)))))
    return ret(st, none(ip, fn, site))


@model("core::str::<impl str>::strip_suffix")
def m_strip_suffix(ip, st, fn, args, site):
    t = as_str(ip, st, args[0])
    R, s = pattern_lang(ip, st, args[1])
    if s is None:
        raise Unsupported("strip_suffix pattern")
    if st.need(('in', t, rx.cat(rx.ALL, R))):
        return ret(st, some(ip, fn, site, StrV(s_sub(t, ZERO, slen(t) - lit_len(s)))))
    return ret(st, none(ip, fn, site))


# ---- characters of a text ---------------------------------------------------------------------
def split_base(t):
    """(base, lo, hi) view of a string term."""
    if t[0] == 'sub':
        return t[1], t[2], t[3]
    return t, ZERO, slen(t)


def utf8_atom(c):
    a = c.single()
    if a is None:
        raise Unsupported("utf8 length of expression")
    return atom(('utf8', a), 1, 4)


def utf8_len(st, c):
    c = st.norm(c)
    if c.is_const():
        return K(len(chr(c.c).encode('utf-8', 'surrogatepass')))
    return st.norm(L(utf8_atom(c)))


def char_at(ip, st, base, pos, hi):
    """Character starting at byte pos of base (None past the end hi). Splits as needed."""
    pos = st.norm(pos)
    if base[0] == 'lit':
        if not pos.is_const():
            raise Unsupported("symbolic position in literal")
        b = base[1].encode('utf-8')
        h = st.norm(hi)
        if not h.is_const():
            raise Unsupported("symbolic end in literal")
        if pos.c >= h.c:
            return None
        return K(ord(b[pos.c:].decode('utf-8')[0]))
    if is_cells(base) and pos.is_const():
        if not st.need(p_lt(pos, hi)):
            return None
        cs = cells(base)
        i = cells_index(cs, pos.c)
        if i is None or i >= len(cs):
            raise Unsupported("inside a character")
        return K(cs[i][0]) if isinstance(cs[i][0], int) else st.norm(cs[i][0])
    if base[0] == 'chr':
        if not st.need(p_lt(pos, hi)):
            return None
        if pos == ZERO:
            return base[1]
        raise Unsupported("inside a character")
    if base[0] in ('lower', 'upper'):
        raise Unsupported("character of case-mapped text")
    if not st.need(p_lt(pos, hi)):
        return None
    a = atom(('ch', base, pos), 0, 0x10FFFF)
    if a not in st.rng:
        lg = st.lang.get(base)
        if lg is None:
            lg = st.lang_of(base)
        if lg is not rx.ALL and pos.is_const() and pos.c <= 16:
            R = lg
            for _ in range(pos.c):
                R = rx.deriv_any(R)
            fs = rx.first_set(R)
            if fs:
                st._narrow(a, tuple(fs))
    c = L(a)
    # the character lies inside the slice
    u = st.norm(L(utf8_atom(c)))
    if st.decide(p_le(pos + u, hi)) is None:
        st.assume(p_le(pos + u, hi))
    return st.norm(c)


@model("std::char::methods::<impl char>::len_utf8")
def m_len_utf8(ip, st, fn, args, site):
    return ret(st, utf8_len(st, args[0]))


CLASSES = {
    "is_ascii_digit": ((48, 57),),
    "is_ascii_hexdigit": ((48, 57), (65, 70), (97, 102)),
    "is_ascii_alphabetic": ((65, 90), (97, 122)),
    "is_ascii_alphanumeric": ((48, 57), (65, 90), (97, 122)),
    "is_ascii_uppercase": ((65, 90),),
    "is_ascii_lowercase": ((97, 122),),
    "is_ascii": ((0, 127),),
    "is_ascii_whitespace": ((9, 10), (12, 13), (32, 32)),
    "is_ascii_punctuation": ((33, 47), (58, 64), (91, 96), (123, 126)),
    "is_ascii_graphic": ((33, 126),),
    "is_ascii_control": ((0, 31), (127, 127)),
    "is_whitespace": ((9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A),
                      (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)),
    "is_control": ((0, 31), (127, 159)),
}


@model(r"~(std|core)::(char::methods|num)::<impl (char|u8)>::(is_ascii\w*|is_whitespace|is_control)$")
def m_char_class(ip, st, fn, args, site):
    c = deref(ip, st, args[0])
    return ret(st, class_pred(st.norm(c), CLASSES[fn.def_.split("::")[-1]]))


@model("std::char::methods::<impl char>::is_digit")
def m_is_digit(ip, st, fn, args, site):
    r = st.norm(args[1])
    if not r.is_const() or not 2 <= r.c <= 36:
        raise Unsupported("radix")
    return ret(st, class_pred(st.norm(args[0]), digit_ranges(r.c)))


def digit_ranges(r):
    out = [(48, 48 + min(r, 10) - 1)]
    if r > 10:
        out += [(65, 65 + r - 11), (97, 97 + r - 11)]
    return out


@model("std::char::methods::<impl char>::to_digit")
def m_to_digit(ip, st, fn, args, site):
    r = st.norm(args[1])
    if not r.is_const() or not 2 <= r.c <= 36:
        raise Unsupported("radix")
    c = st.norm(args[0])
    for lo, hi in digit_ranges(r.c):
        if st.need(p_and(p_le(K(lo), c), p_le(c, K(hi)))):
            base = {48: 0, 65: 10, 97: 10}[lo]
            return ret(st, some(ip, fn, site, st.norm(c - lo + base)))
    return ret(st, none(ip, fn, site))


@model("~(std|core)::(char::methods|num)::<impl (char|u8)>::to_ascii_(lower|upper)case$")
def m_char_case(ip, st, fn, args, site):
    c = st.norm(deref(ip, st, args[0]))
    if "upper" in fn.def_:
        if st.need(p_and(p_le(K(97), c), p_le(c, K(122)))):
            return ret(st, c - 32)
        return ret(st, c)
    if st.need(p_and(p_le(K(65), c), p_le(c, K(90)))):
        return ret(st, c + 32)
    return ret(st, c)


@model("~(std|core)::(char::methods|num)::<impl (char|u8)>::eq_ignore_ascii_case$")
def m_char_eqi(ip, st, fn, args, site):
    a, b = st.norm(deref(ip, st, args[0])), st.norm(deref(ip, st, args[1]))

    def low(c):
        if st.need(p_and(p_le(K(65), c), p_le(c, K(90)))):
            return c + 32
        return c
    return ret(st, p_eq(low(a), low(b)))


# ---- slicing strings --------------------------------------------------------------------------
def range_bounds(ip, st, r, total):
    """(lo, hi) of a range argument over a sequence of length total."""
    r0 = r
    r = deref(ip, st, r) if isinstance(r, Ptr) else r
    if isinstance(r, SymV):
        r = ip.expand(r)
    n = ip.tname(r.ty) if isinstance(r, Agg) and r.ty is not None else ''
    if n.endswith("RangeFrom"):
        return r.fs[0], total
    if n.endswith("RangeToInclusive"):
        return ZERO, r.fs[0] + 1
    if n.endswith("RangeTo"):
        return ZERO, r.fs[0]
    if n.endswith("RangeFull"):
        return ZERO, total
    if n.endswith("RangeInclusive"):
        return r.fs[0], r.fs[1] + 1
    if n.endswith("Range"):
        return r.fs[0], r.fs[1]
    raise Unsupported("range %r" % (r,))


def boundary(ip, st, base, p):
    """Is byte position p a character boundary of base?  True / None."""
    p = st.norm(p)
    if p == ZERO or st.decide(p_eq(p, slen(base))) is True:
        return True
    if base[0] == 'lit':
        if p.is_const():
            b = base[1].encode('utf-8')
            return 0 <= p.c <= len(b) and (p.c == len(b) or (b[p.c] & 0xC0) != 0x80)
        return None
    if is_cells(base):
        return cells_index(cells(base), p.c) is not None if p.is_const() else None
    if ('bnd', base, p) in st.facts:
        return True
    # all-ASCII text
    if ascii_only(st, base):
        return True
    # p = q + utf8(ch(base, q)) for a boundary q, or q + 1.. over known ASCII characters
    for a, k in p.t:
        if k == 1 and a.key[0] == 'utf8':
            ch = a.key[1]
            if ch.key[0] == 'ch' and ch.key[1] == base:
                q = st.norm(ch.key[2])
                if st.norm(q + L(a)) == p and boundary(ip, st, base, q):
                    return True
    for back in range(1, 4):
        q = st.norm(p - back)
        if st.decide(p_le(ZERO, q)) is not True:
            continue
        a = dom._atoms.get(('ch', base, q))
        if a is not None and st.norm(L(a)) is not None:
            u = st.norm(L(atom(('utf8', a), 1, 4)))
            if u.is_const() and u.c == back and boundary(ip, st, base, q):
                return True
    return None


def str_slice(ip, st, t, lo, hi, site):
    """('ok', term) or ('panic', msg)."""
    n = slen(t)
    lo, hi = st.norm(lo), st.norm(hi)
    if not st.need(p_le(lo, hi)):
        return 'panic', "slice start after end"
    if not st.need(p_le(hi, n)):
        return 'panic', "slice end out of range"
    b, l0, h0 = split_base(t)
    for p in (lo, hi):
        bd = boundary(ip, st, b, st.norm(l0 + p))
        if bd is False:
            return 'panic', "slice position is not a character boundary"
        if bd is not True:
            if (l0 + p) != st.norm(h0):
                if st.need(p_atom(('isbnd', b, st.norm(l0 + p)))):
                    st.facts.add(('bnd', b, st.norm(l0 + p)))
                else:
                    return 'panic', "slice position is not a character boundary"
    return 'ok', s_sub(t, lo, hi)


@model("core::str::traits::<impl std::ops::Index<I> for str>::index",
       "<std::string::String as std::ops::Index<I>>::index",
       "~.*<impl std::ops::Index<.*> for (str|std::string::String)>::index$")
def m_str_index(ip, st, fn, args, site):
    t = as_str(ip, st, args[0])
    lo, hi = range_bounds(ip, st, args[1], slen(t))
    k, r = str_slice(ip, st, t, lo, hi, site)
    if k == 'ok':
        return ret(st, StrV(r))
    return panic(st, "str index: " + r, site)


@model("core::str::<impl str>::get")
def m_str_get(ip, st, fn, args, site):
    t = as_str(ip, st, args[0])
    lo, hi = range_bounds(ip, st, args[1], slen(t))
    k, r = str_slice(ip, st, t, lo, hi, site)
    if k == 'ok':
        return ret(st, some(ip, fn, site, StrV(r)))
    return ret(st, none(ip, fn, site))


@model("core::str::<impl str>::split_at")
def m_split_at(ip, st, fn, args, site):
    t = as_str(ip, st, args[0])
    k, r = str_slice(ip, st, t, ZERO, args[1], site)
    if k != 'ok':
        return panic(st, "split_at: " + r, site)
    return ret(st, Agg(None, None, (StrV(r), StrV(s_sub(t, args[1], slen(t))))))


@model("core::str::<impl str>::is_char_boundary")
def m_is_boundary(ip, st, fn, args, site):
    t = as_str(ip, st, args[0])
    b, l0, h0 = split_base(t)
    p = st.norm(args[1])
    if not st.need(p_le(p, slen(t))):
        return ret(st, FALSE)
    bd = boundary(ip, st, b, st.norm(l0 + p))
    if bd is not None:
        return ret(st, TRUE if bd else FALSE)
    return ret(st, p_atom(('isbnd', b, st.norm(l0 + p))))


# ------------------------------------------------------------------------------------- vectors
@model("std::vec::Vec::<T>::new", "~<std::vec::Vec<T> as std::default::Default>::default$")
def m_vec_new(ip, st, fn, args, site):
    return ret(st, SeqV())


@model("std::vec::Vec::<T>::with_capacity")
def m_vec_cap(ip, st, fn, args, site):
    return ret(st, SeqV())


def target(ip, st, p):
    """Innermost mutable location behind a (possibly nested) reference."""
    while isinstance(p, Ptr):
        v = ip.load(st, p.cell, p.path)
        if isinstance(v, Ptr):
            p = v
        else:
            return p, v
    raise Unsupported("not a place: %r" % (p,))


@model("std::vec::Vec::<T, A>::push", "std::vec::Vec::<T>::push")
def m_vec_push(ip, st, fn, args, site):
    p, v = target(ip, st, args[0])
    if not isinstance(v, SeqV):
        raise Unsupported("push")
    ip.store(st, p.cell, p.path, SeqV(v.segs + (('e', args[1]),)))
    return ret(st, UNIT)


@model("std::vec::Vec::<T, A>::pop")
def m_vec_pop(ip, st, fn, args, site):
    p, v = target(ip, st, args[0])
    n = st.norm(seq_len(v))
    if not st.need(p_le(ONE, n)):
        return ret(st, none(ip, fn, site))
    x = ip.seq_get(st, v, n - 1)
    ip.store(st, p.cell, p.path, ip.seq_slice(st, v, ZERO, n - 1))
    return ret(st, some(ip, fn, site, x))


@model("std::vec::Vec::<T, A>::clear")
def m_vec_clear(ip, st, fn, args, site):
    p, v = target(ip, st, args[0])
    ip.store(st, p.cell, p.path, SeqV())
    return ret(st, UNIT)


@model("std::vec::Vec::<T, A>::truncate")
def m_vec_trunc(ip, st, fn, args, site):
    p, v = target(ip, st, args[0])
    n = st.norm(seq_len(v))
    if st.need(p_lt(args[1], n)):
        ip.store(st, p.cell, p.path, ip.seq_slice(st, v, ZERO, args[1]))
    return ret(st, UNIT)


@model("std::vec::Vec::<T, A>::reserve", "std::vec::Vec::<T, A>::shrink_to_fit", "std::string::String::reserve")
def m_vec_reserve(ip, st, fn, args, site):
    return ret(st, UNIT)


@model("std::vec::Vec::<T, A>::extend_from_slice",
       "~<std::vec::Vec<T, A> as std::iter::Extend<.*>>::extend$")
def m_vec_extend(ip, st, fn, args, site):
    p, v = target(ip, st, args[0])
    w = args[1]
    if isinstance(w, Ptr):
        w = deref(ip, st, w)
    if isinstance(w, IterV):
        if w.kind in ('slice', 'into', 'bytes'):
            w = w.p[0]
        else:
            return consume(ip, st, fn, w, site, ExtendInto(p, "Extend<&" in fn.def_))
    if isinstance(w, StrV):
        w = bytes_seq(w.t)
    if isinstance(w, SymV):
        raise Unsupported("extend from %r" % (w,))
    if isinstance(w, Agg):
        w = to_iter(ip, st, w)
        return consume(ip, st, fn, w, site, ExtendInto(p, "Extend<&" in fn.def_))
    ip.store(st, p.cell, p.path, SeqV(v.segs + w.segs))
    return ret(st, UNIT)


@model("std::vec::Vec::<T, A>::append")
def m_vec_append(ip, st, fn, args, site):
    p, v = target(ip, st, args[0])
    q, w = target(ip, st, args[1])
    ip.store(st, p.cell, p.path, SeqV(v.segs + w.segs))
    ip.store(st, q.cell, q.path, SeqV())
    return ret(st, UNIT)


@model("std::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len")
def m_vec_len(ip, st, fn, args, site):
    return ret(st, st.norm(seq_len(as_seq(ip, st, args[0]))))


@model("std::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty")
def m_vec_empty(ip, st, fn, args, site):
    return ret(st, p_eq(st.norm(seq_len(as_seq(ip, st, args[0]))), ZERO))


@model("<std::vec::Vec<T, A> as std::ops::Deref>::deref", "std::vec::Vec::<T, A>::as_slice",
       "<std::vec::Vec<T, A> as std::clone::Clone>::clone", "<std::vec::Vec<T> as std::convert::From<&[T]>>::from",
       "std::slice::<impl [T]>::to_vec", "std::slice::<impl std::borrow::ToOwned for [T]>::to_owned",
       "alloc::slice::<impl [T]>::to_vec", "std::slice::<impl [T]>::into_vec", "alloc::slice::<impl [T]>::into_vec",
       r"~<std::vec::Vec<T> as std::convert::From<(\[T; N\]|&\[T; N\])>>::from$",
       "~<std::vec::Vec<T, A> as std::convert::AsRef<.*>>::as_ref$",
       "~<std::vec::Vec<T, A> as std::borrow::Borrow<.*>>::borrow$",
       r"~.*<impl std::convert::AsRef<\[T\]> for \[T(; N)?\]>::as_ref$",
       "core::array::<impl [T; N]>::as_slice", "std::vec::Vec::<T, A>::into_boxed_slice")
def m_vec_id(ip, st, fn, args, site):
    return ret(st, as_seq(ip, st, args[0]))


@model("<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut", "std::vec::Vec::<T, A>::as_mut_slice")
def m_vec_derefmut(ip, st, fn, args, site):
    p, v = target(ip, st, args[0])
    return ret(st, p)


def seq_index(ip, st, v, i, site):
    n = st.norm(seq_len(v))
    if not st.need(p_lt(i, n)):
        return None
    return ip.seq_get(st, v, i)


@model("<std::vec::Vec<T, A> as std::ops::Index<I>>::index",
       "core::slice::index::<impl std::ops::Index<I> for [T]>::index",
       r"~.*<impl std::ops::Index<I> for \[T(; N)?\]>::index$")
def m_vec_index(ip, st, fn, args, site):
    v = as_seq(ip, st, args[0])
    if isinstance(args[1], Lin):
        if not st.need(p_lt(args[1], st.norm(seq_len(v)))):
            return panic(st, "index out of bounds", site)
        x = ip.seq_get(st, v, args[1])
        return ret(st, Ptr(('val', x)))
    n = st.norm(seq_len(v))
    lo, hi = range_bounds(ip, st, args[1], n)
    if not st.need(p_le(lo, hi)) or not st.need(p_le(hi, n)):
        return panic(st, "slice index out of range", site)
    return ret(st, ip.seq_slice(st, v, lo, hi))


@model("<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut",
       r"~.*<impl std::ops::IndexMut<I> for \[T(; N)?\]>::index_mut$")
def m_vec_index_mut(ip, st, fn, args, site):
    p, v = target(ip, st, args[0])
    if isinstance(args[1], Lin):
        if not st.need(p_lt(args[1], st.norm(seq_len(v)))):
            return panic(st, "index out of bounds", site)
        return ret(st, Ptr(p.cell, p.path + (('i', st.norm(args[1])),)))
    raise Unsupported("mutable sub-slice")


@model("core::slice::<impl [T]>::get")
def m_slice_get(ip, st, fn, args, site):
    v = as_seq(ip, st, args[0])
    n = st.norm(seq_len(v))
    if isinstance(args[1], Lin):
        if not st.need(p_lt(args[1], n)):
            return ret(st, none(ip, fn, site))
        return ret(st, some(ip, fn, site, Ptr(('val', ip.seq_get(st, v, args[1])))))
    lo, hi = range_bounds(ip, st, args[1], n)
    if not st.need(p_le(lo, hi)) or not st.need(p_le(hi, n)):
        return ret(st, none(ip, fn, site))
    return ret(st, some(ip, fn, site, ip.seq_slice(st, v, lo, hi)))


@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last")
def m_slice_first(ip, st, fn, args, site):
    v = as_seq(ip, st, args[0])
    n = st.norm(seq_len(v))
    if not st.need(p_le(ONE, n)):
        return ret(st, none(ip, fn, site))
    i = ZERO if fn.def_.endswith("first") else st.norm(n - 1)
    return ret(st, some(ip, fn, site, Ptr(('val', ip.seq_get(st, v, i)))))


@model("core::slice::<impl [T]>::last_mut", "core::slice::<impl [T]>::first_mut", "core::slice::<impl [T]>::get_mut")
def m_slice_last_mut(ip, st, fn, args, site):
    p, v = target(ip, st, args[0])
    n = st.norm(seq_len(v))
    if not st.need(p_le(ONE, n)):
        return ret(st, none(ip, fn, site))
    if fn.def_.endswith("get_mut"):
        if not isinstance(args[1], Lin):
            raise Unsupported("get_mut range")
        i = st.norm(args[1])
        if not st.need(p_lt(i, n)):
            return ret(st, none(ip, fn, site))
    else:
        i = ZERO if fn.def_.endswith("first_mut") else st.norm(n - 1)
    return ret(st, some(ip, fn, site, Ptr(p.cell, p.path + (('i', i),))))


@model("core::slice::<impl [T]>::split_first", "core::slice::<impl [T]>::split_last")
def m_split_first(ip, st, fn, args, site):
    v = as_seq(ip, st, args[0])
    n = st.norm(seq_len(v))
    if not st.need(p_le(ONE, n)):
        return ret(st, none(ip, fn, site))
    if fn.def_.endswith("first"):
        x, r = ip.seq_get(st, v, ZERO), ip.seq_slice(st, v, ONE, n)
    else:
        x, r = ip.seq_get(st, v, n - 1), ip.seq_slice(st, v, ZERO, n - 1)
    return ret(st, some(ip, fn, site, Agg(None, None, (Ptr(('val', x)), r))))


@model("core::slice::<impl [T]>::split_at")
def m_slice_split_at(ip, st, fn, args, site):
    v = as_seq(ip, st, args[0])
    n = st.norm(seq_len(v))
    if not st.need(p_le(args[1], n)):
        return panic(st, "split_at out of range", site)
    return ret(st, Agg(None, None, (ip.seq_slice(st, v, ZERO, args[1]), ip.seq_slice(st, v, args[1], n))))


@model("core::slice::<impl [T]>::contains")
def m_slice_contains(ip, st, fn, args, site):
    v = as_seq(ip, st, args[0])
    x = deref(ip, st, args[1])
    if not all(s[0] == 'e' for s in v.segs):
        raise Unsupported("contains on symbolic sequence")
    for s in v.segs:
        e = s[1]
        e = deref(ip, st, e)
        if isinstance(e, Lin) and isinstance(x, Lin):
            q = p_eq(e, x)
        elif isinstance(e, StrV) and isinstance(x, StrV):
            q = str_eq(e.t, x.t)
        else:
            raise Unsupported("contains")
        if st.need(q):
            return ret(st, TRUE)
    return ret(st, FALSE)


@model(r"~.*PartialEq.* for (std::vec::Vec<T, A1?>|\[T\]|\[T; N\]|&\[T\])>::(eq|ne)$",
       "~std::vec::partial_eq::<impl std::cmp::PartialEq.*>::(eq|ne)$",
       "~(core|std)::(slice::cmp|array::equality)::<impl std::cmp::PartialEq.*>::(eq|ne)$")
def m_vec_eq(ip, st, fn, args, site):
    a, b = as_seq(ip, st, args[0]), as_seq(ip, st, args[1])
    if a == b:
        p = TRUE
    elif all(s[0] == 'e' for s in a.segs) and all(s[0] == 'e' for s in b.segs):
        if len(a.segs) != len(b.segs):
            p = FALSE
        else:
            p = TRUE
            for x, y in zip(a.segs, b.segs):
                x, y = deref(ip, st, x[1]), deref(ip, st, y[1])
                if isinstance(x, Lin) and isinstance(y, Lin):
                    p = p_and(p, p_eq(x, y))
                elif isinstance(x, StrV) and isinstance(y, StrV):
                    p = p_and(p, str_eq(x.t, y.t))
                elif x == y:
                    pass
                else:
                    raise Unsupported("vec eq elements")
    else:
        raise Unsupported("vec eq")
    return ret(st, p if fn.def_.endswith("eq") else p_not(p))


@model(r"~std::slice::<impl \[T\]>::(join|concat)$", r"~alloc::slice::<impl \[T\]>::(join|concat)$")
def m_join(ip, st, fn, args, site):
    v = as_seq(ip, st, args[0])
    if (ip.types[rty(ip, fn, site)].get("name") or "").endswith("vec::Vec"):
        if len(args) > 1 or not all(s[0] == 'e' for s in v.segs):
            raise Unsupported("concatenation of an unknown number of lists")
        segs = ()
        for s in v.segs:
            segs += tuple(as_seq(ip, st, s[1]).segs)
        return ret(st, SeqV(segs))
    if len(args) > 1:
        sep = as_str(ip, st, args[1])
    else:
        sep = ('lit', '')
    if all(s[0] == 'e' for s in v.segs):
        ts = []
        for i, s in enumerate(v.segs):
            if i:
                ts.append(sep)
            ts.append(as_str(ip, st, s[1]))
        return ret(st, StrV(s_cat(*ts)))
    return ret(st, StrV(('join', v, sep)))


@model("std::slice::<impl [T]>::reverse", "core::slice::<impl [T]>::reverse")
def m_reverse(ip, st, fn, args, site):
    p, v = target(ip, st, args[0])
    if not all(s[0] == 'e' for s in v.segs):
        raise Unsupported("reverse symbolic")
    ip.store(st, p.cell, p.path, SeqV(tuple(reversed(v.segs))))
    return ret(st, UNIT)


@model("std::boxed::Box::<T>::new_uninit")
def m_box_uninit(ip, st, fn, args, site):
    n = st.fresh('heap')
    st.cells[('heap', n)] = ObjV("uninitbox")
    return ret(st, ObjV("boxcell", Ptr(('heap', n))))


@model("std::boxed::box_assume_init_into_vec_unsafe")
def m_box_into_vec(ip, st, fn, args, site):
    v = args[0]
    while isinstance(v, (BoxV, Agg)) or (isinstance(v, ObjV) and v.kind == "boxcell"):
        if isinstance(v, ObjV):
            c = v.p[0]
            v = ip.load(st, c.cell, c.path)
            st.cells.pop(c.cell, None)
        else:
            v = v.v if isinstance(v, BoxV) else v.fs[-1]
    if isinstance(v, SeqV):
        return ret(st, v)
    raise Unsupported("vec! contents %r" % (args[0],))


@model("std::boxed::Box::<T>::new", "<std::boxed::Box<T> as std::convert::From<T>>::from")
def m_box_new(ip, st, fn, args, site):
    return ret(st, BoxV(args[0]))


@model(r"~std::boxed::convert::<impl std::convert::From<E> for std::boxed::Box<\(?dyn std::error::Error.*>::from$")
def m_box_error(ip, st, fn, args, site):
    return ret(st, BoxV(args[0]))


@model("~<std::boxed::Box<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?$", "~<std::boxed::Box<.*> as std::convert::AsRef<.*>>::as_ref$")
def m_box_deref(ip, st, fn, args, site):
    p = args[0]
    if isinstance(p, Ptr):
        v = ip.load(st, p.cell, p.path)
        if isinstance(v, BoxV):
            return ret(st, Ptr(p.cell, p.path + (('box',),)))
    raise Unsupported("box deref")


# ------------------------------------------------------------------------------------- maps
def key_of(ip, st, v):
    v = deref(ip, st, v)
    if isinstance(v, (StrV, Lin)):
        return v
    raise Unsupported("map key %r" % (v,))


def key_eq(a, b):
    if isinstance(a, StrV) and isinstance(b, StrV):
        return str_eq(a.t, b.t)
    if isinstance(a, Lin) and isinstance(b, Lin):
        return p_eq(a, b)
    raise Unsupported("map key comparison")


def map_lookup(ip, st, m, k):
    """(True, value) / (False, None); splits as needed."""
    if not isinstance(m, MapV):
        raise Unsupported("map %r" % (m,))
    for (kk, vv) in reversed(m.ins):
        if st.need(key_eq(kk, k)):
            return True, vv
    if m.base is None:
        return False, None
    kt = k.t if isinstance(k, StrV) else k
    if st.need(p_atom(('has', m.base, kt))):
        return True, ip.sym(('get', m.base, kt), m.vty)
    return False, None


MAP = "std::collections::(hash_map::|hash::map::|btree_map::|btree::map::)?(HashMap|BTreeMap)::<.*>::"


@model("~" + MAP + "(new|with_capacity)$", "~<std::collections::.*(HashMap|BTreeMap)<.*> as std::default::Default>::default$")
def m_map_new(ip, st, fn, args, site):
    t = ip.types[rty(ip, fn, site)]
    return ret(st, MapV(None, (), t["args"][1]))


@model("~" + MAP + "contains_key$")
def m_map_has(ip, st, fn, args, site):
    m = deref(ip, st, args[0])
    has, _ = map_lookup(ip, st, m, key_of(ip, st, args[1]))
    return ret(st, TRUE if has else FALSE)


@model("~" + MAP + "get$")
def m_map_get(ip, st, fn, args, site):
    m = deref(ip, st, args[0])
    has, v = map_lookup(ip, st, m, key_of(ip, st, args[1]))
    if has:
        return ret(st, some(ip, fn, site, Ptr(('val', v))))
    return ret(st, none(ip, fn, site))


@model("~" + MAP + "insert$")
def m_map_insert(ip, st, fn, args, site):
    p, m = target(ip, st, args[0])
    k = key_of(ip, st, args[1])
    has, v = map_lookup(ip, st, m, k)
    ip.store(st, p.cell, p.path, MapV(m.base, m.ins + ((k, args[2]),), m.vty))
    if has:
        return ret(st, some(ip, fn, site, v))
    return ret(st, none(ip, fn, site))


@model("~" + MAP + "entry$")
def m_map_entry(ip, st, fn, args, site):
    p, m = target(ip, st, args[0])
    k = key_of(ip, st, args[1])
    has, v = map_lookup(ip, st, m, k)
    t = ip.types[rty(ip, fn, site)]
    names = [x["n"] for x in t["variants"]]
    if has:
        return ret(st, Agg(rty(ip, fn, site), names.index("Occupied"), (ObjV("occ", p, k, v),)))
    return ret(st, Agg(rty(ip, fn, site), names.index("Vacant"), (ObjV("vac", p, k, m.vty),)))


@model("~std::collections::.*(VacantEntry)::<.*>::(insert|insert_entry)$")
def m_vac_insert(ip, st, fn, args, site):
    o = args[0]
    if not (isinstance(o, ObjV) and o.kind == "vac"):
        raise Unsupported("entry")
    m = ip.load(st, o.p[0].cell, o.p[0].path)
    ip.store(st, o.p[0].cell, o.p[0].path, MapV(m.base, m.ins + ((o.p[1], args[1]),), m.vty))
    return ret(st, Ptr(('val', args[1])))


@model("~std::collections::.*(OccupiedEntry)::<.*>::(get|into_mut)$")
def m_occ_get(ip, st, fn, args, site):
    o = deref(ip, st, args[0])
    return ret(st, Ptr(('val', o.p[2])))


# ------------------------------------------------------------------------------------- RefCell / Cell
@model("std::cell::RefCell::<T>::new", "std::cell::Cell::<T>::new")
def m_cell_new(ip, st, fn, args, site):
    return ret(st, Agg(None, None, (args[0], ZERO)))


@model("std::cell::RefCell::<T>::into_inner", "std::cell::Cell::<T>::into_inner")
def m_cell_into(ip, st, fn, args, site):
    return ret(st, args[0].fs[0])


@model("std::cell::Cell::<T>::get")
def m_cell_get(ip, st, fn, args, site):
    p, v = target(ip, st, args[0])
    return ret(st, v.fs[0])


@model("std::cell::Cell::<T>::set", "std::cell::Cell::<T>::replace")
def m_cell_set(ip, st, fn, args, site):
    p, v = target(ip, st, args[0])
    ip.store(st, p.cell, p.path + (('f', 0, None),), args[1])
    return ret(st, UNIT if fn.def_.endswith("set") else v.fs[0])


@model("std::cell::RefCell::<T>::borrow", "std::cell::RefCell::<T>::borrow_mut")
def m_borrow(ip, st, fn, args, site):
    p, v = target(ip, st, args[0])
    flag = v.fs[1]
    mut = fn.def_.endswith("mut")
    if mut:
        if not st.need(p_eq(flag, ZERO)):
            return panic(st, "already borrowed", site)
        ip.store(st, p.cell, p.path + (('f', 1, None),), K(-1))
    else:
        if not st.need(p_le(ZERO, flag)):
            return panic(st, "already mutably borrowed", site)
        ip.store(st, p.cell, p.path + (('f', 1, None),), st.norm(flag + 1))
    return ret(st, ObjV("guard", p, "m" if mut else "s"))


def release_guard(ip, st, g):
    p = g.p[0]
    f = ip.load(st, p.cell, p.path + (('f', 1, None),))
    new = ZERO if g.p[1] == "m" else st.norm(f - 1)
    ip.store(st, p.cell, p.path + (('f', 1, None),), new)


@model("~<std::cell::Ref(Mut)?<'_, T> as std::ops::Deref(Mut)?>::deref(_mut)?$")
def m_guard_deref(ip, st, fn, args, site):
    g = deref(ip, st, args[0])
    if not (isinstance(g, ObjV) and g.kind == "guard"):
        raise Unsupported("guard")
    p = g.p[0]
    return ret(st, Ptr(p.cell, p.path + (('f', 0, None),)))


# ------------------------------------------------------------------------------------- numbers
@model(r"~(core|std)::num::<impl \w+>::checked_(add|sub|mul)$")
def m_checked(ip, st, fn, args, site):
    op = fn.def_.rsplit("_", 1)[1]
    a, b = st.norm(args[0]), st.norm(args[1])
    t = ip.types[fn.locals[1]] if fn.locals else None
    lo, hi = ip.int_range(t)
    v = a + b if op == "add" else a - b if op == "sub" else ip.mul(st, a, b)
    v = st.norm(v)
    if st.need(p_le(v, K(hi))) and st.need(p_le(K(lo), v)):
        return ret(st, some(ip, fn, site, v))
    return ret(st, none(ip, fn, site))


@model(r"~(core|std)::num::<impl \w+>::(saturating|wrapping|overflowing)_(add|sub|mul)$")
def m_satwrap(ip, st, fn, args, site):
    kind, op = fn.def_.split("::")[-1].split("_")
    a, b = st.norm(args[0]), st.norm(args[1])
    tyi = fn.locals[1]
    lo, hi = ip.int_range(ip.types[tyi])
    v = st.norm(a + b if op == "add" else a - b if op == "sub" else ip.mul(st, a, b))
    if kind == "saturating":
        if not st.need(p_le(v, K(hi))):
            return ret(st, K(hi))
        if not st.need(p_le(K(lo), v)):
            return ret(st, K(lo))
        return ret(st, v)
    if kind == "wrapping":
        return ret(st, ip.wrap(st, v, tyi))
    o = not (st.need(p_le(v, K(hi))) and st.need(p_le(K(lo), v)))
    return ret(st, Agg(None, None, (ip.wrap(st, v, tyi), TRUE if o else FALSE)))


@model(r"~(core|std)::num::<impl \w+>::(checked|wrapping|overflowing)_(shl|shr)$")
def m_checked_shl(ip, st, fn, args, site):
    kind, op = fn.def_.split("::")[-1].split("_")
    tyi = fn.locals[1]
    bits = ip.types[tyi]["bits"]
    n = st.norm(args[1])
    if not n.is_const():
        raise Unsupported("symbolic shift")
    o = not (0 <= n.c < bits)
    v = ip.binop(st, "Shl" if op == "shl" else "Shr", args[0], K(n.c % bits), tyi, False)
    if kind == "wrapping":
        return ret(st, v)
    if kind == "overflowing":
        return ret(st, Agg(None, None, (v, TRUE if o else FALSE)))
    if o:
        return ret(st, none(ip, fn, site))
    return ret(st, some(ip, fn, site, v))


@model(r"~(core|std)::num::<impl \w+>::(to|from)_(be|le|ne)_bytes$", r"~(core|std)::num::<impl \w+>::swap_bytes$",
       r"~(core|std)::num::<impl \w+>::(to|from)_(be|le)$")
def m_to_bytes(ip, st, fn, args, site):
    last = fn.def_.split("::")[-1]
    if last in ("to_be_bytes", "to_le_bytes", "to_ne_bytes"):
        tyi = fn.locals[1]
        n = ip.types[tyi]["bits"] // 8
        bs = []
        for i in range(n):
            v = ip.binop(st, "Shr", args[0], K(8 * i), tyi, False)
            v = ip.wrap(st, v, ip.u8_ty())
            bs.append(v)
        if "be" in last:
            bs.reverse()
        return ret(st, SeqV([('e', b) for b in bs]))
    if last in ("from_be_bytes", "from_le_bytes", "from_ne_bytes"):
        v = as_seq(ip, st, args[0])
        bs = [s[1] for s in v.segs]
        if "be" in last:
            bs = bs[::-1]
        r = ZERO
        for i, b in enumerate(bs):
            r = r + b.scale(1 << (8 * i))
        return ret(st, st.norm(r))
    tyi = fn.locals[1]
    if last in ("to_le", "from_le"):
        return ret(st, args[0])
    n = ip.types[tyi]["bits"]
    b = to_bits(st, args[0], n)
    if b is None:
        raise Unsupported("swap_bytes")
    out = []
    for i in range(n // 8 - 1, -1, -1):
        out += b[8 * i:8 * i + 8]
    return ret(st, from_bits(st, out))


@model(r"~(core|std)::num::<impl \w+>::rotate_(left|right)$")
def m_rotate(ip, st, fn, args, site):
    tyi = fn.locals[1]
    n = ip.types[tyi]["bits"]
    k = st.norm(args[1])
    b = to_bits(st, args[0], n)
    if b is None or not k.is_const():
        raise Unsupported("rotate")
    k = k.c % n
    if fn.def_.endswith("right"):
        k = (n - k) % n
    return ret(st, from_bits(st, b[n - k:] + b[:n - k]))


@model(r"~(core|std)::num::<impl \w+>::(min|max|pow|abs_diff)$", "~std::cmp::(min|max)$", "~std::cmp::(Ord|impls::.*)::(min|max)$",
       r"~core::cmp::impls::<impl std::cmp::Ord for \w+>::(min|max|clamp)$", r"~std::cmp::impls::<impl std::cmp::Ord for \w+>::(min|max|clamp)$")
def m_minmax(ip, st, fn, args, site):
    last = fn.def_.split("::")[-1]
    a, b = args[0], args[1]
    wrapu = None
    if isinstance(a, Agg) and len(a.fs) == 1 and isinstance(a.fs[0], Lin):
        wrapu = a.ty
        a, b = a.fs[0], b.fs[0]
    if not isinstance(a, Lin) or not isinstance(b, Lin):
        raise Unsupported("min/max of %r" % (a,))
    a, b = st.norm(a), st.norm(b)
    if last == "pow":
        if a.is_const() and b.is_const():
            return ret(st, K(a.c ** b.c))
        raise Unsupported("pow")
    if last == "abs_diff":
        return ret(st, st.norm(a - b) if st.need(p_le(b, a)) else st.norm(b - a))
    if last == "clamp":
        raise Unsupported("clamp")
    le = st.need(p_le(a, b))
    r = (a if le else b) if last == "min" else (b if le else a)
    return ret(st, Agg(wrapu, None, (r,)) if wrapu is not None else r)


@model(r"~(core|std)::num::<impl \w+>::from_str_radix$")
def m_from_str_radix(ip, st, fn, args, site):
    t = as_str(ip, st, args[0])
    r = st.norm(args[1])
    if not r.is_const() or not 2 <= r.c <= 36:
        raise Unsupported("radix")
    return parse_int(ip, st, fn, site, t, r.c)


@model(r"~(core|std)::num::<impl std::str::FromStr for \w+>::from_str$")
def m_from_str(ip, st, fn, args, site):
    return parse_int(ip, st, fn, site, as_str(ip, st, args[0]), 10)


def digits_lang(r):
    return rx.rep(rx.chars(tuple(sorted(digit_ranges(r)))), 1, None)


def parse_int(ip, st, fn, site, t, radix):
    """Result<uN, ParseIntError>: value term ('num', radix, t)."""
    rt = ip.types[rty(ip, fn, site)]
    tyi = rt["args"][0]
    T = ip.types[tyi]
    if T["k"] != "uint":
        raise Unsupported("signed parse")
    lo, hi = ip.int_range(T)
    c = st.const_str(t)
    body = digits_lang(radix)
    R = rx.alt(body, rx.cat(rx.lit("+"), body))
    if not st.need(('in', t, R)):
        return ret(st, err(ip, fn, site, ObjV("ParseIntError", StrV(t))))
    if c is not None:
        v = K(int(c, radix))
    else:
        v = num_value(ip, st, t, radix)
    if not st.need(p_le(v, K(hi))):
        return ret(st, err(ip, fn, site, ObjV("ParseIntError", StrV(t))))
    return ret(st, ok(ip, fn, site, v))


def digit_value(st, c, radix):
    for lo, hi in digit_ranges(radix):
        if st.need(p_and(p_le(K(lo), c), p_le(c, K(hi)))):
            return st.norm(c - lo + {48: 0, 65: 10, 97: 10}[lo])
    raise Unsupported("not a digit")


def num_value(ip, st, t, radix):
    """Numeric value of a digit string."""
    cs = cells(t) if is_cells(t) else None
    if cs is not None:
        v = ZERO
        for c, n in cs:
            if c == ord('+'):
                continue
            v = v.scale(radix) + digit_value(st, K(c) if isinstance(c, int) else st.norm(c), radix)
        return st.norm(v)
    a = atom(('num', radix, t), 0, INF)
    n = st.bounds(st.norm(slen(t)))[1]
    if n == 1:
        for d in range(radix - 1):
            if st.need(('in', t, rx.ci("0123456789abcdefghijklmnopqrstuvwxyz"[d]))):
                return K(d)
        return K(radix - 1)
    if n <= 64:
        st._narrow(a, ((0, radix ** int(n) - 1),))
    return L(a)


@model("core::str::<impl str>::parse")
def m_parse(ip, st, fn, args, site):
    rt = ip.types[rty(ip, fn, site)]
    T = ip.types[rt["args"][0]]
    if T["k"] != "uint":
        raise Unsupported("parse")
    return parse_int(ip, st, fn, site, as_str(ip, st, args[0]), 10)


@model(r"~.*TryFrom<\w+> for \w+>::try_from$")
def m_try_from(ip, st, fn, args, site):
    rt = ip.types[rty(ip, fn, site)]
    T = ip.types[rt["args"][0]]
    if ip.int_range(T) is None or not isinstance(args[0], Lin):
        raise Unsupported("try_from")
    lo, hi = ip.int_range(T)
    v = st.norm(args[0])
    if st.need(p_and(p_le(K(lo), v), p_le(v, K(hi)))):
        return ret(st, ok(ip, fn, site, v))
    return ret(st, err(ip, fn, site, ObjV("TryFromIntError")))


@model(r"~(std|core)::convert::num::<impl std::convert::From<\w+> for \w+>::from$")
def m_num_from(ip, st, fn, args, site):
    v = args[0]
    if is_pred(v):
        v = K(1) if st.need(v) else K(0)
    if isinstance(v, Lin):
        return ret(st, v)
    raise Unsupported("From")


# ------------------------------------------------------------------------------------- closures
@model("~(std|core)::ops::(Fn|FnMut|FnOnce)::call(_mut|_once)?$", "~.*as std::ops::Fn(Mut|Once)?<.*>>::call(_mut|_once)?$",
       "~(std|core)::ops::function::impls::<impl std::ops::Fn.*>::call(_mut|_once)?$")
def m_call(ip, st, fn, args, site):
    t = args[1] if len(args) > 1 else UNIT
    if isinstance(t, SymV):
        t = ip.expand(t)
    return ip.call_value(st, args[0], list(t.fs), site)


# ------------------------------------------------------------------------------------- panics and exits
@model("core::panicking::panic", "core::panicking::panic_fmt", "std::rt::begin_panic", "core::panicking::panic_str_literal",
       "core::panicking::panic_display", "core::panicking::panic_explicit", "core::panicking::unreachable_display",
       "core::panicking::panic_nounwind", "core::panicking::panic_cannot_unwind",
       "~core::panicking::.*", "~(std|core)::option::(unwrap_failed|expect_failed)$", "~(std|core)::result::unwrap_failed.*",
       "~(std|core)::cell::panic_already.*", "core::num::from_ascii_bytes_radix_panic", "core::slice::index::slice_index_fail",
       "core::str::slice_error_fail", "std::rt::panic_fmt", "~std::panicking::.*", "std::rt::panic_display")
def m_panic(ip, st, fn, args, site):
    msg = ""
    for a in args:
        try:
            v = deref(ip, st, a)
            if isinstance(v, StrV) and v.t[0] == 'lit':
                msg = v.t[1]
                break
        except Unsupported:
            pass
    return panic(st, "panic: " + (msg or fn.def_.split("::")[-1]), site)


@model("std::process::exit")
def m_exit(ip, st, fn, args, site):
    st.log = st.log + (('exit', st.norm(args[0])),)
    return [Out("exit", st, st.norm(args[0]), ("exit", site and site.get("sp")))]


@model("std::process::abort")
def m_abort(ip, st, fn, args, site):
    return panic(st, "abort", site)


@model("std::intrinsics::cold_path", "intrinsic:cold_path", "std::hint::cold_path", "std::hint::assert_unchecked", "intrinsic:assume")
def m_nop(ip, st, fn, args, site):
    return ret(st, UNIT)


@model("intrinsic:likely", "intrinsic:unlikely", "std::intrinsics::unlikely", "std::intrinsics::likely", "std::hint::must_use",
       "std::hint::black_box", "std::convert::identity")
def m_identity(ip, st, fn, args, site):
    return ret(st, args[0])


@model("~(std|core)::(mem|ptr)::(drop|forget|drop_in_place)$")
def m_drop(ip, st, fn, args, site):
    v = args[0]
    if isinstance(v, ObjV) and v.kind == "guard":
        release_guard(ip, st, v)
    return ret(st, UNIT)


@model("intrinsic:discriminant_value", "std::intrinsics::discriminant_value")
def m_discr(ip, st, fn, args, site):
    v = deref(ip, st, args[0])
    return ret(st, st.norm(ip.discr(v)))


@model("std::mem::discriminant")
def m_mem_discr(ip, st, fn, args, site):
    v = deref(ip, st, args[0])
    return ret(st, Agg(None, None, (st.norm(ip.discr(v)),)))


@model("intrinsic:size_of", "std::mem::size_of")
def m_size_of(ip, st, fn, args, site):
    if fn.targs and isinstance(fn.targs[0], int):
        t = ip.types[fn.targs[0]]
        if t.get("size") is not None and t["size"] >= 0:
            return ret(st, K(t["size"]))
    raise Unsupported("size_of")


# ------------------------------------------------------------------------------------- formatting
FMT_KINDS = {"display": "display", "debug": "debug", "lower_hex": "x", "upper_hex": "X", "binary": "b", "octal": "o",
             "pointer": "p", "lower_exp": "e", "upper_exp": "E"}


@model(r"~core::fmt::rt::Argument::<'_>::new_\w+$")
def m_fmt_arg(ip, st, fn, args, site):
    k = fn.def_.split("::new_")[-1]
    if k == "display" and fn.name.endswith("::<char>"):
        return ret(st, ObjV("fmtarg", "char", args[0]))
    return ret(st, ObjV("fmtarg", FMT_KINDS.get(k, k), args[0]))


@model("core::fmt::rt::Argument::<'_>::from_usize")
def m_fmt_arg_usize(ip, st, fn, args, site):
    return ret(st, ObjV("fmtarg", "usize", args[0]))


@model("~std::fmt::Arguments::<'a>::from_str(_nonconst)?$")
def m_args_from_str(ip, st, fn, args, site):
    return ret(st, ObjV("fmt", StrV(as_str(ip, st, args[0]))))


@model("std::fmt::Arguments::<'a>::new")
def m_args_new(ip, st, fn, args, site):
    tv = as_seq(ip, st, args[0])
    av = as_seq(ip, st, args[1])
    bs = []
    for s in tv.segs:
        c = st.norm(s[1])
        if not c.is_const():
            raise Unsupported("format template")
        bs.append(c.c)
    al = [deref(ip, st, s[1]) for s in av.segs]
    return ret(st, ObjV("fmt", StrV(decode_template(ip, st, bytes(bs), al))))


def decode_template(ip, st, b, al):
    i = 0
    nxt = 0
    ts = []
    while i < len(b):
        c = b[i]
        i += 1
        if c == 0:
            break
        if c < 0x80:
            ts.append(('lit', b[i:i + c].decode('utf-8')))
            i += c
            continue
        if c == 0x80:
            n = b[i] | (b[i + 1] << 8)
            i += 2
            ts.append(('lit', b[i:i + n].decode('utf-8')))
            i += n
            continue
        if c & 0xC0 != 0xC0:
            raise Unsupported("format template")
        flags = 0x20 | 0xE000_0000
        w = p = None
        if c & 1:
            flags = int.from_bytes(b[i:i + 4], 'little')
            i += 4
        if c & 2:
            w = int.from_bytes(b[i:i + 2], 'little')
            i += 2
        if c & 4:
            p = int.from_bytes(b[i:i + 2], 'little')
            i += 2
        if c & 8:
            nxt = int.from_bytes(b[i:i + 2], 'little')
            i += 2
        if c & 0x30:
            if c & 0x10 and w is not None:
                w = ('ind', al[w])
            if c & 0x20 and p is not None:
                p = ('ind', al[p])
        a = al[nxt]
        nxt += 1
        ts.append(fmt_term(ip, st, a.p[0], flags, w, p, a.p[1]))
    return s_cat(*ts)


def fmt_term(ip, st, kind, flags, w, p, v):
    x = deref(ip, st, v)
    if isinstance(x, ObjV) and x.kind == "fmt" and w is None and p is None:
        return x.p[0].t
    if isinstance(x, StrV) and kind == "display" and w is None and p is None:
        return x.t
    if isinstance(x, Agg) and len(x.fs) == 1 and isinstance(x.fs[0], Lin) and kind in ("x", "X", "b", "o", "display") and x.ty is not None and ip.is_u12(ip.types[x.ty]):
        x = x.fs[0]
    if isinstance(x, Lin):
        x = st.norm(x)
        tv = None
        if kind == "display" and w is None and x.is_const():
            # could be an integer or a character; characters are rendered by char_str elsewhere
            pass
    zero = bool(flags & 0x0100_0000)
    alt = bool(flags & 0x0080_0000)
    if kind == "char" and w is None and p is None and isinstance(x, Lin):
        return char_text(ip, st, x)
    if flags and (flags & 0x60_0000 or w is not None and (flags & 0x6000_0000 != 0x6000_0000 or flags & 0x1F_FFFF != 0x20)):
        p = ('flags', flags, p)
    return ('fmt', kind, zero, alt, w, p, x)


@model("std::fmt::format", "alloc::fmt::format", "~(std|alloc)::fmt::format::.*")
def m_format(ip, st, fn, args, site):
    v = deref(ip, st, args[0])
    if isinstance(v, ObjV) and v.kind == "fmt":
        return ret(st, v.p[0])
    raise Unsupported("format")


@model("std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Formatter::<'a>::write_str", "~<std::fmt::Formatter<'_> as std::fmt::Write>::write_.*",
       r"~std::fmt::Formatter::<'a>::(pad|pad_integral|debug_\w+)$", r"~<(str|std::string::String|char|[ui](8|16|32|64|128|size)) as std::fmt::\w+>::fmt$")
def m_fmt_write(ip, st, fn, args, site):
    text = ('sym', ('unknown', st.fresh('fmtwrite')))
    last = fn.def_.split("::")[-1]
    if last == "fmt":
        d = fn.def_
        k = {"LowerHex": "x", "UpperHex": "X", "Binary": "b", "Octal": "o", "Display": "display"}.get(d.split("::")[-2].split(">")[0])
        v = deref(ip, st, args[0])
        if k == "display" and d.startswith("<char"):
            text = char_text(ip, st, v)
        elif k is not None:
            text = fmt_term(ip, st, k, 0, None, None, args[0])
    elif len(args) == 2:
        v = deref(ip, st, args[1])
        if isinstance(v, ObjV) and v.kind == "fmt":
            text = v.p[0].t
        elif isinstance(v, StrV):
            text = v.t
        elif last == "write_char" and isinstance(v, Lin):
            text = char_text(ip, st, v)
    st.log = st.log + (('fmtwrite', text),)
    if not ip.fmt_ok and st.need(p_atom(('fmterr', st.fresh('fmterr')))):
        return ret(st, err(ip, fn, site, UNIT))
    return ret(st, ok(ip, fn, site, UNIT))


def char_text(ip, st, v):
    v = st.norm(v)
    if v.is_const():
        return ('lit', chr(v.c))
    return ('fmt', 'char', False, False, None, None, v)


@model("std::error::Error::description")
def m_description(ip, st, fn, args, site):
    v = deref(ip, st, args[0])
    for g in ip.prog.local_fns():
        if g.has_body() and g.name.endswith("std::error::Error>::description") and len(g.locals) > 1:
            t = ip.types[g.locals[1]]
            if t["k"] == "ref" and isinstance(v, (Agg, SymV)) and t["elem"] == v.ty:
                return ip.call(st, g.id, [args[0]])
    return ret(st, StrV(('lit', 'description() is deprecated; use Display')))


# ------------------------------------------------------------------------------------- I/O effects
def effect(ip, st, name, *what):
    n = st.fresh('io')
    st.log = st.log + ((name, n) + tuple(what),)
    return n


@model("std::io::_print", "std::io::_eprint")
def m_print(ip, st, fn, args, site):
    v = deref(ip, st, args[0])
    what = v.p[0] if isinstance(v, ObjV) and v.kind == "fmt" else v
    effect(ip, st, "print" if fn.def_.endswith("_print") else "eprint", what)
    return ret(st, UNIT)


def io_result(ip, st, fn, site, key, okv):
    if st.need(p_atom(('ioerr',) + key)):
        return ret(st, err(ip, fn, site, ObjV("ioerror", key)))
    return ret(st, ok(ip, fn, site, okv))


@model("std::fs::File::open", "std::fs::File::create", "std::fs::File::create_new")
def m_file_open(ip, st, fn, args, site):
    name = fn.def_.split("::")[-1]
    path = deref(ip, st, args[0])
    n = effect(ip, st, name, path)
    e = st.need(p_atom(('ioerr', name, n)))
    st.log = st.log + (('result', n, 'err' if e else 'ok'),)
    if e:
        return ret(st, err(ip, fn, site, ObjV("ioerror", name, n)))
    return ret(st, ok(ip, fn, site, ObjV("file", name, n, path)))


@model(r"~<(&'?\w* ?)?std::fs::File as std::io::Read>::read_to_string$", "std::io::Read::read_to_string")
def m_read_to_string(ip, st, fn, args, site):
    f = deref(ip, st, args[0])
    p, old = target(ip, st, args[1])
    n = effect(ip, st, "read", f)
    e = st.need(p_atom(('ioerr', 'read', n)))
    st.log = st.log + (('result', n, 'err' if e else 'ok'),)
    if e:
        ip.store(st, p.cell, p.path, StrV(s_cat(as_str(ip, st, old), ('sym', ('partial', n)))))
        return ret(st, err(ip, fn, site, ObjV("ioerror", "read", n)))
    ip.store(st, p.cell, p.path, StrV(s_cat(as_str(ip, st, old), ('sym', ('content', n)))))
    return ret(st, ok(ip, fn, site, L(atom(('readlen', n), 0, ISIZE))))


@model("std::fs::read_to_string")
def m_fs_read(ip, st, fn, args, site):
    path = deref(ip, st, args[0])
    n = effect(ip, st, "open", path)
    e = st.need(p_atom(('ioerr', 'open', n)))
    st.log = st.log + (('result', n, 'err' if e else 'ok'), )
    if e:
        return ret(st, err(ip, fn, site, ObjV("ioerror", "read", n)))
    st.log = st.log + (('read', n, ObjV("file", "open", n, path)), ('result', n, 'ok'))
    return ret(st, ok(ip, fn, site, StrV(('sym', ('content', n)))))


@model("std::fs::write")
def m_fs_write(ip, st, fn, args, site):
    path = deref(ip, st, args[0])
    n = effect(ip, st, "create", path)
    e = st.need(p_atom(('ioerr', 'create', n)))
    st.log = st.log + (('result', n, 'err' if e else 'ok'), )
    if e:
        return ret(st, err(ip, fn, site, ObjV("ioerror", "create", n)))
    data = deref(ip, st, args[1])
    return do_write(ip, st, fn, site, ObjV("file", "create", n, path), data)


@model("std::io::stdout", "std::io::stderr", "std::io::stdin")
def m_stdout(ip, st, fn, args, site):
    return ret(st, ObjV(fn.def_.split("::")[-1]))


@model("~std::io::(Stdout|Stderr)::lock$", "~std::io::(BufWriter|LineWriter)::<.*>::(new|with_capacity)$")
def m_lock(ip, st, fn, args, site):
    v = deref(ip, st, args[-1])
    if "BufWriter" in fn.def_ or "LineWriter" in fn.def_:
        return ret(st, ObjV("buffered", v))
    return ret(st, v)


def do_write(ip, st, fn, site, w, data):
    n = effect(ip, st, "write", w, data)
    e = st.need(p_atom(('ioerr', 'write', n)))
    st.log = st.log + (('result', n, 'err' if e else 'ok'), )
    if e:
        return ret(st, err(ip, fn, site, ObjV("ioerror", "write", n)))
    return ret(st, ok(ip, fn, site, UNIT))


@model("~.*std::io::Write.*::write_all$", "std::io::Write::write_fmt", "~.*std::io::Write.*::write_fmt$")
def m_write_all(ip, st, fn, args, site):
    w = deref(ip, st, args[0])
    d = deref(ip, st, args[1])
    if isinstance(d, ObjV) and d.kind == "fmt":
        d = d.p[0]
    if isinstance(d, SeqV) and len(d.segs) == 1 and d.segs[0][0] == 'b':
        d = StrV(d.segs[0][1])
    return do_write(ip, st, fn, site, w, d)


@model("~.*std::io::Write.*::write$")
def m_write_some(ip, st, fn, args, site):
    w = deref(ip, st, args[0])
    d = deref(ip, st, args[1])
    n = effect(ip, st, "write_some", w, d)
    e = st.need(p_atom(('ioerr', 'write', n)))
    st.log = st.log + (('result', n, 'err' if e else 'ok'), )
    if e:
        return ret(st, err(ip, fn, site, ObjV("ioerror", "write", n)))
    return ret(st, ok(ip, fn, site, L(atom(('written', n), 0, ISIZE))))


@model("~.*std::io::Write.*::flush$", "~std::fs::File::sync_(all|data)$")
def m_flush(ip, st, fn, args, site):
    w = deref(ip, st, args[0])
    n = effect(ip, st, "flush", w)
    e = st.need(p_atom(('ioerr', 'flush', n)))
    st.log = st.log + (('result', n, 'err' if e else 'ok'), )
    if e:
        return ret(st, err(ip, fn, site, ObjV("ioerror", "flush", n)))
    return ret(st, ok(ip, fn, site, UNIT))


@model("~<.* as std::convert::AsRef<(std::path::Path|std::ffi::OsStr)>>::as_ref$", "std::path::Path::new",
       "~<std::path::PathBuf as std::convert::From<.*>>::from$", "~<std::path::PathBuf as std::ops::Deref>::deref$",
       "std::path::Path::to_path_buf")
def m_path(ip, st, fn, args, site):
    v = deref(ip, st, args[0])
    if isinstance(v, StrV):
        return ret(st, v)
    raise Unsupported("path")


# ------------------------------------------------------------------------------------- iterators
class Item(object):
    """One outcome of advancing an iterator: item is None at the end."""
    __slots__ = ("st", "it", "item", "out")

    def __init__(self, st, it, item, out=None):
        self.st = st
        self.it = it
        self.item = item
        self.out = out


END = object()
SKIP = object()


def user_next(ip, v):
    """`next` of the program's own iterator type, if v is a value of one."""
    if not isinstance(v, Agg) or v.ty is None or ip.types[v.ty]["k"] != "struct":
        return None
    n = ip.tname(v.ty)
    if not n.startswith("c8s::"):
        return None
    for f in ip.prog.local_fns():
        if f.has_body() and f.name.startswith("<" + n) and f.name.endswith("as std::iter::Iterator>::next") and f.name[len(n) + 1:len(n) + 2] in ("<", " "):
            return f
    return None


def to_iter(ip, st, v):
    if isinstance(v, Ptr):
        w = ip.load(st, v.cell, v.path)
        if isinstance(w, IterV) or user_next(ip, w) is not None:
            return IterV("byref", v)
        if isinstance(w, Agg) and w.ty is not None and "Range" in ip.tname(w.ty):
            return IterV("byref", v)
        v = deref(ip, st, w) if isinstance(w, Ptr) else w
        if isinstance(v, SeqV):
            return IterV("slice", v)
        if isinstance(v, IterV):
            return IterV("byref", w)
    if isinstance(v, IterV):
        return v
    if isinstance(v, SeqV):
        return IterV("into", v)
    if isinstance(v, SymV):
        v = ip.expand(v) if v.ty is not None and ip.types[v.ty]["k"] == "struct" else v
    if isinstance(v, Agg):
        n = ip.tname(v.ty) if v.ty is not None else ''
        if n.endswith("RangeInclusive"):
            return IterV("rangei", v.fs[0], v.fs[1], v.fs[2] if len(v.fs) > 2 else FALSE)
        if n.endswith("ops::Range") or n.endswith("range::Range"):
            return IterV("range", v.fs[0], v.fs[1])
        if n.endswith("RangeFrom"):
            return IterV("rangef", v.fs[0])
        if n.endswith("option::Option") and v.var is not None:
            return IterV("into", SeqV([('e', v.fs[0])] if v.var == 1 else []))
        if user_next(ip, v) is not None:
            return IterV("user", v)
    raise Unsupported("not an iterator: %r" % (v,))


@model("core::slice::<impl [T]>::iter", "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       r"~(core|std)::(slice|array)::(iter::)?<impl std::iter::IntoIterator for &'a \[T(; N)?\]>::into_iter$",
       r"~<&'a \[T(; N)?\] as std::iter::IntoIterator>::into_iter$")
def m_slice_iter(ip, st, fn, args, site):
    return ret(st, IterV("slice", as_seq(ip, st, args[0])))


@model("<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       r"~(core|std)::array::(iter::)?<impl std::iter::IntoIterator for \[T; N\]>::into_iter$")
def m_vec_into_iter(ip, st, fn, args, site):
    return ret(st, IterV("into", as_seq(ip, st, args[0])))


@model("core::slice::<impl [T]>::iter_mut", "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       r"~(core|std)::(slice|array)::(iter::)?<impl std::iter::IntoIterator for &'a mut \[T(; N)?\]>::into_iter$")
def m_iter_mut(ip, st, fn, args, site):
    p, v = target(ip, st, args[0])
    return ret(st, IterV("mut", p, ZERO))


@model("<I as std::iter::IntoIterator>::into_iter")
def m_into_iter_id(ip, st, fn, args, site):
    return ret(st, args[0])


@model("core::slice::<impl [T]>::chunks")
def m_chunks(ip, st, fn, args, site):
    n = st.norm(args[1])
    if not st.need(p_ne(n, ZERO)):
        return panic(st, "chunk size must be non-zero", site)
    return ret(st, IterV("chunks", as_seq(ip, st, args[0]), n))


@model("core::slice::<impl [T]>::windows")
def m_windows(ip, st, fn, args, site):
    n = st.norm(args[1])
    if not st.need(p_ne(n, ZERO)):
        return panic(st, "window size must be non-zero", site)
    return ret(st, IterV("windows", as_seq(ip, st, args[0]), n))


ADAPT = {"map": 1, "inspect": 1, "filter": 1, "filter_map": 1, "take_while": 1, "skip_while": 1, "map_while": 1,
         "enumerate": 0, "peekable": 0, "rev": 0, "cloned": 0, "copied": 0, "fuse": 0, "zip": 1, "chain": 1,
         "take": 1, "skip": 1, "step_by": 1, "by_ref": 0, "flat_map": 1, "flatten": 0, "scan": 2}


@model("~std::iter::Iterator::(%s)$" % "|".join(ADAPT))
def m_adapt(ip, st, fn, args, site):
    k = fn.def_.split("::")[-1]
    if k == "by_ref":
        return ret(st, args[0])
    it = to_iter(ip, st, args[0])
    if k in ("cloned", "copied"):
        return ret(st, IterV("cloned", it))
    if k == "fuse":
        return ret(st, it)
    if k == "enumerate":
        return ret(st, IterV("enumerate", it, ZERO))
    if k == "peekable":
        return ret(st, IterV("peekable", it, Agg(None, 0, ())))
    if k == "rev":
        return ret(st, IterV("rev", it))
    if k in ("zip", "chain"):
        return ret(st, IterV(k, it, to_iter(ip, st, args[1])))
    if k == "skip_while":
        return ret(st, IterV(k, it, args[1], FALSE))
    if k == "take_while":
        return ret(st, IterV(k, it, args[1], FALSE))
    if k in ("flatten",):
        return ret(st, IterV("flat_map", it, None, Agg(None, 0, ())))
    if k == "flat_map":
        return ret(st, IterV("flat_map", it, args[1], Agg(None, 0, ())))
    if k == "step_by":
        if not st.need(p_le(ONE, args[1])):
            return panic(st, "assertion failed: step != 0", site)
        return ret(st, IterV(k, it, st.norm(args[1]), TRUE))
    if k == "scan":
        return ret(st, IterV(k, it, args[1], args[2], FALSE))
    return ret(st, IterV(k, it, args[1]))


def drop_front(ip, st, v, k, n):
    """v without its first k elements (known to exist); a single symbolic segment keeps its shape
    even when it becomes empty."""
    if len(v.segs) == 1 and v.segs[0][0] == 's':
        s = v.segs[0]
        return SeqV([('s', s[1], st.norm(s[2] + k), s[3], s[4])])
    return ip.seq_slice(st, v, k, n)


def drop_back(ip, st, v, k, n):
    if len(v.segs) == 1 and v.segs[0][0] == 's':
        s = v.segs[0]
        return SeqV([('s', s[1], s[2], st.norm(s[3] - k), s[4])])
    return ip.seq_slice(st, v, ZERO, st.norm(n - k))


def has_skip(it):
    """May next() on this iterator have to pass over items?"""
    if not isinstance(it, IterV):
        return False
    return it.kind in ("filter", "filter_map", "skip_while", "flat_map") or any(has_skip(x) for x in it.p)


def advance(ip, st, it, site):
    """All outcomes of next() on iterator value it.  Returns list of Item."""
    k = it.kind
    if k == "user":
        f = user_next(ip, it.p[0])
        cell = ('clo', st.fresh('clo'))
        st.cells[cell] = it.p[0]
        out = []
        for o in ip.call(st, f.id, [Ptr(cell)], site):
            if o.kind != "ret":
                out.append(Item(o.st, None, None, o))
                continue
            it2 = IterV(k, o.st.cells.pop(cell))
            for s2, v in variants(ip, o.st, o.val):
                out.append(Item(s2, it2, ip.payload(o.val, 1, 0) if v == 1 else END))
        return out
    if k in ("slice", "into", "bytes"):
        v = it.p[0]
        if isinstance(v, StrV):
            v = SeqV([('b', v.t)])
        n = st.norm(seq_len(v))
        if not st.need(p_le(ONE, n)):
            return [Item(st, IterV(k, v), END)]
        x = ip.seq_get(st, v, ZERO)
        r = drop_front(ip, st, v, ONE, n)
        return [Item(st, IterV(k, r), Ptr(('val', x)) if k == "slice" else x)]
    if k == "mut":
        p, i = it.p
        v = ip.load(st, p.cell, p.path)
        if not st.need(p_lt(i, st.norm(seq_len(v)))):
            return [Item(st, it, END)]
        return [Item(st, IterV(k, p, st.norm(i + 1)), Ptr(p.cell, p.path + (('i', i),)))]
    if k == "range":
        a, b = it.p
        if not isinstance(a, Lin):
            raise Unsupported("range of %r" % (a,))
        if not st.need(p_lt(a, b)):
            return [Item(st, it, END)]
        return [Item(st, IterV(k, st.norm(a + 1), b), a)]
    if k == "rangei":
        a, b, ex = it.p
        if st.need(ex) or not st.need(p_le(a, b)):
            return [Item(st, it, END)]
        if st.need(p_lt(a, b)):
            return [Item(st, IterV(k, st.norm(a + 1), b, FALSE), a)]
        return [Item(st, IterV(k, a, b, TRUE), a)]
    if k == "rangef":
        return [Item(st, IterV(k, st.norm(it.p[0] + 1)), it.p[0])]
    if k in ("chars", "charidx"):
        t = it.p[0].t
        cs = cells(t) if t[0] in ('cat', 'chr') else None
        if cs is not None:
            c, n = cs[0]
            c = K(c) if isinstance(c, int) else st.norm(c)
            rest = StrV(of_cells(cs[1:]))
            if k == "chars":
                return [Item(st, IterV(k, rest), c)]
            return [Item(st, IterV(k, rest, st.norm(it.p[1] + n)), Agg(None, None, (it.p[1], c)))]
        if t[0] == 'cat':
            raise Unsupported("characters of concatenation")
        b, lo, hi = split_base(t)
        c = char_at(ip, st, b, lo, hi)
        if c is None:
            return [Item(st, it, END)]
        nl = st.norm(lo + utf8_len(st, c))
        if b[0] == 'lit' or True:
            rest = s_sub_raw(b, nl, hi, st)
        if k == "chars":
            return [Item(st, IterV(k, StrV(rest)), c)]
        return [Item(st, IterV(k, StrV(rest), st.norm(it.p[1] + utf8_len(st, c))), Agg(None, None, (it.p[1], c)))]
    if k == "chunks":
        v, n = it.p
        tot = st.norm(seq_len(v))
        if not st.need(p_le(ONE, tot)):
            return [Item(st, it, END)]
        m = n if st.need(p_le(n, tot)) else tot
        return [Item(st, IterV(k, drop_front(ip, st, v, m, tot), n), ip.seq_slice(st, v, ZERO, m))]
    if k == "windows":
        v, n = it.p
        tot = st.norm(seq_len(v))
        if not st.need(p_le(n, tot)):
            return [Item(st, it, END)]
        return [Item(st, IterV(k, drop_front(ip, st, v, ONE, tot), n), ip.seq_slice(st, v, ZERO, n))]
    if k == "peekable":
        inner, pk = it.p
        pv = ip.variant_index(st, pk)
        if pv == 1:
            x = pk.fs[0]
            xv = ip.variant_index(st, x)
            if xv == 1:
                return [Item(st, IterV(k, inner, Agg(None, 0, ())), x.fs[0])]
            return [Item(st, IterV(k, inner, Agg(None, 0, ())), END)]
        return [Item(i.st, IterV(k, i.it, pk) if i.it is not None else None, i.item, i.out) for i in advance(ip, st, inner, site)]
    if k == "byref":
        p = it.p[0]
        w = ip.load(st, p.cell, p.path)
        inner = w if isinstance(w, IterV) else to_iter(ip, st, w)
        out = []
        for i in advance(ip, st, inner, site):
            if i.out is None:
                store_iter(ip, i.st, p, w, i.it)
            out.append(Item(i.st, it, i.item, i.out))
        return out
    if k == "enumerate":
        out = []
        for i in advance(ip, st, it.p[0], site):
            if i.out is not None or i.item is END or i.item is SKIP:
                out.append(Item(i.st, IterV(k, i.it, it.p[1]), i.item, i.out))
            else:
                out.append(Item(i.st, IterV(k, i.it, i.st.norm(it.p[1] + 1)), Agg(None, None, (it.p[1], i.item))))
        return out
    if k == "cloned":
        out = []
        for i in advance(ip, st, it.p[0], site):
            x = i.item
            if x is not END and x is not SKIP and i.out is None:
                x = ip.load(i.st, x.cell, x.path) if isinstance(x, Ptr) else x
            out.append(Item(i.st, IterV(k, i.it), x, i.out))
        return out
    if k in ("map", "inspect"):
        out = []
        for i in advance(ip, st, it.p[0], site):
            if i.out is not None or i.item is END or i.item is SKIP:
                out.append(Item(i.st, IterV(k, i.it, it.p[1]), i.item, i.out))
                continue
            arg = i.item if k == "map" else Ptr(('val', i.item))
            for o, f2 in call_closure(ip, i.st, it.p[1], [arg], site):
                if o.kind == "ret":
                    out.append(Item(o.st, IterV(k, i.it, f2), o.val if k == "map" else i.item))
                else:
                    out.append(Item(o.st, None, None, o))
        return out
    if k in ("take",):
        n = it.p[1]
        if not st.need(p_le(ONE, n)):
            return [Item(st, it, END)]
        return [Item(i.st, IterV(k, i.it, n if i.item is SKIP else i.st.norm(n - 1)), i.item, i.out) for i in advance(ip, st, it.p[0], site)]
    if k == "skip":
        n = st.norm(it.p[1])
        if has_skip(it.p[0]) and n != ZERO:
            raise Unsupported("skip of filter")
        if not n.is_const() or n.c > 16:
            inner = it.p[0]
            if inner.kind in ("slice", "into"):
                tot = st.norm(seq_len(inner.p[0]))
                m = n if st.need(p_le(n, tot)) else tot
                return [Item(i.st, IterV(k, i.it, ZERO), i.item, i.out) for i in advance(ip, st, IterV(inner.kind, drop_front(ip, st, inner.p[0], m, tot)), site)]
            if inner.kind == "range":
                a, b = inner.p
                m = st.norm(a + n)
                if not st.need(p_le(m, b)):
                    m = b
                return [Item(i.st, IterV(k, i.it, ZERO), i.item, i.out) for i in advance(ip, st, IterV("range", m, b), site)]
            raise Unsupported("symbolic skip")
        cur = [(st, it.p[0])]
        out = []
        for _ in range(n.c):
            nxt = []
            for s, j in cur:
                for i in advance(ip, s, j, site):
                    if i.out is not None or i.item is END or i.item is SKIP:
                        out.append(Item(i.st, IterV(k, i.it, ZERO), i.item, i.out))
                    else:
                        nxt.append((i.st, i.it))
            cur = nxt
        for s, j in cur:
            for i in advance(ip, s, j, site):
                out.append(Item(i.st, IterV(k, i.it, ZERO), i.item, i.out))
        return out
    if k == "step_by":
        inner, n, first = it.p
        if first is TRUE:
            return [Item(i.st, IterV(k, i.it, n, TRUE if i.item is SKIP else FALSE), i.item, i.out) for i in advance(ip, st, inner, site)]
        if inner.kind == "rangef":
            a = st.norm(inner.p[0] + n - 1)
            return [Item(st, IterV(k, IterV("rangef", st.norm(a + 1)), n, FALSE), a)]
        if inner.kind == "range":
            a, b = inner.p
            a = st.norm(a + n - 1)
            if not st.need(p_lt(a, b)):
                return [Item(st, IterV(k, IterV("range", b, b), n, FALSE), END)]
            return [Item(st, IterV(k, IterV("range", st.norm(a + 1), b), n, FALSE), a)]
        if not n.is_const() or n.c > 64 or has_skip(inner):
            raise Unsupported("step_by of " + inner.kind)
        cur = [(st, inner)]
        out = []
        for step in range(n.c):
            nxt = []
            for s, j in cur:
                for i in advance(ip, s, j, site):
                    if i.out is not None or i.item is END or step == n.c - 1:
                        out.append(Item(i.st, IterV(k, i.it, n, FALSE), i.item, i.out))
                    else:
                        nxt.append((i.st, i.it))
            cur = nxt
        return out
    if k == "scan":
        inner, state, f, done = it.p
        if done is TRUE:
            return [Item(st, it, END)]
        out = []
        for i in advance(ip, st, inner, site):
            if i.out is not None or i.item is END or i.item is SKIP:
                out.append(Item(i.st, IterV(k, i.it, state, f, done), i.item, i.out))
                continue
            cell = ('clo', i.st.fresh('clo'))
            i.st.cells[cell] = state
            for o, f2 in call_closure(ip, i.st, f, [Ptr(cell), i.item], site):
                if o.kind != "ret":
                    out.append(Item(o.st, None, None, o))
                    continue
                for s2, vi in variants(ip, o.st, o.val):
                    st2 = s2.cells.pop(cell)
                    out.append(Item(s2, IterV(k, i.it, st2, f2, FALSE), ip.payload(o.val, 1, 0) if vi == 1 else END))
        return out
    if k == "repeat":
        return [Item(st, it, it.p[0])]
    if k == "from_fn":
        out = []
        for o, f2 in call_closure(ip, st, it.p[0], [], site):
            if o.kind != "ret":
                out.append(Item(o.st, None, None, o))
                continue
            for s2, vi in variants(ip, o.st, o.val):
                out.append(Item(s2, IterV(k, f2), ip.payload(o.val, 1, 0) if vi == 1 else END))
        return out
    if k == "zip":
        out = []
        for i in advance(ip, st, it.p[0], site):
            if i.out is not None or i.item is END or i.item is SKIP:
                out.append(Item(i.st, IterV(k, i.it, it.p[1]), i.item, i.out))
                continue
            for j in advance(ip, i.st, it.p[1], site):
                if j.item is SKIP:
                    raise Unsupported("zip with filter")
                if j.out is not None or j.item is END:
                    out.append(Item(j.st, IterV(k, i.it, j.it), j.item, j.out))
                else:
                    out.append(Item(j.st, IterV(k, i.it, j.it), Agg(None, None, (i.item, j.item))))
        return out
    if k == "chain":
        out = []
        for i in advance(ip, st, it.p[0], site):
            if i.out is not None:
                out.append(i)
            elif i.item is END:
                for j in advance(ip, i.st, it.p[1], site):
                    out.append(Item(j.st, IterV(k, i.it, j.it), j.item, j.out))
            else:
                out.append(Item(i.st, IterV(k, i.it, it.p[1]), i.item))
        return out
    if k == "take_while":
        if st.need(it.p[2]):
            return [Item(st, it, END)]
        out = []
        for i in advance(ip, st, it.p[0], site):
            if i.out is not None or i.item is END or i.item is SKIP:
                out.append(Item(i.st, IterV(k, i.it, it.p[1], it.p[2]), i.item, i.out))
                continue
            for o, f2 in call_closure(ip, i.st, it.p[1], [Ptr(('val', i.item))], site):
                if o.kind != "ret":
                    out.append(Item(o.st, None, None, o))
                    continue
                for s2, val in both(ip, o.st, o.val):
                    if val:
                        out.append(Item(s2, IterV(k, i.it, f2, FALSE), i.item))
                    else:
                        out.append(Item(s2, IterV(k, i.it, f2, TRUE), END))
        return out
    if k in ("filter", "filter_map", "skip_while", "map_while"):
        out = []
        for i in advance(ip, st, it.p[0], site):
            rest = it.p[1:]
            if i.out is not None or i.item is END or i.item is SKIP:
                out.append(Item(i.st, IterV(k, i.it, *rest), i.item, i.out))
                continue
            if k == "skip_while" and rest[1] is TRUE:
                out.append(Item(i.st, IterV(k, i.it, *rest), i.item))
                continue
            arg = i.item if k in ("filter_map", "map_while") else Ptr(('val', i.item))
            for o, f2 in call_closure(ip, i.st, it.p[1], [arg], site):
                if o.kind != "ret":
                    out.append(Item(o.st, None, None, o))
                    continue
                if k in ("filter_map", "map_while"):
                    for s2, vi in variants(ip, o.st, o.val):
                        it2 = IterV(k, i.it, f2)
                        if vi == 1:
                            out.append(Item(s2, it2, ip.payload(o.val, 1, 0)))
                        else:
                            out.append(Item(s2, it2, SKIP if k == "filter_map" else END))
                    continue
                for s2, val in both(ip, o.st, o.val):
                    if k == "filter":
                        out.append(Item(s2, IterV(k, i.it, f2), i.item if val else SKIP))
                    else:
                        out.append(Item(s2, IterV(k, i.it, f2, FALSE if val else TRUE), SKIP if val else i.item))
        return out
    if k == "flat_map":
        outer, f, cur = it.p
        if cur.var == 1:
            out = []
            for i in advance(ip, st, cur.fs[0], site):
                if i.out is not None:
                    out.append(i)
                elif i.item is END:
                    out.append(Item(i.st, IterV(k, outer, f, Agg(None, 0, ())), SKIP))
                else:
                    out.append(Item(i.st, IterV(k, outer, f, Agg(None, 1, (i.it,))), i.item))
            return out
        out = []
        for i in advance(ip, st, outer, site):
            if i.out is not None or i.item is END or i.item is SKIP:
                out.append(Item(i.st, IterV(k, i.it, f, cur), i.item, i.out))
                continue
            if f is None:
                out.append(Item(i.st, IterV(k, i.it, f, Agg(None, 1, (to_iter(ip, i.st, i.item),))), SKIP))
                continue
            for o, f2 in call_closure(ip, i.st, f, [i.item], site):
                if o.kind != "ret":
                    out.append(Item(o.st, None, None, o))
                else:
                    out.append(Item(o.st, IterV(k, i.it, f2, Agg(None, 1, (to_iter(ip, o.st, o.val),))), SKIP))
        return out
    if k == "rev":
        inner = it.p[0]
        if inner.kind in ("slice", "into"):
            v = inner.p[0]
            n = st.norm(seq_len(v))
            if not st.need(p_le(ONE, n)):
                return [Item(st, it, END)]
            x = ip.seq_get(st, v, st.norm(n - 1))
            r = drop_back(ip, st, v, ONE, n)
            return [Item(st, IterV(k, IterV(inner.kind, r)), Ptr(('val', x)) if inner.kind == "slice" else x)]
        if inner.kind == "range":
            a, b = inner.p
            if not st.need(p_lt(a, b)):
                return [Item(st, it, END)]
            return [Item(st, IterV(k, IterV("range", a, st.norm(b - 1))), st.norm(b - 1))]
        if inner.kind in ("chars", "charidx"):
            cs = cells(inner.p[0].t)
            if cs is not None:
                if not cs:
                    return [Item(st, it, END)]
                c = K(cs[-1][0]) if isinstance(cs[-1][0], int) else st.norm(cs[-1][0])
                rest = StrV(of_cells(cs[:-1]))
                if inner.kind == "chars":
                    return [Item(st, IterV(k, IterV("chars", rest)), c)]
                at = st.norm(inner.p[1] + sum(n for _, n in cs[:-1]))
                return [Item(st, IterV(k, IterV("charidx", rest, inner.p[1])), Agg(None, None, (at, c)))]
        raise Unsupported("rev of " + inner.kind)
    raise Unsupported("advance " + k)


def both(ip, st, p):
    d = st.decide(p)
    if d is not None:
        return [(st, d)]
    out = []
    for q, val in ((p, True), (p_not(p), False)):
        for s in ip.assume_multi(st.copy(), q):
            out.append((s, val))
    return out


def s_sub_raw(b, lo, hi, st):
    if b[0] == 'lit':
        return s_sub(b, st.norm(lo), st.norm(hi))
    return ('sub', b, lo, hi)


def call_closure(ip, st, f, args, site):
    """Calls closure value f; returns [(Out, updated closure value)]."""
    if isinstance(f, Agg):
        n = st.fresh('clo')
        cell = ('clo', n)
        st.cells[cell] = f
        outs = ip.call_value(st, Ptr(cell), args, site) if closure_by_ref(ip, f) else ip.call_value(st, f, args, site)
        res = []
        for o in outs:
            f2 = o.st.cells.pop(cell, f)
            res.append((o, f2))
        return res
    return [(o, f) for o in ip.call_value(st, f, args, site)]


def closure_by_ref(ip, f):
    return f.ty is not None and ip.types[f.ty]["k"] == "closure"


def store_iter(ip, st, p, old, it):
    """Writes the advanced iterator back, keeping the representation of Range structs."""
    if isinstance(old, IterV):
        ip.store(st, p.cell, p.path, it)
        return
    if isinstance(old, SymV):
        old = ip.expand(old)
    if isinstance(old, Agg):
        if it.kind in ("range",):
            ip.store(st, p.cell, p.path, Agg(old.ty, old.var, (it.p[0], it.p[1])))
            return
        if it.kind == "rangei":
            ip.store(st, p.cell, p.path, Agg(old.ty, old.var, it.p))
            return
        if it.kind == "rangef":
            ip.store(st, p.cell, p.path, Agg(old.ty, old.var, it.p))
            return
        if it.kind == "user":
            ip.store(st, p.cell, p.path, it.p[0])
            return
    raise Unsupported("iterator write-back")


@model("~<.* as std::iter::Iterator>::next$", "~std::iter::range::<impl std::iter::Iterator for .*>::next$",
       "~std::iter::Iterator::next$", "~.*impl std::iter::Iterator for .*>::next$")
def m_next(ip, st, fn, args, site):
    p = args[0]
    while isinstance(p, Ptr) and isinstance(ip.load(st, p.cell, p.path), Ptr):
        p = ip.load(st, p.cell, p.path)
    w = ip.load(st, p.cell, p.path)
    it = w if isinstance(w, IterV) else to_iter(ip, st, w)
    out = []
    if has_skip(it):
        return consume(ip, st, fn, it, site, NextOf(rty(ip, fn, site)), (p, w))
    for i in advance(ip, st, it, site):
        if i.out is not None:
            out.append(i.out)
            continue
        store_iter(ip, i.st, p, w, i.it)
        if i.item is END:
            out.append(Out("ret", i.st, none(ip, fn, site)))
        else:
            out.append(Out("ret", i.st, some(ip, fn, site, i.item)))
    return out


@model("~std::iter::Peekable::<I>::peek$", "~std::iter::Peekable::<I>::peek_mut$")
def m_peek(ip, st, fn, args, site):
    p, it = target(ip, st, args[0])
    if not (isinstance(it, IterV) and it.kind == "peekable"):
        raise Unsupported("peek")
    inner, pk = it.p
    outs = []
    if ip.variant_index(st, pk) == 0:
        for i in advance(ip, st, inner, site):
            if i.out is not None:
                outs.append(i.out)
                continue
            x = Agg(None, 0, ()) if i.item is END else Agg(None, 1, (i.item,))
            ip.store(i.st, p.cell, p.path, IterV("peekable", i.it, Agg(None, 1, (x,))))
            outs.append((i.st, x))
    else:
        outs.append((st, pk.fs[0]))
    res = []
    for o in outs:
        if isinstance(o, Out):
            res.append(o)
            continue
        s, x = o
        if ip.variant_index(s, x) == 1:
            res.append(Out("ret", s, some(ip, fn, site, Ptr(('val', x.fs[0])))))
        else:
            res.append(Out("ret", s, none(ip, fn, site)))
    return res


@model("~std::iter::Peekable::<I>::next_if(_eq)?$")
def m_next_if(ip, st, fn, args, site):
    raise Unsupported("next_if")


# ---- consumers --------------------------------------------------------------------------------
class Consumer(object):
    """Loop body of an iterator consumer: begin() gives the initial accumulator, step() advances
    it, end() turns it into the result."""
    def step(self, ip, st, acc, item, site):
        """-> list of (st, acc, done) or Out; done is None to continue, else the result value"""
        raise NotImplementedError

    def end(self, ip, st, acc):
        return acc


class Fold(Consumer):
    def __init__(self, init, f):
        self.init = init
        self.f = f

    def step(self, ip, st, acc, item, site):
        out = []
        for o, f2 in call_closure(ip, st, self.f, [acc, item], site):
            out.append(o if o.kind != "ret" else (o.st, o.val, None))
        return out


class ForEach(Fold):
    def step(self, ip, st, acc, item, site):
        out = []
        for o, f2 in call_closure(ip, st, self.f, [item], site):
            out.append(o if o.kind != "ret" else (o.st, UNIT, None))
        return out


class NextOf(Consumer):
    """The first item an iterator with filters yields."""
    init = UNIT

    def __init__(self, ty):
        self.ty = ty

    def step(self, ip, st, acc, item, site):
        return [(st, acc, Agg(self.ty, 1, (item,)))]

    def end(self, ip, st, acc):
        return Agg(self.ty, 0, ())


class Count(Consumer):
    init = ZERO

    def step(self, ip, st, acc, item, site):
        return [(st, st.norm(acc + 1), None)]


class Sum(Consumer):
    init = ZERO

    def step(self, ip, st, acc, item, site):
        x = deref(ip, st, item)
        return [(st, st.norm(acc + x), None)]


class CollectVec(Consumer):
    init = SeqV()

    def step(self, ip, st, acc, item, site):
        return [(st, SeqV(acc.segs + (('e', item),)), None)]


class CollectStr(Consumer):
    init = StrV(('lit', ''))

    def step(self, ip, st, acc, item, site):
        x = deref(ip, st, item)
        t = char_str(st, x) if isinstance(x, Lin) else x.t
        return [(st, StrV(s_cat(acc.t, t)), None)]


class CollectMap(Consumer):
    def __init__(self, vty):
        self.init = MapV(None, (), vty)

    def step(self, ip, st, acc, item, site):
        k = key_of(ip, st, item.fs[0])
        return [(st, MapV(acc.base, acc.ins + ((k, item.fs[1]),), acc.vty), None)]


class CollectSet(Consumer):
    init = MapV(None, (), None)

    def step(self, ip, st, acc, item, site):
        return [(st, MapV(acc.base, acc.ins + ((key_of(ip, st, item), UNIT),), acc.vty), None)]


class CollectTry(Consumer):
    """collect into Option<C> / Result<C, E>"""
    def __init__(self, inner, okvar, ty):
        self.inner = inner
        self.init = inner.init
        self.okvar = okvar
        self.ty = ty

    def step(self, ip, st, acc, item, site):
        v = ip.variant_index(st, item)
        if v != self.okvar:
            if isinstance(item, Agg):
                return [(st, acc, Agg(self.ty, v, item.fs))]
            t = ip.types[item.ty]
            return [(st, acc, Agg(self.ty, v, [ip.payload(item, v, i) for i in range(len(t["variants"][v]["f"]))]))]
        return self.inner.step(ip, st, acc, ip.payload(item, v, 0), site)

    def end(self, ip, st, acc):
        return Agg(self.ty, self.okvar, (self.inner.end(ip, st, acc),))


class ExtendInto(Consumer):
    init = UNIT

    def __init__(self, p, byref=True):
        self.p = p
        self.byref = byref

    def step(self, ip, st, acc, item, site):
        v = ip.load(st, self.p.cell, self.p.path)
        if self.byref and isinstance(item, Ptr):
            item = ip.load(st, item.cell, item.path)
        ip.store(st, self.p.cell, self.p.path, SeqV(v.segs + (('e', item),)))
        return [(st, UNIT, None)]


class Search(Consumer):
    """any / all / find / position"""
    init = ZERO

    def __init__(self, kind, f, ty):
        self.kind = kind
        self.f = f
        self.ty = ty

    def step(self, ip, st, acc, item, site):
        out = []
        arg = Ptr(('val', item)) if self.kind == "find" else item
        for o, f2 in call_closure(ip, st, self.f, [arg], site):
            if o.kind != "ret":
                out.append(o)
                continue
            if self.kind == "find_map":
                s = o.st
                v = ip.variant_index(s, o.val)
                if v == 1:
                    out.append((s, acc, o.val))
                else:
                    out.append((s, acc, None))
                continue
            for s, val in both(ip, o.st, o.val):
                if self.kind == "any" and val:
                    out.append((s, acc, TRUE))
                elif self.kind == "all" and not val:
                    out.append((s, acc, FALSE))
                elif self.kind == "find" and val:
                    out.append((s, acc, Agg(self.ty, 1, (item,))))
                elif self.kind == "position" and val:
                    out.append((s, acc, Agg(self.ty, 1, (acc,))))
                else:
                    out.append((s, s.norm(acc + 1) if self.kind == "position" else acc, None))
        return out

    def end(self, ip, st, acc):
        if self.kind == "any":
            return FALSE
        if self.kind == "all":
            return TRUE
        return Agg(self.ty, 0, ())


class Last(Consumer):
    def __init__(self, ty):
        self.init = Agg(ty, 0, ())
        self.ty = ty

    def step(self, ip, st, acc, item, site):
        return [(st, Agg(self.ty, 1, (item,)), None)]


class TryFold(Consumer):
    unit = False

    def __init__(self, init, f, ty):
        self.init = init
        self.f = f
        self.ty = ty
        self.good = None

    def okvar(self, ip):
        return 1 if ip.tname(self.ty).endswith("Option") else 0

    def step(self, ip, st, acc, item, site):
        out = []
        for o, f2 in call_closure(ip, st, self.f, [item] if self.unit else [acc, item], site):
            if o.kind != "ret":
                out.append(o)
                continue
            for s, v in variants(ip, o.st, o.val):
                if v == self.okvar(ip):
                    out.append((s, ip.payload(o.val, v, 0), None))
                else:
                    out.append((s, acc, o.val))
        return out

    def end(self, ip, st, acc):
        return Agg(self.ty, self.okvar(ip), (acc,))


def variants(ip, st, v):
    if isinstance(v, Agg):
        return [(st, v.var)]
    out = []
    t = ip.types[v.ty]
    d = ip.discr(v)
    for i, x in enumerate(t["variants"]):
        for s in ip.assume_multi(st.copy(), p_eq(d, K(int(x["d"])))):
            out.append((s, i))
    return out


def loop_fn(fn, tag):
    """Shell function (two blocks, one loop) that hosts the consumer loop so that the ordinary
    loop machinery of the interpreter (joins, invariants, records) applies to it."""
    f = mir.Fn.__new__(mir.Fn)
    f.raw = {}
    f.id = ('loop', fn.id, tag)
    f.name = fn.name
    f.def_ = fn.def_
    f.crate = fn.crate
    f.kind = "item"
    f.targs = []
    f.argc = 0
    f.spread = None
    f.locals = [None] * 8
    f.names = {}
    f.span = fn.span
    f.blocks = None
    f.heads = None
    return f


def bulk(it, byref):
    """(items, iterator after them) when the next items of it are a piece of a sequence."""
    if it.kind in ("into", "bytes") or (byref and it.kind == "slice"):
        v = it.p[0]
        v = SeqV([('b', v.t)]) if isinstance(v, StrV) else v
        return (v.segs, IterV(it.kind, SeqV())) if v.segs else None
    if it.kind == "flat_map" and it.p[2].var == 1:
        r = bulk(it.p[2].fs[0], byref)
        return (r[0], IterV("flat_map", it.p[0], it.p[1], Agg(None, 1, (r[1],)))) if r else None
    if it.kind == "chain":
        r = bulk(it.p[0], byref)
        return (r[0], IterV("chain", r[1], it.p[1])) if r else None
    if it.kind in ("cloned",) and it.p[0].kind in ("slice", "into"):
        r = bulk(it.p[0], True)
        return (r[0], IterV("cloned", r[1])) if r else None
    return None


def consume(ip, st, fn, it, site, c, writeback=None):
    """Runs consumer c over iterator value it (st is owned)."""
    shell = loop_fn(fn, type(c).__name__)
    shell.span = (site or {}).get("sp") or fn.span

    def body(ip, fr, s):
        res = []
        itv = s.cells[('L', fr, 1)]
        acc = s.cells[('L', fr, 2)]
        if isinstance(c, (CollectVec, ExtendInto)):
            b = bulk(itv, isinstance(c, ExtendInto) and c.byref)
            if b is not None:
                s.cells[('L', fr, 1)] = b[1]
                if isinstance(c, CollectVec):
                    s.cells[('L', fr, 2)] = SeqV(acc.segs + tuple(b[0]))
                else:
                    v = ip.load(s, c.p.cell, c.p.path)
                    ip.store(s, c.p.cell, c.p.path, SeqV(v.segs + tuple(b[0])))
                return [('go', s, 0)]
        for i in advance(ip, s, itv, site):
            if i.out is not None:
                res.append(('out', i.st, i.out))
                continue
            i.st.cells[('L', fr, 1)] = i.it
            if i.item is SKIP:
                res.append(('go', i.st, 0))
                continue
            if i.item is END:
                i.st.cells[('L', fr, 0)] = c.end(ip, i.st, acc)
                res.append(('go', i.st, 1))
                continue
            for o in c.step(ip, i.st, acc, i.item, site):
                if isinstance(o, Out):
                    res.append(('out', o.st, o))
                    continue
                s2, acc2, done = o
                if done is not None:
                    s2.cells[('L', fr, 0)] = done
                    res.append(('go', s2, 1))
                else:
                    s2.cells[('L', fr, 2)] = acc2
                    res.append(('go', s2, 0))
        return res

    def fin(ip, fr, s):
        if writeback is not None:
            p, old = writeback
            store_iter(ip, s, p, old, s.cells[('L', fr, 1)])
        return [('ret', s, None)]

    shell.blocks = [{"s": [], "t": {"t": "py", "f": body, "succ": [0, 1]}},
                    {"s": [], "t": {"t": "py", "f": fin, "succ": []}}]
    return ip.exec_fn(st, shell, [it, c.init], site)


def arg_iter(ip, st, a):
    if isinstance(a, Ptr):
        p = a
        while isinstance(ip.load(st, p.cell, p.path), Ptr):
            p = ip.load(st, p.cell, p.path)
        w = ip.load(st, p.cell, p.path)
        return (w if isinstance(w, IterV) else to_iter(ip, st, w)), (p, w)
    return to_iter(ip, st, a), None


def collector(ip, tyi):
    t = ip.types[tyi]
    n = t.get("name") or ''
    if n.endswith("vec::Vec") or n.endswith("VecDeque"):
        return CollectVec()
    if n.endswith("HashSet") or n.endswith("BTreeSet"):
        return CollectSet()
    if n.endswith("string::String"):
        return CollectStr()
    if n.endswith("HashMap") or n.endswith("BTreeMap"):
        return CollectMap(t["args"][1])
    if n.endswith("option::Option"):
        return CollectTry(collector(ip, t["args"][0]), 1, tyi)
    if n.endswith("result::Result"):
        return CollectTry(collector(ip, t["args"][0]), 0, tyi)
    raise Unsupported("collect into " + t["s"])


class Product(Consumer):
    init = ONE

    def step(self, ip, st, acc, item, site):
        x = deref(ip, st, item)
        if acc.is_const():
            return [(st, st.norm(x.scale(acc.c) if hasattr(x, "scale") else x * acc.c), None)]
        raise Unsupported("product")


class Extreme(Consumer):
    """max / min / max_by_key / min_by_key: the last of equal maxima, the first of equal minima."""
    def __init__(self, kind, f, ty):
        self.kind, self.f, self.ty = kind, f, ty
        self.init = Agg(None, 0, ())

    def step(self, ip, st, acc, item, site):
        outs = []
        if self.f is None:
            ks = [(st, deref(ip, st, item) if isinstance(item, Ptr) else item)]
        else:
            ks = []
            for o, f2 in call_closure(ip, st, self.f, [Ptr(('val', item))], site):
                if o.kind != "ret":
                    outs.append(o)
                else:
                    ks.append((o.st, o.val))
        for s, kv in ks:
            if acc.var == 0:
                outs.append((s, Agg(None, 1, (item, kv)), None))
                continue
            old = acc.fs[1]
            if not isinstance(kv, Lin) or not isinstance(old, Lin):
                raise Unsupported(self.kind)
            p = p_le(old, kv) if self.kind.startswith("max") else p_lt(kv, old)
            for s2, val in both(ip, s, p):
                outs.append((s2, Agg(None, 1, (item, kv)) if val else acc, None))
        return outs

    def end(self, ip, st, acc):
        return Agg(self.ty, 0, ()) if acc.var == 0 else Agg(self.ty, 1, (acc.fs[0],))


class Partition(Consumer):
    def __init__(self, f):
        self.f = f
        self.init = Agg(None, None, (SeqV(), SeqV()))

    def step(self, ip, st, acc, item, site):
        outs = []
        for o, f2 in call_closure(ip, st, self.f, [Ptr(('val', item))], site):
            if o.kind != "ret":
                outs.append(o)
                continue
            for s, val in both(ip, o.st, o.val):
                a, b = acc.fs
                a, b = (SeqV(a.segs + (('e', item),)), b) if val else (a, SeqV(b.segs + (('e', item),)))
                outs.append((s, Agg(None, None, (a, b)), None))
        return outs


CONS = "fold|count|collect|any|all|find|position|for_each|sum|last|find_map|try_fold|try_for_each|nth|product|max|min|max_by_key|min_by_key|partition"


@model("~std::iter::Iterator::(%s)$" % CONS, "~<.* as std::iter::Iterator>::(%s)$" % CONS,
       "~.*impl std::iter::Iterator for .*>::(%s)$" % CONS,
       "~<std::string::String as std::iter::FromIterator<.*>>::from_iter$",
       "~<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter$")
def m_consume(ip, st, fn, args, site):
    k = fn.def_.split("::")[-1]
    it, wb = arg_iter(ip, st, args[0])
    rt = rty(ip, fn, site)
    if k == "fold":
        c = Fold(args[1], args[2])
    elif k == "try_fold":
        c = TryFold(args[1], args[2], rt)
    elif k == "count":
        if it.kind == "chars":
            t = it.p[0].t
            return ret(st, st.norm(nchars(st, t)))
        c = Count()
    elif k in ("collect", "from_iter"):
        c = collector(ip, rt)
        if isinstance(c, CollectVec) and it.kind in ("into", "bytes") and isinstance(it.p[0], SeqV):
            return ret(st, it.p[0])
        if isinstance(c, CollectStr) and it.kind == "chars":
            return ret(st, it.p[0])
    elif k in ("any", "all", "find", "position", "find_map"):
        c = Search(k, args[1], rt)
    elif k == "try_for_each":
        c = TryFold(UNIT, args[1], rt)
        c.unit = True
    elif k == "for_each":
        c = ForEach(UNIT, args[1])
        c.init = UNIT
    elif k == "sum":
        c = Sum()
    elif k == "last":
        c = Last(rt)
    elif k == "product":
        c = Product()
    elif k in ("max", "min"):
        c = Extreme(k, None, rt)
    elif k in ("max_by_key", "min_by_key"):
        c = Extreme(k, args[1], rt)
    elif k == "partition":
        if not all((ip.types[x].get("name") or "").endswith("vec::Vec") for x in ip.types[rt]["args"]):
            raise Unsupported("partition")
        c = Partition(args[1])
    elif k == "nth":
        n = st.norm(args[1])
        if not n.is_const() or n.c > 16:
            raise Unsupported("nth")
        cur = [(st, it)]
        outs = []
        for step in range(n.c + 1):
            nxt = []
            for s, j in cur:
                for i in advance(ip, s, j, site):
                    if i.out is not None:
                        outs.append(i.out)
                    elif i.item is END:
                        if wb:
                            store_iter(ip, i.st, wb[0], wb[1], i.it)
                        outs.append(Out("ret", i.st, none(ip, fn, site)))
                    elif step == n.c:
                        if wb:
                            store_iter(ip, i.st, wb[0], wb[1], i.it)
                        outs.append(Out("ret", i.st, some(ip, fn, site, i.item)))
                    else:
                        nxt.append((i.st, i.it))
            cur = nxt
        return outs
    else:
        raise Unsupported("consumer " + k)
    return consume(ip, st, fn, it, site, c, wb)


def nchars(st, t):
    if t[0] == 'lit':
        return K(len(t[1]))
    if t[0] == 'chr':
        return ONE
    if t[0] == 'cat':
        r = ZERO
        for x in t[1]:
            r = r + nchars(st, x)
        return r
    if t[0] in ('lower', 'upper') :
        return nchars(st, t[1])
    if ascii_only(st, t):
        return slen(t)
    if t[0] == 'sub' and t[2].is_const() and t[2].c <= 8 and t[3] == slen(t[1]):
        # t[k..] of a text whose first k bytes are ASCII
        b = t[1]
        n = t[2].c
        if st.decide(('in', b, rx.cat(rx.rep(rx.chars(((0, 127),)), n, n), rx.ALL))) is True:
            return nchars(st, b) - n
    return L(atom(('nchars', t), 0, ISIZE))


@model("~<std::(slice::Iter|vec::IntoIter)<.*> as std::iter::ExactSizeIterator>::len$", "std::iter::ExactSizeIterator::len")
def m_exact_len(ip, st, fn, args, site):
    it = deref(ip, st, args[0])
    if isinstance(it, IterV) and it.kind in ("slice", "into"):
        return ret(st, st.norm(seq_len(it.p[0])))
    raise Unsupported("len of iterator")


# ------------------------------------------------------------------------------------- lazy_static / regex
def lazy_deref(ip, fn):
    """`<X as Deref>::deref` generated by lazy_static!: the value is the one its initialiser builds."""
    if fn.crate == "c8s" and fn.def_.endswith("as std::ops::Deref>::deref"):
        init = [f for f in ip.prog.fns.values() if f.crate == "c8s" and f.def_ == fn.def_ + "::__static_ref_initialize"]
        if len(init) == 1:
            ini = init[0]

            def m(ip, st, fn, args, site):
                outs = []
                for o in ip.call(st, ini.id, [], site):
                    if o.kind == "ret":
                        outs.append(Out("ret", o.st, Ptr(('val', o.val))))
                    else:
                        outs.append(o)
                return outs
            return m
    return None


@model("~.*regex::Regex::new$", "~.*regex::regex::string::Regex::new$")
def m_regex_new(ip, st, fn, args, site):
    t = as_str(ip, st, args[0])
    s = st.const_str(t)
    if s is None:
        raise Unsupported("dynamic regex")
    return ret(st, ok(ip, fn, site, ObjV("regex", s)))


_rxcache = {}


def regex_info(s):
    r = _rxcache.get(s)
    if r is None:
        try:
            r = rx.parse(s)
        except Exception as e:
            r = e
        _rxcache[s] = r
    if isinstance(r, Exception):
        raise Unsupported("regex %r: %s" % (s, r))
    return r


@model("~.*regex::(regex::string::)?Regex::is_match$")
def m_regex_is_match(ip, st, fn, args, site):
    r = deref(ip, st, args[0])
    a0, R, a1, gok = regex_info(r.p[0])
    t = as_str(ip, st, args[1])
    if not a0:
        R = rx.cat(rx.ALL, R)
    if not a1:
        R = rx.cat(R, rx.ALL)
    return ret(st, ('in', t, R))


@model("~.*regex::(regex::string::)?Regex::find$")
def m_regex_find(ip, st, fn, args, site):
    r = deref(ip, st, args[0])
    a0, R, a1, gok = regex_info(r.p[0])
    t = as_str(ip, st, args[1])
    rt = ip.types[rty(ip, fn, site)]
    pair = bool(rt.get("args")) and ip.types[rt["args"][0]]["k"] == "tuple"
    cs = cells(t)
    if cs is not None:
        if not gok:
            raise Unsupported("regex shape %r" % (r.p[0],))
        m = cells_find(st, cs, R, a0, a1)
        if m is None:
            return ret(st, none(ip, fn, site))
        b, e = K(sum(n for _, n in cs[:m[0]])), K(sum(n for _, n in cs[:m[1]]))
        if pair:
            return ret(st, some(ip, fn, site, Agg(rt["args"][0], None, (b, e))))
        return ret(st, some(ip, fn, site, ObjV("match", StrV(t), e, b)))
    if not a0 or a1 or not gok:
        raise Unsupported("regex shape %r" % (r.p[0],))
    e = find_prefix(ip, st, t, R)
    if e is None:
        return ret(st, none(ip, fn, site))
    if pair:
        return ret(st, some(ip, fn, site, Agg(rt["args"][0], None, (ZERO, e))))
    return ret(st, some(ip, fn, site, ObjV("match", StrV(t), e, ZERO)))


def cells_find(st, cs, R, a0, a1):
    """Leftmost longest match of R in a character-by-character text: (first, last) cell indices."""
    for i in range(1 if a0 else len(cs) + 1):
        r = R
        best = i if rx.nullable(r) and (not a1 or i == len(cs)) else None
        for j in range(i, len(cs)):
            r = char_deriv(st, cs[j][0], r)
            if r is rx.EMPTY or rx.is_empty(r):
                break
            if rx.nullable(r) and (not a1 or j + 1 == len(cs)):
                best = j + 1
        if best is not None:
            return i, best
    return None


def find_prefix(ip, st, t, R):
    """End offset of the longest prefix of t in R, or None."""
    if not st.need(('in', t, rx.cat(R, rx.ALL))):
        return None
    e = atom(('rend', t, R), 0, ISIZE)
    st.assume(p_le(L(e), slen(t)))
    lo, hi = rx.len_bounds(R)
    st.assume(p_le(K(lo), L(e)))
    sub = s_sub(t, ZERO, L(e))
    st.assume(('in', sub, R))
    st.facts.add(('bnd', split_base(t)[0], st.norm(split_base(t)[1] + L(e))))
    return L(e)


@model("~.*regex::(regex::string::)?Match::<'h>::(start|end|as_str|range|len)$")
def m_match(ip, st, fn, args, site):
    m = deref(ip, st, args[0])
    k = fn.def_.split("::")[-1]
    if k == "start":
        return ret(st, m.p[2])
    if k == "end":
        return ret(st, m.p[1])
    if k == "len":
        return ret(st, st.norm(m.p[1] - m.p[2]))
    if k == "as_str":
        return ret(st, StrV(s_sub(m.p[0].t, m.p[2], m.p[1])))
    raise Unsupported("match " + k)


import models2  # noqa: E402,F401 (registers further models)
