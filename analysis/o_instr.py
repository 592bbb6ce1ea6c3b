"""Instruction encoding, accepted forms, operand widths, label operands, decoder and disassembler."""
from core import *

# The README's instruction tables (plus nop): operand kinds and opcode pattern.
# Kinds: Vx / Vy registers, V0 the register 0, addr / nn / n numbers of 12 / 8 / 4 bits, and the
# special operand names.
TABLE = [
    ("nop", "", "0000"),
    ("cls", "", "00E0"), ("ret", "", "00EE"), ("jp", "addr", "1nnn"), ("call", "addr", "2nnn"),
    ("se", "Vx nn", "3xkk"), ("sne", "Vx nn", "4xkk"), ("se", "Vx Vy", "5xy0"), ("ld", "Vx nn", "6xkk"),
    ("add", "Vx nn", "7xkk"), ("ld", "Vx Vy", "8xy0"), ("or", "Vx Vy", "8xy1"), ("and", "Vx Vy", "8xy2"),
    ("xor", "Vx Vy", "8xy3"), ("add", "Vx Vy", "8xy4"), ("sub", "Vx Vy", "8xy5"), ("shr", "Vx", "8x06"),
    ("subn", "Vx Vy", "8xy7"), ("shl", "Vx", "8x0E"), ("sne", "Vx Vy", "9xy0"), ("ld", "I addr", "Annn"),
    ("jp", "V0 addr", "Bnnn"), ("rnd", "Vx nn", "Cxkk"), ("drw", "Vx Vy n", "Dxyn"), ("skp", "Vx", "Ex9E"),
    ("sknp", "Vx", "ExA1"), ("ld", "Vx DT", "Fx07"), ("ld", "Vx K", "Fx0A"), ("ld", "DT Vx", "Fx15"),
    ("ld", "ST Vx", "Fx18"), ("add", "I Vx", "Fx1E"), ("ld", "F Vx", "Fx29"), ("ld", "B Vx", "Fx33"),
    ("ld", "[I] Vx", "Fx55"), ("ld", "Vx [I]", "Fx65"),
    ("ld", "I [I]", "00F8"), ("trapret", "", "00F9"), ("trap", "", "00FA"),
]
SPECIAL = {"I": "IndexRegister", "[I]": "IndexRegisterIndirect", "DT": "DelayTimer", "ST": "SoundTimer",
           "K": "KeypadRegister", "F": "Sprite", "B": "Bcd"}
WIDTH = {"addr": 12, "nn": 8, "n": 4}
RESERVED = rx.alt(rx.R('[vV][0-9a-fA-F]'), rx.R('[iI]'), rx.R('[dD][tT]'), rx.R('[sS][tT]'), rx.R('[kKfFbB]'))
LABELS = rx.inter(IDENT, rx.neg(RESERVED))

CLS_ENC, CLS_REJECT, CLS_FORM, CLS_WIDTH, CLS_LABEL, CLS_LABELVAL, CLS_LABELREJ, CLS_PANIC = \
    "encoding", "rejected", "form", "width", "label-undefined", "label-value", "label-rejected", "panic"


def setup(ctx, ip):
    ft = ctx.ty("parser::InstructionField")
    vs = ctx.variants(ft)
    ip.field_bounds[(ft, vs["GeneralPurposeRegister"], 0)] = (0, 15)
    return ft, vs


def spec_forms(ip, st, mnem, fields, lmap, ft, vs):
    """What the README says about (mnemonic, operand list, label map).
    -> (verdict, bytes, info) with verdict ok / form / width / label."""
    segs = fields.segs
    n = seq_len(fields)
    cnt = None
    for k in (0, 1, 2, 3):
        if st.need(p_eq(n, K(k))):
            cnt = k
            break
    if cnt is None:
        return ("form", None, {})
    ops = []
    for i in range(cnt):
        v = ip.seq_get(st, fields, K(i))
        ops.append((v, ip.variant_index(st, v)))
    kinds = {}
    for name, kindstr, pat in TABLE:
        ks = kindstr.split()
        if len(ks) != cnt:
            continue
        ok = True
        for k, (v, var) in zip(ks, ops):
            if k in ("Vx", "Vy"):
                ok = ok and var == vs["GeneralPurposeRegister"]
            elif k == "V0":
                ok = ok and var == vs["GeneralPurposeRegister"] and st.need(p_eq(ip.payload(v, var, 0), ZERO))
            elif k in WIDTH:
                ok = ok and var in (vs["NumericLiteral"], vs["Identifier"])
            else:
                ok = ok and var == vs[SPECIAL[k]]
            if not ok:
                break
        if not ok or not st.need(('in', mnem.t, rx.ci(name))):
            continue
        vals = {}
        info = {"form": (name + " " + kindstr).strip(), "label": False}
        for k, (v, var) in zip(ks, ops):
            if k in ("Vx", "Vy"):
                vals["x" if k == "Vx" else "y"] = ip.payload(v, var, 0)
            elif k in WIDTH:
                if var == vs["Identifier"]:
                    key = ip.payload(v, var, 0)
                    info["label"] = True
                    has, val = models.map_lookup(ip, st, lmap, key)
                    if not has:
                        return ("label", None, info)
                else:
                    val = ip.payload(v, var, 0)
                x = val.fs[0]
                if not st.need(p_le(x, K((1 << WIDTH[k]) - 1))):
                    return ("width", None, info)
                vals[{"addr": "nnn", "nn": "kk", "n": "n"}[k]] = x
        word = ZERO
        i = 0
        while i < 4:
            for tag in ("nnn", "kk", "x", "y", "n"):
                if pat.startswith(tag, i):
                    word = word + vals[tag].scale(1 << (4 * (4 - i - len(tag))))
                    i += len(tag)
                    break
            else:
                word = word + (int(pat[i], 16) << (4 * (3 - i)))
                i += 1
        return ("ok", word, info)
    return ("form", None, {"mnem": True})


def hilo(st, word):
    b = to_bits(st, word, 16)
    if b is None:
        raise Unsupported("specification word")
    return from_bits(st, b[8:]), from_bits(st, b[:8])


def ident_lang(b):
    if b == ('sym', ('in', 'mnemonic')):
        return IDENT
    if b[0] == 'sym' and isinstance(b[1], tuple) and b[1][0] in ('v',):
        return LABELS
    return rx.ALL


@timed
def o_instr(ctx):
    """Instruction::from_mnemonic_and_parameters followed by into_vec, against the README table."""
    r = ObResult("O-INSTR")
    f = ctx.fn("Instruction::from_mnemonic_and_parameters")
    g = ctx.fn("Instruction::into_vec")
    size = ctx.fn("Instruction::size")
    ip = ctx.interp()
    with Langs(ident_lang):
        ft, vs = setup(ctx, ip)
        mnem = StrV(('sym', ('in', 'mnemonic')))
        fields = sym_seq(('in', 'fields'), ft)
        u12 = [i for i, t in enumerate(ip.types) if ip.is_u12(t)][0]
        lmap = MapV(('in', 'labels'), (), u12)
        args = [mnem, Ptr(('val', fields)), Ptr(('val', lmap))]
        lt = ip.types[f.locals[2]]
        if ip.types[lt["elem"]]["k"] == "slice":
            args[1] = fields
        st = State()
        outs = ip.call(st, f.id, args)
        nleaf = 0
        forms_ok = set()
        for o in outs:
            nleaf += 1
            where = ctx.where(f)
            if o.kind == "panic":
                code_ok = True
                ends = [(o.st, None, o)]
            elif o.kind != "ret":
                r.open("%s: %s" % (o.kind, o.info), where)
                continue
            elif o.val.var is None:
                r.open("result variant unknown", where)
                continue
            else:
                code_ok = o.val.var == 0
                ends = [(o.st, None, None)]
            if code_ok and o.kind == "ret":
                ends = []
                for o2 in ip.call(o.st, g.id, [o.val.fs[0]]):
                    if o2.kind == "ret" and isinstance(o2.val, SeqV):
                        ends.append((o2.st, o2.val, None))
                    elif o2.kind == "panic":
                        ends.append((o2.st, None, o2))
                    else:
                        r.open("into_vec: %s %r" % (o2.kind, o2.info), ctx.where(g))
            for est, bytes_, pan in ends:
                if pan is not None:
                    report(r, ip, pan, None, CLS_PANIC, "panic (%s)" % (pan.info[0],), span_str(pan.info[1]), est)
                try:
                    for s, (verdict, word, info) in fork(ip, est, lambda s: spec_forms(ip, s, mnem, fields, lmap, ft, vs)):
                        judge(r, ip, s, verdict, word, info, code_ok, bytes_, where, forms_ok, (mnem, fields))
                except (Unsupported, TooComplex) as e:
                    r.open("specification: %s" % e, where)
        r.count(leaves=nleaf, functions=len(ip.visited_fns), call_sites=ip.callsites)
        r.fns |= ip.visited_fns
        missing = set((n + " " + k).strip() for n, k, p in TABLE) - forms_ok
        if missing and not r.findings and not r.undecided:
            r.open("no accepting path proved for: %s" % ", ".join(sorted(missing)), ctx.where(f))
        r.analysed["documented_forms_proved"] = len(forms_ok)
    return r


def report(r, ip, o, verdict, cls, what, where, st, differ=None, extra=(), allow=()):
    """A mismatch: a finding when exact, open otherwise."""
    why = inexact_state(st, allow)
    if why is None:
        for x in extra:
            why = why or inexact(x, allow)
    if why is not None:
        r.open("%s [inexact: %s]" % (what, why), where)
        return False
    v = find_witness(st, differ, extra)
    if v is None:
        r.open("%s [no concrete valuation found]" % what, where)
        return False
    r.bad(cls, what, where, describe(v))
    return True


def judge(r, ip, s, verdict, word, info, code_ok, bytes_, where, forms_ok, roots):
    form = info.get("form", "")
    if verdict == "ok":
        if not code_ok:
            cls = CLS_LABELREJ if info["label"] else CLS_REJECT
            report(r, ip, None, verdict, cls, "documented form `%s`%s is rejected" % (form, " with a defined label" if info["label"] else ""), where, s)
            return
        if bytes_ is None:
            report(r, ip, None, verdict, CLS_LABELREJ if info["label"] else CLS_ENC, "`%s` panics instead of being encoded" % form, where, s)
            return
        hi, lo = hilo(s, word)
        want = SeqV([('e', hi), ('e', lo)])
        if same(s, bytes_, want):
            r.good()
            forms_ok.add(form)
            r.sample("%s -> %r" % (form, bytes_))
            return
        cls = CLS_LABELVAL if info["label"] else CLS_ENC
        report(r, ip, None, verdict, cls, "`%s` is encoded as %r instead of %r" % (form, norm_val(s, bytes_), want), where, s,
               differ=lambda v: defin(v.conc(bytes_)) and v.conc(bytes_) != v.conc(want), extra=(bytes_, want))
        return
    if not code_ok:
        r.good()
        return
    if bytes_ is None:
        bytes_ = SeqV()
    if verdict == "width":
        report(r, ip, None, verdict, CLS_WIDTH, "`%s` accepts an operand that does not fit its field" % form, where, s, extra=(bytes_,))
    elif verdict == "label":
        report(r, ip, None, verdict, CLS_LABEL, "`%s` accepts an undefined label" % form, where, s, extra=(bytes_,))
    else:
        report(r, ip, None, verdict, CLS_FORM, "an undocumented instruction form is accepted (bytes %r)" % (norm_val(s, bytes_),), where, s, extra=(bytes_,))


def defin(c):
    """No unknown part in a concrete rendering."""
    if isinstance(c, tuple):
        if c and c[0] in ('?', 'seg'):
            return False
        return all(defin(x) for x in c)
    return isinstance(c, (int, str, bool, type(None)))


# ------------------------------------------------------------------------------- opcode module
def op_setup(ctx, ip):
    ot = ctx.ty("opcode::Opcode")
    for vi, v in enumerate(ip.types[ot]["variants"]):
        for fi, f in enumerate(v["f"]):
            if f[0] in ("register_x", "register_y", "bytes"):
                ip.field_bounds[(ot, vi, fi)] = (0, 15)
    return ot


@timed
def o_round(ctx):
    """decode(encode(op)) = op for every opcode value; encode never panics on 4-bit registers."""
    r = ObResult("O-ROUND")
    enc = ctx.fn("Opcode::as_instruction")
    dec = ctx.fn("Opcode::from_instruction")
    ip = ctx.interp()
    ot = op_setup(ctx, ip)
    nv = len(ip.types[ot]["variants"])
    op = SymV(('in', 'op'), ot)
    seen = set()
    for o in ip.call(State(), enc.id, [Ptr(('val', op))]):
        if o.kind == "panic":
            report(r, ip, o, None, "panic", "encoding panics (%s)" % (o.info[0],), span_str(o.info[1]), o.st)
            continue
        if o.kind != "ret":
            r.open("%s %r" % (o.kind, o.info), ctx.where(enc))
            continue
        for o2 in ip.call(o.st, dec.id, [o.val]):
            if o2.kind == "panic":
                report(r, ip, o2, None, "panic", "decoding panics (%s)" % (o2.info[0],), span_str(o2.info[1]), o2.st)
                continue
            if o2.kind != "ret":
                r.open("%s %r" % (o2.kind, o2.info), ctx.where(dec))
                continue
            st = o2.st
            for s, vi in fork(ip, st, lambda s: ip.variant_index(s, op)):
                seen.add(vi)
                name = ip.types[ot]["variants"][vi]["n"]
                want = Agg(ot, vi, [ip.payload(op, vi, i) for i in range(len(ip.types[ot]["variants"][vi]["f"]))])
                if same(s, o2.val, want):
                    r.good()
                    r.sample("%s: decode(encode(op)) = op" % name)
                else:
                    got = o2.val
                    report(r, ip, o2, None, "roundtrip", "%s encodes to %r which decodes to %s" %
                           (name, norm_val(s, o.val), opname(ip, ot, got)), ctx.where(dec), s,
                           differ=lambda v: defin(v.conc(got)) and v.conc(got) != v.conc(want), extra=(got, want))
    if len(seen) < nv:
        r.open("opcodes not covered: %d of %d" % (len(seen), nv), ctx.where(enc))
    r.count(opcodes=len(seen))
    r.fns |= ip.visited_fns
    return r


def opname(ip, ot, v):
    if isinstance(v, Agg) and v.var is not None:
        return "%s%r" % (ip.types[ot]["variants"][v.var]["n"], v.fs)
    return repr(v)


def word_patterns():
    for name, kinds, pat in TABLE:
        p = pat
        if name in ("shr", "shl"):
            p = pat[0] + "xy" + pat[3]
        yield name, kinds, p


def nib(st, w, k):
    b = to_bits(st, w, 16)
    return from_bits(st, b[4 * k:4 * k + 4])


def spec_word(st, w):
    """Is the word the encoding of a documented instruction?"""
    for name, kinds, pat in word_patterns():
        ok = True
        for i, c in enumerate(pat):
            if c in "0123456789ABCDEF":
                if not st.need(p_eq(nib(st, w, 3 - i), K(int(c, 16)))):
                    ok = False
                    break
        if ok:
            return (name + " " + kinds).strip()
    return None


@timed
def o_decode(ctx):
    """Every word that encodes a documented instruction decodes to something that encodes back to
    it; every other word decodes to the no-operation."""
    r = ObResult("O-DECODE")
    enc = ctx.fn("Opcode::as_instruction")
    dec = ctx.fn("Opcode::from_instruction")
    ip = ctx.interp()
    ot = op_setup(ctx, ip)
    nop = ctx.variants(ot)["NOP"]
    w = L(atom(('in', 'word'), 0, 65535))
    forms = set()
    for o in ip.call(State(), dec.id, [w]):
        if o.kind == "panic":
            report(r, ip, o, None, "panic", "decoding panics (%s)" % (o.info[0],), span_str(o.info[1]), o.st)
            continue
        if o.kind != "ret":
            r.open("%s %r" % (o.kind, o.info), ctx.where(dec))
            continue
        for o2 in ip.call(o.st, enc.id, [Ptr(('val', o.val))]):
            if o2.kind == "panic":
                report(r, ip, o2, None, "panic", "encoding a decoded word panics (%s)" % (o2.info[0],), span_str(o2.info[1]), o2.st)
                continue
            if o2.kind != "ret":
                r.open("%s %r" % (o2.kind, o2.info), ctx.where(enc))
                continue
            back = o2.val
            for s, form in fork(ip, o2.st, lambda s: spec_word(s, w)):
                if form is not None:
                    if same(s, back, w):
                        r.good()
                        forms.add(form)
                        r.sample("%s -> %s" % (form, opname(ip, ot, o.val)))
                    else:
                        report(r, ip, o2, None, "roundtrip", "a word of the form `%s` decodes to %s, which encodes to %r" %
                               (form, opname(ip, ot, o.val), norm_val(s, back)), ctx.where(dec), s,
                               differ=lambda v: v.conc(back) != v.conc(w), extra=(back, w))
                else:
                    if isinstance(o.val, Agg) and o.val.var == nop:
                        r.good()
                    else:
                        report(r, ip, o2, None, "undocumented-word", "a word that is no documented instruction decodes to %s" %
                               opname(ip, ot, o.val), ctx.where(dec), s, extra=(w,))
    r.count(word_patterns=len(forms))
    r.fns |= ip.visited_fns
    return r


class BadText(Exception):
    pass


def lex_text(st, t):
    """Tokens of disassembly text: words, punctuation, and values that come from format pieces.
    Raises BadText(reason, predicate) when the text cannot be read back."""
    pieces = t[1] if t[0] == 'cat' else (t,)
    chars = []
    for p in pieces:
        if p[0] == 'lit':
            chars.extend(p[1])
        elif p[0] == 'fmt':
            chars.append(p)
        elif p[0] == 'chr':
            c = st.norm(p[1])
            chars.append(p)
        else:
            raise Unsupported("text piece %s" % tstr(p))
    toks = []
    i = 0
    n = len(chars)

    def digits_value(j, radix):
        """Number spelled from chars[j:]; -> (value, end, ndigits max)"""
        p = chars[j] if j < n else None
        if isinstance(p, tuple):
            _, kind, zero, alt, w, prec, v = p
            want = {16: ("x", "X"), 10: ("display",), 2: ("b",)}[radix]
            if radix == 16 and kind == "display" and isinstance(v, Lin) and not alt:
                if not st.need(p_lt(v, K(10))):
                    raise BadText("decimal digits where hexadecimal ones are read")
                kind = "x"
            if radix == 10 and kind in ("x", "X") and isinstance(v, Lin) and not alt:
                if not st.need(p_lt(v, K(10))):
                    raise BadText("hexadecimal digits where decimal ones are read")
                kind = "display"
            if kind not in want or alt or not isinstance(v, Lin):
                raise Unsupported("format piece %s" % tstr(p))
            if w is not None and not isinstance(w, int):
                raise Unsupported("format width")
            if w and w > 1 and not zero:
                if st.need(p_lt(v, K(radix ** (w - 1)))):
                    raise BadText("a value is padded with blanks")
            j += 1
            nd = None
            hi = st.bounds(st.norm(v))[1]
            nd = 1
            while radix ** nd <= hi:
                nd += 1
            nd = max(nd, w or 1)
            if j < n and (isinstance(chars[j], tuple) or chars[j].isalnum() or chars[j] in '_.'):
                raise Unsupported("digits run on")
            return v, j, nd
        k = j
        ds = "0123456789abcdef"[:radix]
        while k < n and not isinstance(chars[k], tuple) and chars[k].lower() in ds:
            k += 1
        if k == j:
            raise BadText("no digits")
        if k < n and isinstance(chars[k], tuple):
            raise Unsupported("mixed digits")
        return K(int("".join(chars[j:k]), radix)), k, k - j

    while i < n:
        c = chars[i]
        if isinstance(c, tuple):
            v, i, nd = digits_value(i, 10)
            toks.append(('num', v))
            continue
        if c in ' \t':
            i += 1
            continue
        if c == ',':
            toks.append(('comma',))
            i += 1
            continue
        if c in '$#':
            v, i, nd = digits_value(i + 1, 16)
            if nd > 3:
                hi = st.bounds(st.norm(v))[1]
                raise BadText("more than three hexadecimal digits")
            toks.append(('num', v))
            continue
        if c == '%':
            v, i, nd = digits_value(i + 1, 2)
            toks.append(('num', v))
            continue
        if c.isdigit():
            v, i, nd = digits_value(i, 10)
            toks.append(('num', v))
            continue
        if c in 'vV' and i + 1 < n and (isinstance(chars[i + 1], tuple)):
            v, j, nd = digits_value(i + 1, 16)
            if nd != 1:
                raise BadText("register number of more than one digit")
            toks.append(('reg', v))
            i = j
            continue
        if c == '[' and i + 2 < n and chars[i + 1] in ('i', 'I') and chars[i + 2] == ']':
            toks.append(('word', '[I]'))
            i += 3
            continue
        if c.isalpha() or c == '_':
            j = i
            while j < n and not isinstance(chars[j], tuple) and (chars[j].isalnum() or chars[j] == '_'):
                j += 1
            if j < n and isinstance(chars[j], tuple):
                raise Unsupported("word runs into value")
            toks.append(('word', "".join(chars[i:j])))
            i = j
            continue
        if c == ';':
            break
        raise BadText("character %r" % c)
    return toks


def parse_text(st, toks):
    """-> (word value) of the documented instruction the tokens spell, else BadText."""
    if not toks or toks[0][0] != 'word':
        raise BadText("no mnemonic")
    name = toks[0][1].lower()
    ops = []
    rest = toks[1:]
    while rest:
        ops.append(rest[0])
        if len(rest) > 1:
            if rest[1] != ('comma',) or len(rest) == 2:
                raise BadText("operands are not separated by commas")
            rest = rest[2:]
        else:
            rest = []
    for mn, kinds, pat in TABLE:
        ks = kinds.split()
        if mn != name or len(ks) != len(ops):
            continue
        vals = {}
        ok = True
        for k, o in zip(ks, ops):
            reg = None
            if o[0] == 'reg':
                reg = o[1]
            elif o[0] == 'word' and len(o[1]) == 2 and o[1][0] in 'vV' and o[1][1].lower() in '0123456789abcdef':
                reg = K(int(o[1][1], 16))
            if k in ("Vx", "Vy"):
                if reg is None:
                    ok = False
                else:
                    vals["x" if k == "Vx" else "y"] = reg
            elif k == "V0":
                ok = ok and reg is not None and st.need(p_eq(reg, ZERO))
            elif k in WIDTH:
                if o[0] != 'num':
                    ok = False
                else:
                    if not st.need(p_le(o[1], K((1 << WIDTH[k]) - 1))):
                        raise BadText("operand does not fit")
                    vals[{"addr": "nnn", "nn": "kk", "n": "n"}[k]] = o[1]
            else:
                ok = ok and o[0] == 'word' and o[1].upper() == k
            if not ok:
                break
        if not ok:
            continue
        word = ZERO
        i = 0
        while i < 4:
            for tag in ("nnn", "kk", "x", "y", "n"):
                if pat.startswith(tag, i):
                    word = word + vals[tag].scale(1 << (4 * (4 - i - len(tag))))
                    i += len(tag)
                    break
            else:
                word = word + (int(pat[i], 16) << (4 * (3 - i)))
                i += 1
        return word, mn in ("shr", "shl")
    raise BadText("`%s` with these operands is not a documented form" % name)


@timed
def o_disasm(ctx):
    """The text of every opcode reads back as a documented form with the same encoding."""
    r = ObResult("O-DISASM")
    enc = ctx.fn("Opcode::as_instruction")
    txt = ctx.fn("Opcode::to_assembly_string")
    ip = ctx.interp()
    ot = op_setup(ctx, ip)
    op = SymV(('in', 'op'), ot)
    seen = set()
    for o in ip.call(State(), txt.id, [Ptr(('val', op))]):
        if o.kind == "panic":
            report(r, ip, o, None, "panic", "disassembly panics (%s)" % (o.info[0],), span_str(o.info[1]), o.st)
            continue
        if o.kind != "ret" or not isinstance(o.val, StrV):
            r.open("%s %r" % (o.kind, o.info), ctx.where(txt))
            continue
        for o2 in ip.call(o.st, enc.id, [Ptr(('val', op))]):
            if o2.kind != "ret":
                r.open("encode: %s %r" % (o2.kind, o2.info), ctx.where(enc))
                continue

            def spec(s):
                try:
                    return parse_text(s, lex_text(s, o.val.t))
                except BadText as e:
                    return (None, str(e))
            try:
                for s, (word, extra) in fork(ip, o2.st, spec):
                    vi = ip.variant_index(s, op)
                    seen.add(vi)
                    name = ip.types[ot]["variants"][vi]["n"]
                    if word is None:
                        report(r, ip, o2, None, "text", "the text of %s, %s, does not read back: %s" % (name, tstr(o.val.t), extra), ctx.where(txt), s)
                        continue
                    a, b = o2.val, word
                    if extra:
                        a = strip_y(s, a)
                        b = strip_y(s, b)
                    if same(s, a, b):
                        r.good()
                        r.sample("%s: %s" % (name, tstr(o.val.t)))
                    else:
                        report(r, ip, o2, None, "text", "the text of %s, %s, reads back as %r, not %r" % (name, tstr(o.val.t), norm_val(s, b), norm_val(s, a)),
                               ctx.where(txt), s, differ=lambda v: v.conc(a) != v.conc(b), extra=(a, b))
            except (Unsupported, TooComplex) as e:
                r.open("text %s: %s" % (tstr(o.val.t), e), ctx.where(txt))
    nv = len(ip.types[ot]["variants"])
    if len(seen) < nv:
        r.open("opcodes not covered: %d of %d" % (len(seen), nv), ctx.where(txt))
    r.count(opcodes=len(seen))
    r.fns |= ip.visited_fns
    return r


def strip_y(st, w):
    b = to_bits(st, w, 16)
    if b is None:
        raise Unsupported("word bits")
    return from_bits(st, b[:4] + [0, 0, 0, 0] + b[8:])
