"""Which obligations make up each property, and which classes of mismatch break it."""
import o_instr as I
import o_asm as A
import o_prog as G
import o_out as U
import o_main as M
import o_scan as S
import o_parse as R
import o_depth as D
import o_fmt as F
import o_det as T

TRUSTED = [
    "rustc nightly front end (MIR of /repo as type-checked) and mirdump/ (MIR to JSON)",
    "analysis/interp.py, dom.py, rx.py: the abstract interpreter and its domains",
    "analysis/models.py: transfer functions of the std, regex, getopts and ihex functions c8s calls",
    "the specifications written in analysis/o_*.py (README tables and the property statements)",
]
ASSUMPTIONS = [
    "cases listed as undecided are not covered: neither proved nor reported",
    "overflow checks are on (dev profile, as build.sh builds)",
]

NOTE = ("Every path of the analysed functions is compared with the specification for all inputs; a run whose evidence "
        "shows discharged = obligations is a proof relative to the trusted base (rustc MIR, the abstract interpreter, "
        "the library models, the written specification). Cases the analysis cannot decide are listed as undecided, not reported.")

NOTE_SHAPES = ("Every path of the analysed functions is compared with the specification on a bounded, exhaustive family of input "
               "shapes (DESIGN.md lists them: lengths are bounded, contents are symbolic, so each shape stands for all its concrete "
               "inputs). Not a proof for inputs of every length. Cases the analysis cannot decide are listed as undecided, not reported.")

PENDING = "check under construction"
NOT_APPLICABLE = {"C%02d" % i: PENDING for i in range(1, 21)}

PROPS = {
    "C01": {
        "obligations": [(I.o_instr, {"encoding", "rejected", "label-value", "panic"})],
        "rule": "on every partition of (mnemonic language, operand kinds, operand values, label map) the bytes derived from the code equal the README pattern",
    },
    "C02": {
        "obligations": [(I.o_instr, {"form", "rejected", "label-rejected"})],
        "rule": "acceptance of (mnemonic, operand kinds) equals membership in the README table on every partition",
    },
    "C03": {
        "obligations": [(I.o_instr, {"width"}), (A.o_dir, {"byte", "range"})],
        "rule": "no partition with an operand above its field's maximum reaches a success return",
    },
    "C04": {
        "obligations": [(G.o_prog, {"bytes", "duplicate", "undefined", "rejected-label", "rejected-instruction"})],
        "rule": "on every statement list analysed, the value each label operand is given equals the one definition's value, duplicates and undefined labels reach only error returns",
        "level": "other",
    },
    "C05": {
        "obligations": [(G.o_prog, {"layout", "bytes", "rejected"})],
        "rule": "on every statement list analysed, the memory image of the second pass equals the layout of the first",
        "level": "other",
    },
    "C06": {
        "obligations": [(G.o_prog, {"overflow", "rejected-space"})],
        "rule": "on every statement list analysed, a statement that would move the location past $FFF reaches only an error return, and nothing else is refused for space",
        "level": "other",
    },
    "C07": {
        "obligations": [(U.o_ovl, {"missed", "disjoint", "panic"}), (M.o_main, {"overlap-ignored"})],
        "rule": "on every list of ranges analysed, the overlap check returns something exactly when two ranges share an address",
        "level": "other",
    },
    "C08": {
        "obligations": [(M.o_main, {"status", "early", "lost", "failed", "overlap-ignored"})],
        "rule": "on every path of main (symbolic arguments, every I/O and phase outcome) output effects come after all checks, failures exit non-zero, status 0 has written the complete text",
    },
    "C09": {
        "obligations": [(U.o_ihex, None)],
        "rule": "on every list of ranges analysed, the record list carries every byte at its address, 16 bytes at most, one EOF, newline",
        "level": "other",
    },
    "C11": {
        "obligations": [(S.o_scan, {"value"})],
        "rule": "on every text shape analysed, each numeric token carries the number written and literals above 4095 yield an error token",
        "level": "other",
    },
    "C12": {
        "obligations": [(S.o_scan, {"token"}), (R.o_parse, {"error-token"}), (M.o_main, {"source"})],
        "rule": "on every text shape analysed, the token sequence equals the lexical grammar's, up to an error token at the first text that is no token",
        "level": "other",
    },
    "C13": {
        "obligations": [(F.o_loc, {"text"}), (S.o_scan, {"location"}), (R.o_parse, {"location", "text"}), (G.o_prog, {"location", "text"}), (M.o_main, {"source", "source-name"})],
        "rule": "on every text shape analysed, each token's line, column and length equal the character positions in the text; diagnostics carry the location of the statement at fault",
        "level": "other",
    },
    "C14": {
        "obligations": [(A.o_dir, None), (G.o_prog, {"directive", "equ", "rejected-directive"})],
        "rule": "directive parsing, size and bytes simulate the directive table; `.equ` is accepted exactly after a label",
    },
    "C15": {
        "obligations": [(T.o_det, {"value", "order"})],
        "rule": "no flow of data or control from the clock, environment, randomness, addresses or hash-map order to output, exit status or file names",
    },
    "C16": {
        "obligations": [(I.o_round, None), (I.o_decode, None), (I.o_disasm, None)],
        "rule": "decode/encode/text compose to the identity on every partition of opcodes and of 16-bit words",
    },
    "C17": {
        "obligations": [(M.o_main, {"file", "usage-file"})],
        "rule": "on every path of main the set of file operations is: read-only open of the one input path, creation of the selected output path",
    },
    "C19": {
        "obligations": [(R.o_parse, {"statements", "operands", "name", "refused", "accepted", "error-token"})],
        "rule": "on every sequence of token kinds analysed, the statement list equals the grammar's, and a token that fits no statement reaches only error returns",
        "level": "other",
    },
    "C18": {
        "obligations": [(S.o_scan, {"endless"}), (R.o_parse, {"endless"}), (G.o_prog, {"endless"})],
        "rule": "on every text shape, token sequence and statement list analysed all paths end; a loop is reported only when it provably goes round for ever (its state repeats, or returns to itself when the values it changes are forgotten)",
        "level": "other",
    },
    "C20": {
        "obligations": [(M.o_main, {"silent", "message", "status-info"}), (U.o_ovl, {"pairs"}), (F.o_loc, {"range-text"})],
        "rule": "every path of main that ends with a failure status prints a message carrying the reason; every overlapping pair is listed and printed with both regions",
        "level": "other",
    },
    "C10": {
        "obligations": [(D.o_depth, {"stack"}), (F.o_loc, {"panic"}), (S.o_scan, {"panic"}), (R.o_parse, {"panic"}), (G.o_prog, {"panic"}), (I.o_instr, {"panic"}), (A.o_dir, {"panic"}), (U.o_ovl, {"panic"}), (U.o_ihex, {"panic"}), (M.o_main, {"panic"})],
        "rule": "no path of the lexer, parser, both passes, overlap check, hex writer or main reaches a panic on the inputs analysed",
        "level": "other",
    },
}
