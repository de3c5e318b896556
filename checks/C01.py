"""Section framing of IC3 restart files.

The writers are interpreted abstractly on a symbolic mesh (arbitrary counts, fields, marks, byte order): every
struct.pack reaching the output file is collected in order, split into sections at each 256-byte header, and the value
stored in the length field is compared, as a polynomial in the mesh counts and for each data type, with 256 plus the
bytes packed before the next header.  The reader's hop from header to header is checked against the same field."""
from sa import ic3
from sa.terms import C, T, add, contains, is_const, is_int, poly_of, show, sub, is_num
from sa.util import atoms, differ, show_case, site

TECHNIQUE = "abstract interpretation of the IC3 writers; symbolic byte accounting per section"
LEVEL_NOTE = "Every section of every path of both writers is compared symbolically (all counts, types, cases). Trusts the model of struct/numpy; payloads of unmodelled size are undecided and quiet."
RULES = {"length": "length field == 256 + bytes of the payload, for every case and every value of the counts",
         "preamble": "file starts with two 4-byte integers: magic number, version",
         "eof": "the last section of every path is the end-of-file section",
         "hop": "reader: jump from the end of a header to the next header is (length field of this header) - 256"}
ASSUMPTIONS = ["struct, numpy and file semantics are modelled, not derived",
               "sizes of unmodelled payloads are reported undecided, not alarmed"]


def row_count(a):
    """the number of values of one row: one entry of the difference of an index and the index shifted"""
    if a.op == "call" and a.args[0].op == "ext" and a.args[0].args[0] in ("builtins.int", "numpy.int32", "numpy.int64") and len(a.args[1]) == 1:
        a = a.args[1][0]
    if a.op != "item" or not is_int(a.args[1]):
        return False
    p = poly_of(a.args[0])
    ts = [(m[0], c) for m, c in p.items() if len(m) == 1 and m[0].op == "item" and m[0].args[1].op == "slice"]
    return len(p) == len(ts) == 2 and ts[0][1] == -ts[1][1] and ts[0][0].args[0] is ts[1][0].args[0]


def one_row(asg, x, y):
    """a length that follows from the size of one row: the other rows may have another one, the total being the same"""
    rows = [a for a in atoms(sub(x, y)) if row_count(a)]
    ok = rows and all(not contains(b, lambda t: t is a) for a in rows for b in atoms(x) | atoms(y) if b is not a)
    return (False if ok else None), (asg, x, y)


def run(rep):
    for ver, mod in ic3.WRITERS:
        tr = ic3.trace_writer(ver, mod)
        rep.function(*tr.en.analysed)
        for what, st in tr.problems:
            rep.undecided("length", f"{ver}: {site(st)}", what)
        seen = set()
        for s in tr.sections:
            where = f"{ver} section {s.label()}"
            if s.skip is None:
                rep.undecided("length", where, "header without length field")
                continue
            if s.opaque:
                rep.undecided("length", where, "payload of unknown size: " + s.opaque[0][0])
                continue
            want = add(C(s.hsize), s.size())
            r, why = differ(s.skip, want, context=(s.id,))
            if r is None:
                r, why = one_row(*why)
            what = f"length field {show(s.skip, 5)}"
            if r is False:
                asg, x, y = why
                what = f"length field is {show(x, 5)} but header and payload take {show(y, 5)} bytes" + (
                    f" when {show_case(asg)}" if asg else "") + f" [{site(s.site)}]"
            rep.check(r, "length", where, what)
        # preamble
        if tr.preamble:
            from sa.structfmt import fmt_size
            n = C(0)
            for form, vals, st in tr.preamble:
                n = add(n, fmt_size(form) or T("sym", "?"))
            rep.check(True if n is C(8) else (False if is_int(n) else None), "preamble", f"{ver} file start",
                      f"{show(n)} bytes before the first section header (reader starts at byte 8)")
        elif tr.sections:
            rep.bad("preamble", f"{ver} file start", "no magic number before the first section")
        # last section
        eof = ic3.restart_code(tr.en, "UGP_IO_EOF")
        if tr.final and tr.sections and eof is not None:
            bad = [s for s in tr.final if s is None or (is_const(s.id) and s.id is not eof)]
            unk = [s for s in tr.final if s is not None and not is_const(s.id)]
            rep.check(False if bad else None if unk else True, "eof", f"{ver} file end",
                      "last section is " + ", ".join(s.label() if s else "nothing" for s in tr.final))
    ic3.check_hops(rep)
