"""Byte order of IC3 restart files.

Every struct format that reaches the output file of the v2/v3 writers is evaluated for each byte order the caller may
request; every struct format of the legacy reader is evaluated on the first eight bytes of a little-endian and of a
big-endian file.  One byte order per file, explicit, and the detected version is the written one."""
TECHNIQUE = "abstract interpretation; evaluation of every struct format of writers and reader for each byte order"
LEVEL_NOTE = ("All pack and unpack sites reached by write_data/read_data, for every requested order. Data written otherwise "
              "(ndarray.tofile, opaque formats) is undecided and quiet.")
import struct

from sa import ic3
from sa.rewrite import rewrite
from sa.structfmt import segments, fmt_size
from sa.terms import C, T, contains, is_const, is_int, show, subst, walk
from sa.util import site, resolve, cases

RULES = {"written": "every packed value of a file has the byte order requested by the caller",
         "read": "every unpacked value has the byte order detected from the magic number",
         "version": "the version decoded in either byte order is the one written",
         "padding": "native packing adds no alignment padding"}
ASSUMPTIONS = ["native order means the order of the machine; '@' is accepted where it adds no padding"]
ORDERS = ("native", "little", "big")


def one_byte(t):
    """something that makes items of one byte"""
    n = t.args[0].split(".")[-1] if t.op == "ext" else t.args[0] if is_const(t) else ""
    return isinstance(n, str) and (n in ("uint8", "int8", "bytes_", "byte", "ubyte", "bytes", "i1", "u1", "b", "B") or n[:1] == "S" and n[1:].isdigit())


def run(rep):
    for ver, mod in ic3.WRITERS:
        tr = ic3.trace_writer(ver, mod)
        rep.function(*tr.en.analysed)
        for order in ORDERS:
            m = {T("sym", "endian"): C(order)}
            seen = {}
            for form, vals, st in tr.writes:
                where = f"{ver} {order} write [{site(outer(st))}] {show(form, 3) if form is not None else ''}"
                if form is None and ic3.raw_bytes(vals) and not contains(vals, lambda x: x is T("sym", "endian")) and not contains(vals, one_byte):
                    rep.bad("written", where, "the memory of an array is written whatever the order requested")
                    continue
                if form is None:
                    rep.undecided("written", where, f"not packed by struct: {show(vals, 4)}")
                    continue
                f = rewrite(subst(form, m), ic3.RULES)
                sg = segments(f)
                p = sg[0] if sg else None
                if p is None or not (is_const(p) or isinstance(p, str)):
                    rep.undecided("written", where, f"format {show(f, 4)}")
                    continue
                p = p.args[0] if not isinstance(p, str) else p
                seen.setdefault(p, []).append((st, form))
                if order == "native":
                    if p in ("@", "") and is_const(f) and isinstance(f.args[0], str):
                        a = struct.calcsize("@" + f.args[0].lstrip("@"))
                        b = struct.calcsize("=" + f.args[0].lstrip("@"))
                        rep.check(a == b, "padding", where, f"{a} bytes in native mode, {b} packed")
                    ok = p in ("@", "", "=")
                    if not ok:
                        rep.bad("written", where, f"native order requested, packed with '{p}'")
                    else:
                        rep.ok("written", where, f"prefix '{p}'")
                else:
                    want = {"little": "<", "big": (">", "!")}[order]
                    rep.check(p in want and p != "", "written", where, f"prefix '{p}'")
    rt = ic3.trace_reader()
    rep.function(*rt.en.analysed)
    if rt.first is None:
        rep.undecided("read", "reader", "no magic number read")
        return
    for ver, mod in ic3.WRITERS:
        tr = ic3.trace_writer(ver, mod)
        written = [v.args[0] for _, vals, _ in tr.preamble for v in vals.args]
        for order in ("little", "big"):
            m = ic3.preamble_map(rt, tr, order)
            if m is None:
                rep.undecided("read", f"{ver} {order}", "first bytes of the file not constant")
                continue
            want = {"little": "<", "big": (">", "!")}[order]
            for form, data, term, st in rt.unpacks:
                if term is rt.first[2]:
                    continue
                where = f"{ver} {order} read [{site(outer(st))}] {kind(form)}"
                f = rewrite(subst(form, m), ic3.RULES)
                f = rewrite(subst(f, m), ic3.RULES)
                d = rewrite(subst(data, m), ic3.RULES)
                if is_const(d):          # the first two integers: judged by the version kept
                    continue
                sg = segments(f)
                p = sg[0] if sg else None
                if p is None or not (is_const(p) or isinstance(p, str)):
                    rep.undecided("read", where, f"format {show(f, 4)}")
                    continue
                p = p.args[0] if not isinstance(p, str) else p
                rep.check(p in want and p != "", "read", where, f"prefix '{p}'")
            v = version_term(rt)
            if v is not None and len(written) > 1:
                got = rewrite(subst(v, m), ic3.RULES)
                got = rewrite(subst(got, m), ic3.RULES)
                rep.check(got is written[1] if is_const(got) else None, "version", f"{ver} {order} version kept by the reader",
                          f"written {show(written[1])}, kept {show(got, 4)}")


def version_term(rt):
    """attribute of the reader that is computed from the second integer of the file"""
    o = rt.en.obj(rt.reader)
    best = None
    for k, t in (o.f.items() if o else ()):
        t = rt.en.freeze(t)
        if hasattr(t, "op") and contains(t, lambda x: x.op == "item" and x.args[1] is C(1) and contains(x.args[0], lambda y: y is rt.first[1])):
            if k == "ic3_version":
                return t
            if "version" in k:
                best = t
    return best


def outer(st):
    return st


def kind(form):
    sg = segments(form)
    if not sg:
        return show(form, 3)
    if len(sg[1]) > 8:
        return "header"
    return "".join(f"{show(n, 3)}{show(c, 2)} " for c, n in sg[1]).strip()
