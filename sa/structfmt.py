"""struct format terms -> list of (character, count polynomial) segments."""
from .terms import T, C, is_const, is_int, add, mul, gamma, lookup, TRUE

SIZES = {"c": 1, "b": 1, "B": 1, "?": 1, "s": 1, "x": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "f": 4, "d": 8, "e": 2}


def segments(form):
    """(prefix term or None, [(char term, count term)]) or None when not understood"""
    parts = form.args if form.op == "strcat" else (form,)
    prefix = None
    out = []
    pending = None     # count waiting for its character

    def push(ch, n):
        if out and out[-1][0] is ch:
            out[-1] = (ch, add(out[-1][1], n))
        else:
            out.append((ch, n))
    first = True
    for p in parts:
        if is_const(p):
            s = p.args[0]
            if isinstance(s, bytes):
                s = s.decode("latin1")
            i = 0
            while i < len(s):
                c = s[i]
                if c in "<>=@!":
                    if not first:
                        return None
                    prefix = C(c)
                elif c.isdigit():
                    j = i
                    while j < len(s) and s[j].isdigit():
                        j += 1
                    if pending is not None:
                        return None
                    pending = C(int(s[i:j]))
                    i = j
                    first = False
                    continue
                elif c.isspace():
                    pass
                elif c in SIZES:
                    push(C(c), pending if pending is not None else C(1))
                    pending = None
                else:
                    return None
                first = False
                i += 1
        elif p.op == "str":
            if pending is not None:
                return None
            pending = p.args[0]
            first = False
        elif p.op == "repeat":
            if pending is not None:
                return None
            s, n = p.args
            if is_const(s):
                for c in s.args[0]:
                    if c not in SIZES:
                        return None
                if len(set(s.args[0])) > 1:
                    push(T("group", s), n)
                else:
                    push(C(s.args[0][0]), mul(n, C(len(s.args[0]))))
            else:
                push(s, n)
            first = False
        elif p.op in ("gamma", "lookup"):
            if first and _all(p, lambda v: v in ("<", ">", "=", "@", "!")):
                prefix = p
            elif _all(p, lambda v: isinstance(v, str) and len(v) == 1 and v in SIZES):
                push(p, pending if pending is not None else C(1))
                pending = None
            else:
                return None
            first = False
        elif first and p.op in ("item", "attr", "sym"):
            prefix = p
            first = False
        else:
            return None
    if pending is not None:
        return None
    return prefix, out


def _all(t, pred):
    if is_const(t):
        return pred(t.args[0])
    if t.op == "gamma":
        return _all(t.args[1], pred) and _all(t.args[2], pred)
    if t.op == "lookup":
        return all(_all(v, pred) for _, v in t.args[0])
    return False


def char_size(ch):
    """size term of one item of type character term ch"""
    if is_const(ch):
        return C(SIZES[ch.args[0]])
    if ch.op == "group":
        return C(sum(SIZES[c] for c in ch.args[0].args[0]))
    if ch.op == "gamma":
        return gamma(ch.args[0], char_size(ch.args[1]), char_size(ch.args[2]))
    if ch.op == "lookup":
        return lookup(tuple((k, char_size(v)) for k, v in ch.args[0]), ch.args[1], None)
    return T("charsize", ch)


def fmt_size(form):
    s = segments(form)
    if s is None:
        return None
    r = C(0)
    for ch, n in s[1]:
        r = add(r, mul(char_size(ch), n))
    return r


DTYPES = {"float64": "d", "double": "d", "float32": "f", "int32": "i", "intc": "i", "int64": "q", "longlong": "q", "int16": "h", "int8": "b",
          "uint8": "B", "uint32": "I", "uint64": "Q", "float_": "d"}
DTCHARS = {"f8": "d", "f4": "f", "i8": "q", "i4": "i", "i2": "h", "i1": "b", "u8": "Q", "u4": "I", "u1": "B", "d": "d", "f": "f", "i": "i",
           "q": "q", "b": "b", "B": "B", "l": "q"}


def dtype_form(d):
    """(prefix parts, struct character) of a numpy dtype term, or None"""
    if d.op == "call" and d.args[0] is T("ext", "numpy.dtype") and d.args[1]:
        return dtype_form(d.args[1][0])
    if d.op == "ext":
        n = d.args[0].split(".")[-1]
        if d.args[0].startswith("numpy.") and n in DTYPES:
            return (C("="),), DTYPES[n]
        return {"builtins.float": ((C("="),), "d"), "builtins.int": ((C("="),), "q")}.get(d.args[0])
    if is_const(d) and isinstance(d.args[0], str):
        x = d.args[0]
        pre = x[0] if x[:1] in "<>=!" else "="
        x = x.lstrip("<>=!|")
        ch = DTCHARS.get(x) or DTYPES.get(x)
        return ((C(pre),), ch) if ch else None
    if d.op == "strcat" and len(d.args) == 2 and is_const(d.args[1]):
        ch = DTCHARS.get(d.args[1].args[0])
        return ((d.args[0],), ch) if ch else None
    return None
