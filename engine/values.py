"""Encoding of solver-chosen inputs as JSON."""
import struct


def encode(d):
    res = {}
    for k, v in d.items():
        if isinstance(v, float):
            res[k] = {'f': v.hex() if v == v and abs(v) != float('inf') else repr(v)}
        elif isinstance(v, bool):
            res[k] = {'b': v}
        elif isinstance(v, int):
            res[k] = {'i': str(v)}
        elif isinstance(v, str):
            res[k] = {'s': v}
        else:
            raise TypeError(type(v))
    return res


def decode(d):
    res = {}
    for k, v in d.items():
        (t, x), = v.items()
        if t == 'f':
            res[k] = float.fromhex(x) if 'x' in x else float(x)
        elif t == 'i':
            res[k] = int(x)
        else:
            res[k] = x
    return res


def fp_to_float(e):
    import z3
    if e.isNaN():
        return float('nan')
    if e.isInf():
        return float('-inf') if e.isNegative() else float('inf')
    bits = z3.simplify(z3.fpToIEEEBV(e)).as_long()
    return struct.unpack('<d', struct.pack('<Q', bits))[0]
