"""Decoding of the compiler's format-string templates."""
from term import *
from values import Unsupported


def decode(t):
    """-> [('lit', bytes) | ('arg', index, opts)]"""
    out = []
    i = 0
    n = 0
    while i < len(t):
        b = t[i]
        if b == 0:
            return out
        if b < 0x80:
            out.append(("lit", bytes(t[i + 1:i + 1 + b])))
            i += 1 + b
        elif b == 0x80:
            L = t[i + 1] | t[i + 2] << 8
            out.append(("lit", bytes(t[i + 3:i + 3 + L])))
            i += 3 + L
        elif b & 0xC0 == 0xC0:
            i += 1
            opts = {}
            if b & 1:
                opts["flags"] = int.from_bytes(t[i:i + 4], "little")
                i += 4
            if b & 2:
                opts["width"] = int.from_bytes(t[i:i + 2], "little")
                i += 2
            if b & 4:
                opts["prec"] = int.from_bytes(t[i:i + 2], "little")
                i += 2
            if b & 8:
                n = int.from_bytes(t[i:i + 2], "little")
                i += 2
            if b & 0x30:
                raise Unsupported("format with dynamic width")
            out.append(("arg", n, opts))
            n += 1
        else:
            raise Unsupported("format template byte %x" % b)
    return out


def pad(t, opts):
    raise Unsupported("format options %r" % (opts,))
