"""Oracle for the single-byte charsets: Python's codecs (generated from the Unicode mapping files), completed for the
Windows code pages with Microsoft's best-fit assignments (undefined C1 bytes map to themselves; windows-1255 0xCA)."""
import z3

NAMES = ["ascii"] + ["iso_8859_%d" % k for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 16)] + \
        ["windows_%d" % k for k in range(1250, 1259)]


def decode_table(name):
    """byte -> code point, or None for a byte that is not part of the charset"""
    t = []
    for b in range(256):
        try:
            t.append(ord(bytes([b]).decode(name.replace("windows_", "cp"))))
        except UnicodeDecodeError:
            if name.startswith("windows_") and 0x80 <= b < 0xA0:
                t.append(b)
            elif name == "windows_1255" and b == 0xCA:
                t.append(0x5BA)
            else:
                t.append(None)
    assert len({x for x in t if x is not None}) == sum(x is not None for x in t)
    return t


def _runs(pairs):
    """[(lo, hi, delta)] covering the (sorted) pairs k -> v with v = k + delta"""
    out = []
    for k, v in pairs:
        if out and out[-1][1] == k - 1 and out[-1][2] == v - k:
            out[-1][1] = k
        else:
            out.append([k, k, v - k])
    return out


class Table:
    def __init__(self, name):
        self.name = name
        self.dec = decode_table(name)
        self.enc = {c: b for b, c in enumerate(self.dec) if c is not None}
        self.enc_rep = dict(self.enc)
        self.enc_rep[0xFFFD] = 0x3F           # U+FFFD stands for the replacement character
        self.invalid = [b for b in range(256) if self.dec[b] is None]
        self.druns = _runs([(b, c) for b, c in enumerate(self.dec) if c is not None])
        self.eruns = _runs(sorted(self.enc_rep.items()))

    def valid(self, b):
        """BV8 -> Bool"""
        lo = [r[:2] for r in _runs([(x, 0 + x) for x in self.invalid])]
        return z3.And([z3.Not(z3.And(z3.UGE(b, l), z3.ULE(b, h))) for l, h in lo]) if lo else z3.BoolVal(True)

    def decode(self, b):
        """BV8 -> BV32 (U+FFFD for an invalid byte)"""
        x = z3.ZeroExt(24, b)
        r = z3.BitVecVal(0xFFFD, 32)
        for l, h, d in self.druns:
            r = z3.If(z3.And(z3.UGE(b, l), z3.ULE(b, h)), x + d, r)
        return r

    def supported(self, c):
        """BV32 -> Bool"""
        return z3.Or([z3.And(z3.UGE(c, l), z3.ULE(c, h)) for l, h, d in self.eruns])

    def encode(self, c):
        """BV32 -> BV8 ('?' when there is no such character in the charset)"""
        r = z3.BitVecVal(0x3F, 32)
        for l, h, d in self.eruns:
            r = z3.If(z3.And(z3.UGE(c, l), z3.ULE(c, h)), c + d, r)
        return z3.Extract(7, 0, r)
