"""An independent reader and writer of version 1.0 storage files (the layout that spec/FileFormat.tla defines).
Used to look at what the code stored; the layout itself is decided by FileFormat.tla (property C06)."""
import bisect, glob, os, struct

DISTNAMES = ["Gaussian", "Uniform", "StudentsT", "TruncatedGaussian"]
NORMNAMES = ["AF", "RF", "Row"]
FIXED = "<III"


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def unpack_bits(data, n, b):
    v = int.from_bytes(data[:(n * b + 7) // 8], "little")
    mask = (1 << b) - 1
    out = []
    # split large integers for speed
    step = 8 * 64
    for s in range(0, n, step):
        k = min(step, n - s)
        part = int.from_bytes(data[s * b // 8:(s + k) * b // 8 + 2], "little") >> ((s * b) % 8)
        for i in range(k):
            out.append(part & mask); part >>= b
    return out


def pack_bits(syms, b):
    v = 0
    for i, s in enumerate(syms):
        v |= s << (i * b)
    return v.to_bytes((len(syms) * b + 7) // 8, "little")


def meta_count(norm, weight, rpb, npol, nch, nant):
    if weight: return 1
    return npol * nch + npol * nant if norm == "AF" else npol * nch + rpb * npol if norm == "RF" else rpb


def symbol_count(weight, rpb, npol, nch):
    return rpb * nch if weight else rpb * npol * nch * 2


class DyFile:
    def __init__(self, path, cols, npol, nch):
        """cols: list of booleans, whether each column of the file holds weights."""
        self.b = open(path, "rb").read()
        b = self.b
        self.headerSize, self.colHeaderOffset, self.colCount, n = struct.unpack_from("<IIII", b, 0)
        self.name = b[16:16 + n].decode("latin1")
        o = 16 + n
        self.rpb, self.nant, self.blockSize, self.major, self.minor = struct.unpack_from("<IIIHH", b, o); o += 16
        self.db, self.wb, self.dist, self.norm = struct.unpack_from("<BBBB", b, o); o += 4
        self.nu, self.trunc = struct.unpack_from("<dd", b, o); o += 16
        self.fixedEnd = o
        self.cols, self.npol, self.nch = cols, npol, nch
        self.normName = NORMNAMES[self.norm]
        self.nblk = max(0, (len(b) - self.headerSize + self.blockSize - 1) // self.blockSize) if self.blockSize else 0

    def layout(self):
        """(offset within the block, floats, symbols, bits) per column"""
        o, out = 0, []
        for w in self.cols:
            m = meta_count(self.normName, w, self.rpb, self.npol, self.nch, self.nant)
            s = symbol_count(w, self.rpb, self.npol, self.nch)
            bits = self.wb if w else self.db
            out.append((o, m, s, bits)); o += 4 * m + (s * bits + 7) // 8
        return out

    def chunk(self, blk, col):
        o, m, s, bits = self.layout()[col]
        p = self.headerSize + blk * self.blockSize + o
        meta = struct.unpack_from("<%df" % m, self.b, p)
        return meta, unpack_bits(self.b[p + 4 * m:p + 4 * m + (s * bits + 7) // 8], s, bits)

    def factor(self, meta, row, ch, p, a1, a2):
        i = ch * self.npol + p
        if self.normName == "AF":
            base = self.npol * self.nch + p * self.nant
            return meta[i] * (meta[base + a1] * meta[base + a2])
        if self.normName == "RF": return meta[i] * meta[self.npol * self.nch + row * self.npol + p]
        return meta[row]


def find(path):
    """The storage file of a table that has one Dysco storage manager."""
    for f in sorted(glob.glob(os.path.join(path, "table.f[0-9]*"))):
        if f.endswith("i") or not os.path.isfile(f): continue
        h = open(f, "rb").read(40)
        if len(h) >= 16 and h[:4] != b"\xbe\xbe\xbe\xbe":
            hs, co, cc, n = struct.unpack_from("<IIII", h, 0)
            if n < 4096 and co == 28 + n + 4 + 4 + 16 and hs >= co: return f
    return None
