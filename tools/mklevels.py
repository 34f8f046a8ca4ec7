#!/usr/bin/env python3-vt
"""Computes the quantization levels of the format independently of the code (scipy, double precision) and writes golden/levels.json:
{"dist par bits": [ordered int of the float of every level]} for up to 12 bits, {"dist par 16": {symbol: ordered int}} for 16 bits."""
import json, os, struct
import numpy as np
from scipy import stats, special
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONF = [("Gaussian", 0), ("Uniform", 0), ("StudentsT", 1.0), ("StudentsT", 3.0), ("StudentsT", 10.0), ("TruncatedGaussian", 1.0), ("TruncatedGaussian", 1.5), ("TruncatedGaussian", 2.5), ("TruncatedGaussian", 4.0)]
def lev(d, p, b, i):
    n = (1 << b) - 1
    # symmetric: calculate the lower half
    i = np.asarray(i, dtype=np.int64); up = i > n // 2; j = np.where(up, n - 1 - i, i)
    v = (j + 0.5) / n
    if d == "Uniform": x = np.float64(np.float32(np.sqrt(3))) * (2 * v - 1)
    elif d == "Gaussian": x = np.float64(np.float32(np.sqrt(3))) * special.ndtri(v)
    elif d == "StudentsT": x = stats.t.ppf(v, p)
    else:
        c = special.ndtr(-p); x = special.ndtri(v * (1 - 2 * c) + c)
    x = np.where(j * 2 + 1 == n, 0.0, x)
    return np.where(up, -x, x).astype(np.float32)
def order(x):
    k = struct.unpack("<i", struct.pack("<f", x))[0]
    return k if k >= 0 else -(k & 0x7fffffff)
out = {}
for d, p in CONF:
    for b in (2, 3, 4, 6, 8, 10, 12, 16):
        n = (1 << b) - 1
        if b < 16: out["%s %g %d" % (d, p, b)] = [order(x) for x in lev(d, p, b, range(n))]
        else:
            ix = sorted(set([(k * 65536) // 64 + k % 3 for k in range(64)] + [0, 1, 2, 32766, 32767, 32768, 65532, 65533, 65534]))
            out["%s %g %d" % (d, p, b)] = {str(i): order(x) for i, x in zip(ix, lev(d, p, b, ix))}
json.dump(out, open(ROOT + "/golden/levels.json", "w"), separators=(",", ":"))
