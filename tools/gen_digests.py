#!/usr/bin/env python3
"""Digests of the contents C25 uses, computed by Python's hashlib (independent of the crates the implementation uses)."""
import hashlib, json
def table(n):
    if n == 0: return b""
    assert n >= 9
    return b"k,v\n" + b"a" * (n - 7) + b",1\n"
def series(n):
    return b"time,a\n" + b"".join(b"2021-01-%02d,%d\n" % (i + 1, i + 1) for i in range(n))
out = []
for kind, f, sizes in (("table", table, [0, 9, 10, 55, 56, 57, 63, 64, 65, 119, 120, 128, 4096, 8191, 8192, 8193, 16384, 65536, 131073, 1000003, 4500001]), ("series", series, [2, 3, 7, 28])):
    for n in sizes:
        c = f(n)
        out.append({"kind": kind, "n": n, "len": len(c), "MD5": hashlib.md5(c).hexdigest(), "SHA256": hashlib.sha256(c).hexdigest()})
json.dump(out, open(__file__.rsplit("/", 2)[0] + "/pv/src/digests.json", "w"), indent=0)
