"""Keccak-256 (original padding), written from the specification; generated
straight-line permutation for speed."""
M = (1 << 64) - 1
def _rc():
    out, r = [], 1
    for _ in range(24):
        v = 0
        for j in range(7):
            if r & 1: v |= 1 << ((1 << j) - 1)
            r <<= 1
            if r & 0x100: r ^= 0x171
        out.append(v)
    return out
RC = _rc()
ROT = [[0] * 5 for _ in range(5)]
x, y = 1, 0
for t in range(24):
    ROT[x][y] = ((t + 1) * (t + 2) // 2) % 64
    x, y = y, (2 * x + 3 * y) % 5
def _gen():
    L = ["def f(s):", " " + ",".join("a%d" % i for i in range(25)) + " = s", " for rc in RC:"]
    A = lambda x, y: "a%d" % (x % 5 + 5 * y)
    for x in range(5):
        L.append("  c%d = " % x + "^".join(A(x, y) for y in range(5)))
    for x in range(5):
        p, n = "c%d" % ((x + 4) % 5), "c%d" % ((x + 1) % 5)
        L.append("  d = %s ^ (((%s << 1) | (%s >> 63)) & M)" % (p, n, n))
        for y in range(5):
            r = ROT[x][y]
            t = "(%s ^ d)" % A(x, y)
            b = "b%d" % (y + 5 * ((2 * x + 3 * y) % 5))
            if r: L.append("  t = %s; %s = ((t << %d) | (t >> %d)) & M" % (t, b, r, 64 - r))
            else: L.append("  %s = %s" % (b, t))
    for y in range(5):
        for x in range(5):
            b = lambda i: "b%d" % ((x + i) % 5 + 5 * y)
            L.append("  %s = %s ^ (~%s & %s)" % (A(x, y), b(0), b(1), b(2)))
    L.append("  a0 ^= rc")
    L.append(" return [" + ",".join("a%d" % i for i in range(25)) + "]")
    d = {"RC": RC, "M": M}
    exec("\n".join(L), d)
    return d["f"]
_f = _gen()
def keccak256(data):
    p = bytearray(data)
    k = 136 - len(p) % 136
    p += b"\0" * k
    p[len(data)] ^= 1
    p[-1] ^= 0x80
    s = [0] * 25
    fb = int.from_bytes
    for o in range(0, len(p), 136):
        for i in range(17):
            s[i] ^= fb(p[o + 8 * i:o + 8 * i + 8], "little")
        s = [v & M for v in _f(s)]
    return b"".join(v.to_bytes(8, "little") for v in s[:4])
def masked(data):
    return keccak256(data)[:20] + b"\0" * 12

# ---- the same permutation, compiled, when a C compiler is there (checked against the above)
def _compiled():
    import ctypes, os, subprocess, tempfile
    L = ["#include <stdint.h>", "#include <string.h>", "typedef uint64_t u;",
         "static const u RC[24]={%s};" % ",".join("0x%xULL" % r for r in RC), "static void f(u*s){"]
    L.append("u " + ",".join("a%d=s[%d]" % (i, i) for i in range(25)) + "," + ",".join("b%d" % i for i in range(25)) + ",d,t;")
    L.append("for(int k=0;k<24;k++){")
    A = lambda x, y: "a%d" % (x % 5 + 5 * y)
    for x in range(5): L.append("u c%d=" % x + "^".join(A(x, y) for y in range(5)) + ";")
    for x in range(5):
        p, n = "c%d" % ((x + 4) % 5), "c%d" % ((x + 1) % 5)
        L.append("d=%s^((%s<<1)|(%s>>63));" % (p, n, n))
        for y in range(5):
            r = ROT[x][y]
            b = "b%d" % (y + 5 * ((2 * x + 3 * y) % 5))
            L.append("t=%s^d;%s=%s;" % (A(x, y), b, "(t<<%d)|(t>>%d)" % (r, 64 - r) if r else "t"))
    for y in range(5):
        for x in range(5):
            b = lambda i: "b%d" % ((x + i) % 5 + 5 * y)
            L.append("%s=%s^(~%s&%s);" % (A(x, y), b(0), b(1), b(2)))
    L.append("a0^=RC[k];}")
    L.append("".join("s[%d]=a%d;" % (i, i) for i in range(25)) + "}")
    L.append("""void kk(const uint8_t*p,u n,uint8_t*out){u s[25];memset(s,0,200);
for(u o=0;o<n;o+=136){for(int i=0;i<17;i++){u v;memcpy(&v,p+o+8*i,8);s[i]^=v;}f(s);}memcpy(out,s,32);}""")
    d = tempfile.mkdtemp()
    try:
        open(d + "/k.c", "w").write("\n".join(L))
        subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", d + "/k.so", d + "/k.c"], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        lib = ctypes.CDLL(d + "/k.so")
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    fn = lib.kk
    fn.argtypes = [ctypes.c_char_p, ctypes.c_uint64, ctypes.c_char_p]
    fn.restype = None
    buf = ctypes.create_string_buffer(32)
    def k256(data):
        n = len(data)
        k = 136 - n % 136
        pad = b"\x81" if k == 1 else b"\1" + b"\0" * (k - 2) + b"\x80"
        fn(bytes(data) + pad, n + k, buf)
        return buf.raw
    for n in (0, 1, 31, 134, 135, 136, 137, 500):
        if k256(bytes(range(n % 256)) * 2) != keccak256(bytes(range(n % 256)) * 2): return None
    return k256
try: _fast = _compiled()
except Exception: _fast = None
if _fast: keccak256 = _fast
