"""Reference elliptic curve arithmetic (y^2 = x^3 + x + BETA over PF, order PS).
Textbook affine chord-and-tangent on Python integers; None is infinity."""
from .core import PF, PS
BETA = 0x06f21413efbe40de150e596d72f7a8c5609ad26c15c915c1f4cdfcb99cee9e89
GEN = (0x01ef15c18599971b7beced415a40f0c7deacfd9b0d1819e03d723d8bc943cfca,
       0x005668060aa49730b7be4801df46ec62de53ecd11abe43a32873000c36e8dc1f)
p = PF
def on(P): return P is None or (P[1] * P[1] - P[0] ** 3 - P[0] - BETA) % p == 0
def neg(P): return None if P is None else (P[0], -P[1] % p)
def add(P, Q):
    if P is None: return Q
    if Q is None: return P
    if P[0] == Q[0]:
        if (P[1] + Q[1]) % p == 0: return None
        m = (3 * P[0] * P[0] + 1) * pow(2 * P[1], -1, p)
    else:
        m = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p)
    x = (m * m - P[0] - Q[0]) % p
    return (x, (m * (P[0] - x) - P[1]) % p)
def mul(k, P):
    R = None
    k %= PS
    for b in bin(k)[2:]:
        R = add(R, R)
        if b == "1": R = add(R, P)
    return R
def sqrt(a):
    """Tonelli-Shanks in PF (3 generates the 2-part)"""
    a %= p
    if a == 0: return 0
    if pow(a, (p - 1) // 2, p) != 1: return None
    s = ((p - 1) & -(p - 1)).bit_length() - 1
    q = (p - 1) >> s
    z = pow(3, q, p)
    m, c, t, r = s, z, pow(a, q, p), pow(a, (q + 1) // 2, p)
    while t != 1:
        i, u = 0, t
        while u != 1:
            u = u * u % p
            i += 1
        b = pow(c, 1 << (m - i - 1), p)
        m, c = i, b * b % p
        t, r = t * c % p, r * b % p
    return r
def lift(x):
    while True:
        y = sqrt((x ** 3 + x + BETA) % p)
        if y is not None: return (x % p, y)
        x += 1
