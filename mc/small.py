"""Small elliptic curves by brute force: points, group table, generators."""
from functools import lru_cache
from mc.refs import Curve


@lru_cache(maxsize=None)
def points(p, a, b):
    """affine points, sorted"""
    sq = {}
    for y in range(p):
        sq.setdefault(y * y % p, []).append(y)
    return tuple((x, y) for x in range(p) for y in sq.get((x * x * x + a * x + b) % p, ()))


def singular(p, a, b):
    return (4 * a ** 3 + 27 * b * b) % p == 0


@lru_cache(maxsize=None)
def curves(primes, prime_order=False, above=False):
    """all curves y^2 = x^3 + ax + b with b != 0 over these fields [(p, a, b, order)];
    b = 0 is left out: (0, 0), which the code uses for infinity, would be an ordinary point of the curve"""
    out = []
    for p in primes:
        for a in range(p):
            for b in range(1, p):
                if singular(p, a, b):
                    continue
                n = len(points(p, a, b)) + 1
                if prime_order and (n < 5 or any(n % q == 0 for q in range(2, int(n ** 0.5) + 1))):
                    continue
                if above and n <= p:
                    continue
                out.append((p, a, b, n))
    return tuple(out)


class Ref:
    """affine group law by definition; None is infinity"""
    def __init__(self, p, a, b):
        self.p, self.a, self.b = p, a, b

    def neg(self, P):
        return None if P is None else (P[0], -P[1] % self.p)

    def add(self, P, Q):
        p = self.p
        if P is None: return Q
        if Q is None: return P
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0:
                return None
            l = (3 * P[0] ** 2 + self.a) * pow(2 * P[1], -1, p)
        else:
            l = (P[1] - Q[1]) * pow(P[0] - Q[0], -1, p)
        x = (l * l - P[0] - Q[0]) % p
        return x, (l * (P[0] - x) - P[1]) % p

    def mul(self, k, P):
        A = None
        for _ in range(k):
            A = self.add(A, P)
        return A


def impl(p, a, b):
    from neocore.Cryptography.ECCurve import EllipticCurve, FiniteField
    return EllipticCurve(FiniteField(p), a, b)


def mk(ec, Q):
    return ec.point(*(Q or (0, 0)))


def un(P):
    """affine pair or None"""
    v = (P.x.value, P.y.value)
    return None if v == (0, 0) else v
