"""Orthogonal arrays: systematic coverage of interactions in wide products.

Rows are the polynomials of degree < t over GF(q), q prime; column x holds their
values at x. Any t columns then contain every combination of t levels in exactly
one row (t points determine the polynomial), so executing all q**t rows executes
every combination of values of any t slots, for up to q slots.
"""
ABSENT = ("absent",)


def prime(n):
    while any(n % d == 0 for d in range(2, int(n ** 0.5) + 1)):
        n += 1
    return n


def levels(values, q, share=0.5):
    """q levels: the given share of them absent, the others go round the values."""
    n = max(q - round(q * share), min(len(values), q - 1))
    return [ABSENT] * (q - n) + [values[i % len(values)] for i in range(n)]


class Array:
    def __init__(self, slots, t, share=0.5, q=None):
        """slots: [(key, values)] or [(key, values, share)]; strength t"""
        need = max(len(slots), max(len(s[1]) for s in slots) + 1, 5)
        self.q = q = prime(max(need, q or 0))
        self.t = t
        self.keys = [s[0] for s in slots]
        self.pools = []
        for j, s in enumerate(slots):
            lv = levels(list(s[1]), q, s[2] if len(s) > 2 else share)
            # a bijection of the levels per column keeps the strength
            a, b = 1 + (5 * j + 3) % (q - 1), (7 * j + 1) % q
            self.pools.append([lv[(a * i + b) % q] for i in range(q)])
        self.size = q ** t

    def row(self, i):
        """{key: value} of the slots that are not absent in row i."""
        q = self.q
        c = []
        for _ in range(self.t):
            i, r = divmod(i, q)
            c.append(r)
        out = {}
        for x, (k, p) in enumerate(zip(self.keys, self.pools)):
            v = 0
            for a in reversed(c):
                v = v * x + a
            v = p[v % q]
            if v is not ABSENT:
                out[k] = v
        return out


def chunks(size, step):
    for a in range(0, size, step):
        yield a, min(a + step, size)
