"""Is a set of linear facts over whole numbers contradictory?  (Fourier-Motzkin elimination with integer tightening;
products of unknowns count as unknowns of their own.)  Answers True only when it is."""
from math import gcd

LIMIT = 600


def tight(row):
    """(coeffs {x: c}, k) meaning sum + k >= 0, over the integers."""
    cs, k = row
    cs = {x: c for x, c in cs.items() if c}
    if not cs:
        return cs, k
    g = 0
    for c in cs.values():
        g = gcd(g, c)
    if g > 1:
        cs = {x: c // g for x, c in cs.items()}
        k = k // g          # floor
    return cs, k


def contradictory(rows, noteq=(), depth=0):
    """rows: [(coeffs, const)] for sum >= 0; noteq: [(coeffs, const)] for sum != 0."""
    if refuted(rows):
        return True
    if noteq and depth < 4:
        for i, (cs, k) in enumerate(noteq):
            rest = noteq[:i] + noteq[i + 1:]
            neg = ({x: -c for x, c in cs.items()}, -k)
            up = (cs, k - 1)
            down = (neg[0], neg[1] - 1)
            a = refuted(rows + [up])
            b = refuted(rows + [down])
            if a and b:
                return True
            if a or b:
                return contradictory(rows + [down if a else up], rest, depth + 1)
    return False


def refuted(rows):
    work = {}

    def add(row):
        cs, k = tight(row)
        if not cs:
            return k < 0
        key = frozenset(cs.items())
        if key not in work or work[key] > k:
            work[key] = k
        return False
    for r in rows:
        if add(r):
            return True
    while True:
        occ = {}
        for key in work:
            for x, c in key:
                p = occ.setdefault(x, [0, 0])
                p[0 if c > 0 else 1] += 1
        if not occ:
            return False
        x = min(occ, key=lambda v: occ[v][0] * occ[v][1] - sum(occ[v]))
        pos, neg, keep = [], [], {}
        for key, k in work.items():
            c = dict(key).get(x, 0)
            if c > 0:
                pos.append((dict(key), k, c))
            elif c < 0:
                neg.append((dict(key), k, -c))
            else:
                keep[key] = k
        work = keep
        for a, ka, ca in pos:
            for b, kb, cb in neg:
                g = gcd(ca, cb)
                ma, mb = cb // g, ca // g
                cs = {v: ma * c for v, c in a.items()}
                for v, c in b.items():
                    cs[v] = cs.get(v, 0) + mb * c
                if add((cs, ma * ka + mb * kb)):
                    return True
        if len(work) > LIMIT:
            return False
