"""Independent reference computations (plain Python loops over the votes present)."""
import math
from fractions import Fraction

import numpy as np

from .core import require, Violation

Z95 = 1.95996
NAN = float('nan')


def arr(x):
    return np.asarray(x, dtype=float)


def close(got, want, rtol=1e-9, atol=1e-9, what='value'):
    """Elementwise comparison; NaN equals NaN, shapes must match."""
    try:
        g = np.asarray(got, dtype=float)
    except (TypeError, ValueError) as e:
        raise Violation('{}: not numeric: {!r}'.format(what, got)) from e
    w = np.asarray(want, dtype=float)
    require(g.shape == w.shape, '{}: shape {} instead of {}', what, g.shape, w.shape)
    both_nan = np.isnan(g) & np.isnan(w)
    with np.errstate(all='ignore'):
        ok = both_nan | (g == w) | (np.abs(g - w) <= atol + rtol * np.abs(w))
    if not np.all(ok):
        idx = tuple(int(i[0]) for i in np.where(~np.atleast_1d(ok)))
        gg, ww = np.atleast_1d(g)[idx], np.atleast_1d(w)[idx]
        raise Violation('{}: got {!r}, expected {!r} at {}'.format(what, float(gg), float(ww), idx))


def mean(vs):
    return math.fsum(vs) / len(vs) if len(vs) else NAN


def std(vs, ddof=0):
    n = len(vs)
    if n - ddof <= 0:
        return NAN
    m = mean(vs)
    return math.sqrt(math.fsum([(v - m) ** 2 for v in vs]) / (n - ddof))


def flat_video(V):
    """V[e][s] -> list of votes; returns per video list of votes."""
    return [[v for c in row for v in c] for row in V]


def flat_subject(V):
    return [[v for row in V for v in row[s]] for s in range(len(V[0]))]


def vmap(V, f):
    """f(e, s, vote) for every vote."""
    return [[[f(e, s, v) for v in c] for s, c in enumerate(row)] for e, row in enumerate(V)]


def drop_subjects(V, rejected):
    return [[c for s, c in enumerate(row) if not rejected[s]] for row in V]


def to_array(V, R):
    return np.array([[list(c) + [NAN] * (R - len(c)) for c in row] for row in V], dtype=float).reshape(
        len(V), len(V[0]) if V else 0, R)


def compact(a):
    """Every cell's votes before its missing ones, in order."""
    a = np.array(a, dtype=float)
    order = np.argsort(np.isnan(a), axis=2, kind='stable')
    return np.take_along_axis(a, order, axis=2)


def count(V):
    return sum(len(c) for row in V for c in row)


def maxrep(V):
    return max([1] + [len(c) for row in V for c in row])


def log_gauss(x, mu, sd):
    if sd <= 0 or math.isnan(sd):
        return NAN
    return -0.5 * math.log(2 * math.pi) - math.log(sd) - (x - mu) ** 2 / (2 * sd * sd)


def mos(V):
    return [mean(v) for v in flat_video(V)]


def ref_mos_of(V, content, is_ref):
    m = mos(V)
    by = {}
    for e, c in enumerate(content):
        if is_ref[e]:
            by[c] = m[e]
    return [by[c] for c in content]


def dscore(V, content, is_ref, ref_score):
    rm = ref_mos_of(V, content, is_ref)
    return vmap(V, lambda e, s, v: v + ref_score - rm[e])


def zscore(V):
    fs = flat_subject(V)
    mu = [mean(v) for v in fs]
    sd = [std(v, 1) for v in fs]
    return vmap(V, lambda e, s, v: (v - mu[s]) / sd[s])


def bias(V):
    m = mos(V)
    out = []
    for s in range(len(V[0])):
        out.append(mean([v - m[e] for e, row in enumerate(V) for v in row[s]]))
    return out


def unbias(V):
    b = bias(V)
    return vmap(V, lambda e, s, v: v - b[s]), b


class Ambiguous(Exception):
    """A decision lies within rounding error of its threshold."""


def bt500(V, E_R, tol=1e-9):
    """BT.500 rejection. Returns rejected flags, stat1, stat2.

    Votes are compared with the thresholds exactly where the data allow it
    (rational arithmetic); otherwise near-ties raise Ambiguous.
    """
    S = len(V[0])
    p, q = [0] * S, [0] * S
    for row in V:
        vs = [v for c in row for v in c]
        if not vs:
            continue
        n = len(vs)
        m = mean(vs)
        sd = std(vs)
        dev = [v - m for v in vs]
        m2 = math.fsum([d ** 2 for d in dev]) / n
        m4 = math.fsum([d ** 4 for d in dev]) / n
        scale = max(1e-300, max(abs(v) for v in vs))
        unanimous = all(v == vs[0] for v in vs)
        if unanimous:
            k = None
        else:
            if m2 < 1e-18 * scale * scale:
                raise Ambiguous()
            k = m4 / m2 ** 2
        if k is None:
            t = 0.0
            thr_hi = thr_lo = m
        else:
            if abs(k - 2) < 1e-9 or abs(k - 4) < 1e-9:
                # decided exactly on rationals; floating point in the code may differ for inexact data
                if not exact(vs):
                    raise Ambiguous()
                F = [Fraction(v) for v in vs]
                fm = sum(F) / n
                f2 = sum((x - fm) ** 2 for x in F) / n
                f4 = sum((x - fm) ** 4 for x in F) / n
                k = f4 / f2 ** 2
                if not (dyadic(fm) and dyadic(f2) and dyadic(f4)):
                    raise Ambiguous()
            t = 2.0 if 2 <= k <= 4 else math.sqrt(20)
            thr_hi, thr_lo = m + t * sd, m - t * sd
        for s, c in enumerate(row):
            for v in c:
                hi, lo = v >= thr_hi, v <= thr_lo
                if unanimous:
                    # every vote equals the mean: mean of equal numbers must be exact to decide
                    hi = lo = True
                    if not exact(vs) and not all_equal_mean_exact(vs):
                        raise Ambiguous()
                elif min(abs(v - thr_hi), abs(v - thr_lo)) <= tol * scale:
                    if not exact_tie(vs, t):
                        raise Ambiguous()
                    F = [Fraction(x) for x in vs]
                    fm = sum(F) / n
                    f2 = sum((x - fm) ** 2 for x in F) / n
                    d = Fraction(v) - fm
                    edge = d * d >= (4 if t == 2.0 else 20) * f2
                    hi, lo = edge and d > 0, edge and d < 0
                p[s] += bool(hi)
                q[s] += bool(lo)
    st1 = [(p[s] + q[s]) / float(E_R) for s in range(S)]
    st2 = [abs(p[s] - q[s]) / float(p[s] + q[s]) if p[s] + q[s] else NAN for s in range(S)]
    rej = [Fraction(p[s] + q[s], E_R) > Fraction(5, 100) and p[s] + q[s] > 0
           and Fraction(abs(p[s] - q[s]), p[s] + q[s]) < Fraction(3, 10) for s in range(S)]
    if all(rej):
        rej = [False] * S
    return rej, st1, st2


def dyadic(fr):
    d = fr.denominator
    return d & (d - 1) == 0 and abs(fr.numerator) < 2 ** 50


def exact(vs):
    return all(dyadic(Fraction(v)) and Fraction(v).denominator <= 2 ** 10 and abs(v) < 2 ** 20 for v in vs)


def all_equal_mean_exact(vs):
    return float(np.mean(np.array(vs, dtype=float))) == float(vs[0])


def exact_tie(vs, t):
    """True if mean, standard deviation and thresholds are exactly representable."""
    if t != 2.0 or not exact(vs):
        return False
    F = [Fraction(v) for v in vs]
    n = len(F)
    fm = sum(F) / n
    f2 = sum((x - fm) ** 2 for x in F) / n
    if not (dyadic(fm) and dyadic(f2)):
        return False
    r = Fraction(math.isqrt(f2.numerator), 1) / Fraction(math.isqrt(f2.denominator), 1)
    return r * r == f2


def pearson(x, y):
    n = len(x)
    if n < 2:
        return NAN
    mx, my = mean(x), mean(y)
    sxx = math.fsum([(a - mx) ** 2 for a in x])
    syy = math.fsum([(b - my) ** 2 for b in y])
    if all(a == x[0] for a in x) or all(b == y[0] for b in y):
        return NAN
    sxy = math.fsum([(a - mx) * (b - my) for a, b in zip(x, y)])
    if sxx <= 0 or syy <= 0:
        return NAN
    return max(-1.0, min(1.0, sxy / math.sqrt(sxx) / math.sqrt(syy)))


def avg_ranks(x):
    order = sorted(range(len(x)), key=lambda i: x[i])
    r = [0.0] * len(x)
    i = 0
    while i < len(order):
        j = i
        while j + 1 < len(order) and x[order[j + 1]] == x[order[i]]:
            j += 1
        for k in range(i, j + 1):
            r[order[k]] = (i + j) / 2.0 + 1
        i = j + 1
    return r


def spearman(x, y):
    return pearson(avg_ranks(x), avg_ranks(y))


def kendall_b(x, y):
    n = len(x)
    con = dis = tx = ty = 0
    for i in range(n):
        for j in range(i):
            a = (x[i] > x[j]) - (x[i] < x[j])
            b = (y[i] > y[j]) - (y[i] < y[j])
            if a == 0:
                tx += 1
            if b == 0:
                ty += 1
            if a * b > 0:
                con += 1
            elif a * b < 0:
                dis += 1
    tot = n * (n - 1) // 2
    if tot == tx or tot == ty:
        return NAN
    return (con - dis) / math.sqrt(tot - tx) / math.sqrt(tot - ty)


def mos_stats(V, V0, dof_params):
    """All outputs of the MOS family for processed votes V; V0 are the original votes."""
    fv = flat_video(V)
    E = len(fv)
    m = [mean(v) for v in fv]
    sd = [std(v, 1) for v in fv]
    se = [sd[e] / math.sqrt(len(fv[e])) if fv[e] else NAN for e in range(E)]
    n, n0 = count(V), count(V0)
    ll, ok = 0.0, True
    terms = []
    for e in range(E):
        for v in fv[e]:
            t = log_gauss(v, m[e], sd[e])
            if not math.isnan(t):
                terms.append(t)
            else:
                ok = ok and math.isnan(sd[e])
    ll = math.fsum(terms) / n if n else NAN
    dof = dof_params / float(n0)
    return {'mos': m, 'sd': sd, 'se': se, 'll': ll if ok else None, 'dof': dof,
            'aic': 2 * dof - 2 * ll if ok else None, 'bic': math.log(n0) * dof - 2 * ll if ok else None, 'n': n}
