"""Reference statistics for transition count matrices (written from their definitions)."""
import math
from fractions import Fraction as F

from scipy.stats import chi2 as _chi2


def tail(x, dof):
    """Chi-square upper tail (nan without degrees of freedom)."""
    if dof <= 0:
        return float("nan")
    return float(_chi2.sf(x, dof))


def chi2_ref(T1, T2):
    """(statistic, dof) or None when an observed move is impossible under T2."""
    k = len(T1)
    stat = F(0)
    for i in range(k):
        n1, n2 = F(sum(T1[i])), F(sum(T2[i]))
        for j in range(len(T1[i])):
            e = n1 * F(T2[i][j]) / n2 if n2 else F(0)
            o = F(T1[i][j])
            if e == 0:
                if o != 0:
                    return None
                continue
            stat += (o - e) ** 2 / e
    dof = (sum(sum(r) > 0 for r in T1) - 1) * (sum(sum(r) > 0 for r in T2) - 1)
    return float(stat), dof


def homog_ref(Ms):
    """Q, LR, dof, pooled probabilities, regime probabilities."""
    m, r, k = len(Ms), len(Ms[0]), len(Ms[0][0])
    pool = [[sum(F(M[i][j]) for M in Ms) for j in range(k)] for i in range(r)]
    tot = [sum(row) for row in pool]
    p0 = [[pool[i][j] / tot[i] if tot[i] else F(0) for j in range(k)] for i in range(r)]
    p1 = []
    Q, LR = F(0), 0.0
    for M in Ms:
        pm = []
        for i in range(r):
            n = sum(F(x) for x in M[i])
            pm.append([F(M[i][j]) / n if n else F(0) for j in range(k)])
            for j in range(k):
                if n and p0[i][j]:
                    Q += n * (pm[i][j] - p0[i][j]) ** 2 / p0[i][j]
                    if M[i][j]:
                        LR += 2 * float(M[i][j]) * math.log(pm[i][j] / p0[i][j])
        p1.append(pm)
    dof = 0
    for i in range(r):
        if tot[i]:
            b = sum(sum(M[i]) > 0 for M in Ms)
            a = sum(x > 0 for x in pool[i])
            dof += (b - 1) * (a - 1)
    return float(Q), LR, dof, [[float(x) for x in row] for row in p0], \
        [[[float(x) for x in row] for row in pm] for pm in p1], float(sum(tot))


def kullback_ref(Fs):
    """Twice the information divergence of the strata from a common conditional matrix."""
    s, r = len(Fs), len(Fs[0])
    k = len(Fs[0][0])
    tot = 0.0
    for i in range(r):
        pool = [sum(F(M[i][j]) for M in Fs) for j in range(k)]
        n = sum(pool)
        for M in Fs:
            ni = sum(F(x) for x in M[i])
            for j in range(k):
                o = F(M[i][j])
                if o:
                    tot += 2 * float(o) * math.log((o / ni) / (pool[j] / n))
    return tot, r * (s - 1) * (r - 1)
