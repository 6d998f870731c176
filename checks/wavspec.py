from checks.trigspec import *

FAM = ['Haar', 'db2', 'db4', 'sym4', 'coif1']
LOW = [
    None,
    [0.48296291314453416, 0.8365163037378079, 0.2241438680420134, -0.12940952255126037],
    [-0.010597401784997278, 0.032883011666982945, 0.030841381835986965, -0.18703481171888114, -0.02798376941698385, 0.6308807679295904, 0.7148465705525415, 0.23037781330885523],
    [-0.07576571478927333, -0.02963552764599851, 0.49761866763201545, 0.8037387518059161, 0.29785779560527736, -0.09921954357684722, -0.012603967262037833, 0.0322231006040427],
    [-0.01565572813546454, -0.0727326195128539, 0.38486484686420286, 0.8525720202122554, 0.3378976624578092, -0.0727326195128539],
]
SGN = [0, 1, -1, -1, -1]


def taps(fam):
    h = LOW[fam]
    L = len(h)
    return h, [SGN[fam] * (-1) ** k * h[L - 1 - k] for k in range(L)]


def mirror(i, n):
    while i < 0 or i >= n:
        i = -i if i < 0 else 2 * (n - 1) - i
    return i


def rows(fam, n):
    """analysis rows (approximation, detail) of a signal of length n"""
    A, D = [], []
    for i in range(n // 2):
        a, d = {}, {}
        if fam == 0:
            a = {2 * i: .5, 2 * i + 1: .5}
            d = {2 * i: .5, 2 * i + 1: -.5}
        else:
            h, g = taps(fam)
            for k in range(len(h)):
                p = mirror(2 * i + k, n)
                a[p] = a.get(p, 0.0) + h[k]
                d[p] = d.get(p, 0.0) + g[k]
        A.append(a)
        D.append(d)
    return A, D


def syn(fam, m):
    """synthesis rows: output sample -> (coefficients of the approximation, of the detail)"""
    n = 2 * m
    R = [({}, {}) for _ in range(n)]
    for i in range(m):
        if fam == 0:
            for t, s in ((0, 1.0), (1, -1.0)):
                R[2 * i + t][0][i] = 1.0
                R[2 * i + t][1][i] = s
        else:
            h, g = taps(fam)
            for k in range(len(h)):
                p = mirror(2 * i + k, n)
                R[p][0][i] = R[p][0].get(i, 0.0) + h[k]
                R[p][1][i] = R[p][1].get(i, 0.0) + g[k]
    return R


def compose(R, S):
    """rows R over intermediate values, each of which is a row of S over the inputs"""
    out = []
    for r in R:
        o = {}
        for i, c in r.items():
            for j, v in S[i].items():
                o[j] = o.get(j, 0.0) + c * v
        out.append(o)
    return out


def multi(fam, n, levels):
    cur = [{i: 1.0} for i in range(n)]
    det = []
    for _ in range(levels):
        if len(cur) % 2:
            cur = cur + [cur[-1]]
        A, D = rows(fam, len(cur))
        det.append(compose(D, cur))
        cur = compose(A, cur)
    return cur, det


def out_rows(P, R, tol, what):
    P.expect_int(len(R), 'length of ' + what)
    for i, r in enumerate(R):
        P.lin(r, 0.0, tol, '%s[%d]' % (what, i))


def exact(fam, n):
    """positions a single-level transform must reconstruct"""
    if fam == 0:
        return range(n // 2 * 2)
    L = len(LOW[fam])
    return range(L - 2, n - L + 1)
