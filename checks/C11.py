from checks.realspec import *


def kron(shape):
    W = np.array([[1.0 + 0j]])
    for n in shape:
        W = np.kron(W, dft(n))
    return W


def nd_spec(shape, k, p):
    n = int(np.prod(shape))

    def f(P):
        if not P.ok('%s transform' % 'x'.join(map(str, shape))):
            return
        tol = (1e-5 if all(s & (s - 1) == 0 for s in shape) else 1e-4) * max(n, 4) if p == 32 else 1e-12 * max(n, 4)
        P.lins(crows(kron(shape), spreads(n, k)), tol, 'bin')
    return f


def err2_spec(P):
    rows = P.int()
    r = z3.BitVecVal(rows, 64)
    c = P.int()
    n, m = cint(P, 0), cint(P, 1)
    q = P.ubv(2)
    if n == 0:
        same, fit = z3.Or(r == 0, q == 0), z3.BoolVal(True)
    else:
        same = z3.Or([z3.And(r == d, q == n // d) for d in range(1, n + 1) if n % d == 0])
        fit = r == m
    verdict(P, c, same, fit, n, 'data of %d, scratch %d' % (n, m))


def verdict(P, c, same, fit, n, what):
    if c == 0:
        P.must(z3.And(same, fit), what + ': accepted')
    elif c == 3:
        P.must(z3.Or(z3.Not(same), z3.Not(fit)), what + ': rejected although consistent')
        for i in range(2 * n):
            P.lin({i: 1.0}, 0.0, 0.0, 'data after an error')
    else:
        P.bad('%s: result %s' % (what, ERRS.get(c, c)))


def err3_spec(P):
    ax = [P.int(), P.int(), P.int()]
    c = P.int()
    n = cint(P, 0)
    sc = [cint(P, 1 + i) for i in range(3)]
    verdict(P, c, z3.BoolVal(ax[0] * ax[1] * ax[2] == n), z3.BoolVal(n == 0 or ax == sc), n, 'data of %d as %s with scratch %s' % (n, ax, sc))


def flat2_spec(rows):
    def f(P):
        ns = [cint(P, i) for i in range(rows)]
        c = P.int()
        if len(set(ns)) > 1:
            return P.expect(c == 3, 'ragged rows %s: result %s' % (ns, ERRS.get(c, c)))
        if c:
            return P.bad('rows %s: result %s' % (ns, ERRS.get(c, c)))
        got = (P.int(), P.int(), P.int())
        P.expect(got == (rows, ns[0] if rows else 0, sum(ns)), 'rows %s: shape %s' % (ns, got))
        for i in range(2 * sum(ns)):
            P.lin({i: 1.0}, 0.0, 0.0, 'element %d' % (i // 2))
    return f


def flat3_spec(depth):
    def f(P):
        j = 0
        planes = []
        for _ in range(depth):
            r = cint(P, j)
            planes.append([cint(P, j + 1 + i) for i in range(r)])
            j += 1 + r
        c = P.int()
        rows = {len(p) for p in planes}
        cols = {n for p in planes for n in p}
        if len(rows) > 1 or len(cols) > 1:
            return P.expect(c == 3, 'ragged %s: result %s' % (planes, ERRS.get(c, c)))
        if c:
            return P.bad('%s: result %s' % (planes, ERRS.get(c, c)))
        got = (P.int(), P.int(), P.int(), P.int())
        n = sum(x for p in planes for x in p)
        P.expect(got == (depth, max(rows, default=0), max(cols, default=0), n), '%s: shape %s' % (planes, got))
        for i in range(2 * n):
            P.lin({i: 1.0}, 0.0, 0.0, 'element %d' % (i // 2))
    return f


def build(ck):
    s2 = [(a, b) for a in (1, 2, 3, 4, 5, 8) for b in (1, 2, 3, 4, 6, 8)] + [(16, 2), (2, 32), (32, 3), (7, 5)]
    s3 = [(a, b, c) for a in (1, 2, 3, 4) for b in (1, 2, 3) for c in (1, 2, 4, 5)] + [(2, 8, 2), (8, 2, 2)]
    for f, p in (('f', 32), ('d', 64)):
        for s in s2:
            ck.add('std', 'nd2' + f, s + (0 if s[0] * s[1] <= 48 else 8,), nd_spec(s, 0 if s[0] * s[1] <= 48 else 8, p), weight=s[0] * s[1])
        for s in s3:
            k = 0 if s[0] * s[1] * s[2] <= 24 else 8
            ck.add('std', 'nd3' + f, s + (k,), nd_spec(s, k, p), weight=s[0] * s[1] * s[2])
    for f, p in (('f', 32), ('d', 64)):
        for s in ((16, 16), (4, 64), (64, 4), (32, 32), (128, 2), (100, 3), (1, 256)):
            ck.add('std', 'nd2' + f, s + (4,), nd_spec(s, 4, p), weight=s[0] * s[1] * 4)
        for s in ((8, 8, 8), (16, 4, 8), (2, 2, 64), (64, 2, 2), (2, 64, 3), (5, 6, 7)):
            ck.add('std', 'nd3' + f, s + (4,), nd_spec(s, 4, p), weight=s[0] * s[1] * s[2] * 4)
    full = (0, (1 << 64) - 1)
    top = 5
    ck.add('std', 'nd2err', (), err2_spec, ints=[(0, top), (0, 3), full, (0, 6)], weight=900)
    for n in range(4):
        ck.add('std', 'nd3err', (n,), err3_spec, ints=[(n, n), (1, 2), (1, 2), (1, 1), (0, 6), (0, 6), (0, 6)], weight=900)
    for r in range(4):
        ck.add('std', 'flat2', (r,), flat2_spec(r), ints=[(0, 2)] * r)
        if r < 3:
            ck.add('std', 'flat3', (r,), flat3_spec(r), ints=[(0, 2)] * 9)
    ck.bounds.append('larger shapes up to 32x32 and 8x8x8 with four free elements')
    ck.bounds.append('2D shapes %s, 3D shapes %s; shape errors with any 64-bit column count and extents from {0,1,2,3,2^32,2^63,2^64-1} for data of up to %d elements' % (s2, s3, top))


if __name__ == '__main__':
    ck = Check('C11', ['nd'])
    build(ck)
    sys.exit(ck.run())
