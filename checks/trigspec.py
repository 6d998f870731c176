from checks.realspec import *


def cosd(num, den):
    return unit(num, 2 * den).real        # cos(pi num/den)


def sind(num, den):
    return -unit(num, 2 * den).imag


def dct_fun(kind, n):
    def f(k, i):
        if kind == 1:
            if n == 1:
                return 2.0
            if i in (0, n - 1):
                return 1.0 if i == 0 else (-1.0) ** k
            return 2 * cosd(i * k, n - 1)
        if kind == 2:
            return cosd((2 * i + 1) * k, 2 * n)
        if kind == 3:
            return 0.5 if i == 0 else cosd(i * (2 * k + 1), 2 * n)
        return cosd((2 * i + 1) * (2 * k + 1), 4 * n)
    return f


def dst_fun(kind, n):
    def f(k, i):
        if kind == 1:
            return sind((i + 1) * (k + 1), n + 1)
        if kind == 2:
            return sind((2 * i + 1) * (k + 1), 2 * n)
        if kind == 3:
            return 0.5 * (-1.0) ** k if i == n - 1 else sind((i + 1) * (2 * k + 1), 2 * n)
        return sind((2 * i + 1) * (2 * k + 1), 4 * n)
    return f


def matrix(fun, n):
    return np.array([[fun(k, i) for i in range(n)] for k in range(n)]).reshape(n, n)


def dct_matrix(kind, n):
    return matrix(dct_fun(kind, n), n)


def dst_matrix(kind, n):
    return matrix(dst_fun(kind, n), n)


def cas_matrix(n):
    W = dft(n)
    return W.real - W.imag


def ttol(n):
    return 1.5e-6 * n * n + 2e-6 * n


def rows_at(P, M, base, tol, what):
    for r in range(M.shape[0]):
        P.lin({base + i: M[r, i] for i in range(M.shape[1])}, 0.0, tol, '%s %d' % (what, r))


def plain_spec(mat, n, form):
    def f(P):
        if form in (1, 2):
            base = 0
            for m in (n, n + 1, 1):
                rows_at(P, mat(m), base, ttol(m), 'row of %d, output' % m)
                base += m
        else:
            rows_at(P, mat(n), 0, ttol(n), 'output')
        P.expect(P.pos == len(P.outs), 'output has the input length')
    return f


LARGE = (33, 64, 65, 100, 127, 128, 255, 256, 257, 300, 512)


def sparse_box(pos, lo=-1.0, hi=1.0):
    pos = set(pos)
    return lambda i: (lo, hi) if i in pos else 0.0


def sparse_spec(fun, n, pos, tol):
    """the transform of a signal that is free at pos and zero elsewhere; fun(k, i): matrix entry"""
    def f(P):
        P.expect(len(P.outs) == n, 'output has the input length')
        for k in range(n):
            P.lin({i: fun(k, i) for i in pos}, 0.0, tol, 'output %d' % k)
    return f


def large(ck, cfg, case, args, fun, sizes, tol, key):
    for n in sizes:
        pos = spreads(n, 3)
        ck.add(cfg, case, args(n), sparse_spec(fun(n), n, pos, tol(n)), box=sparse_box(pos), weight=n * n, key='%s(%d), 3 free samples @%s' % (key, n, cfg))


def scaled_identity(n, s, tol):
    def f(P):
        rows_at(P, s * np.eye(n), 0, tol, 'sample')
        P.expect(P.pos == len(P.outs), 'output has the input length')
    return f


def stack_spec(mat, n, ok):
    def f(P):
        c = P.int()
        if not ok:
            P.expect(c == 2, 'unsupported size %d: result %s' % (n, ERRS.get(c, c)))
            return
        if c:
            return P.bad('size %d: error %s' % (n, ERRS.get(c, c)))
        rows_at(P, mat(n), 0, ttol(n), 'output')
    return f
