from checks.fftspec import *


def cint(P, i):
    v = P.uins[i]
    return P.vm.concretize(v) if type(v) is SymI else v


def rtol(n, p):
    if p == 32:
        m = n // 2
        return (1e-5 if m & (m - 1) == 0 else 1e-4) * max(n, 4)
    return 1e-12 * max(n, 4)


def rfft_rows(P, n, pos, base, tol, what='bin'):
    W = dft(n)
    for k in range(n // 2 + 1):
        P.lin({base + i: W[k, t].real for i, t in enumerate(pos)}, 0.0, tol, '%s %d re' % (what, k))
        P.lin({base + i: W[k, t].imag for i, t in enumerate(pos)} if 0 < k < n / 2 else {}, 0.0, tol, '%s %d im' % (what, k))


def irfft_rows(P, n, pos, base, tol, what='sample'):
    """next n outputs: real signal whose half spectrum (bins pos) is at base"""
    for t in range(n):
        d = {}
        for i, k in enumerate(pos):
            w = unit(-k * t, n) / n          # exp(+2 pi i k t / n)/n
            if k == 0 or 2 * k == n:
                d[base + 2 * i] = w.real
            else:
                d[base + 2 * i] = 2 * w.real
                d[base + 2 * i + 1] = -2 * w.imag
        P.lin(d, 0.0, tol, '%s %d' % (what, t))


def fwd_spec(n, k, p, absent_ok=False):
    def f(P):
        c = P.int()
        if c == 99 and absent_ok:
            return
        if c:
            return P.bad('length %d: error %s' % (n, ERRS.get(c, c)))
        rfft_rows(P, n, spreads(n, k), 0, rtol(n, p))
    return f


def inv_spec(n, k, p, absent_ok=False):
    def f(P):
        c = P.int()
        if c == 99 and absent_ok:
            return
        if c:
            return P.bad('length %d: error %s' % (n, ERRS.get(c, c)))
        irfft_rows(P, n, spreads(n // 2 + 1, k), 0, rtol(n, p) * 4 / max(n, 4))
    return f
