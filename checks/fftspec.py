"""Shared specifications for complex transforms."""
from engine.core import *
from engine.refs import *


def tol_of(n, p):
    if p == 32:
        return (1e-5 if n & (n - 1) == 0 else 2e-4) * max(n, 4)
    return 1e-12 * max(n, 4)


def dft_spec(n, inv, k, tol, absent_ok=False, err_ok=()):
    def f(P):
        c = P.int()
        if c == 99:
            if not absent_ok:
                P.bad('entry point missing')
            return
        if c in err_ok:
            return
        if c != 0:
            P.bad('length %d: returned error %s' % (n, ERRS.get(c, c)))
            return
        rows = dft_rows(n, inv, spreads(n, k))
        P.lins(rows, tol / n if inv else tol, 'x' if inv else 'bin')
    return f
