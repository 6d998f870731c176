from checks.fftspec import *


def cint(P, i):
    v = P.uins[i]
    return P.vm.concretize(v) if type(v) is SymI else v


def code(P, want, what):
    c = P.int()
    P.expect(c in want, '%s: result %s, expected %s' % (what, ERRS.get(c, c), [ERRS[x] for x in want]))
    return c if c in want else None


def dft_at(P, n, inv, p, base, what, interleaved=True, only=None):
    """next 2n outputs are the transform of the n complex inputs at base"""
    W = dft(n, bool(inv))
    tol = tol_of(n, p) / (n if inv else 1)
    order = [(k, q) for k in range(n) for q in (0, 1)] if interleaved else [(k, 0) for k in range(n)] + [(k, 1) for k in range(n)]
    for k, q in order:
        d = {}
        for t in range(n):
            jr, ji = (base + 2 * t, base + 2 * t + 1) if interleaved else (base + t, base + n + t)
            w = W[k, t]
            d[jr], d[ji] = (w.imag, w.real) if q else (w.real, -w.imag)
        P.lin(d, 0.0, tol, '%s %d' % (what, k))


def split_spec(e, n, p, planned):
    def f(P):
        la, lb = cint(P, 0), cint(P, 1)
        if la != lb or (planned and la != n):
            code(P, (3,), 'real part of %d, imaginary part of %d samples' % (la, lb))
            return
        if la == 0:
            code(P, (1,), 'empty split data')
            return
        if code(P, (0,), 'split data of %d samples' % la) == 0:
            dft_at(P, la, e & 1, p, 0, 'split', False)
    return f


def oop_spec(e, n, p, planned):
    def f(P):
        la, lb = cint(P, 0), cint(P, 1)
        if la != lb or (planned and la != n):
            code(P, (3,), 'input of %d, output of %d samples' % (la, lb))
            return
        if la == 0:
            code(P, (1,), 'empty data')
            return
        if code(P, (0,), 'data of %d samples' % la) == 0:
            dft_at(P, la, e & 1, p, 0, 'output')
    return f


def plan_spec(n, inv, p):
    def f(P):
        la = cint(P, 0)
        if la != n:
            code(P, (3,), 'plan for %d given %d samples' % (n, la))
            for i in range(2 * la):
                P.lin({i: 1.0}, 0.0, 0.0, 'rejected data')
        elif n == 0:
            code(P, (1,), 'empty data')
        elif code(P, (0,), 'plan for %d' % n) == 0:
            dft_at(P, n, inv, p, 0, 'output')
    return f


def empty_spec(e):
    def f(P):
        c = P.int()
        ok = (1, 99) if e not in (9, 20, 23, 40) else (0, 1, 99)
        P.expect(c in ok, 'entry point %d on empty data: result %s' % (e, ERRS.get(c, c)))
    return f


def rows_spec(e, m):
    def f(P):
        ns = [cint(P, i) for i in range(m)]
        if 0 in ns:
            code(P, (1,), 'batch with an empty row')
            return
        if code(P, (0,), 'batch of rows %s' % ns) == 0:
            base = 0
            for n in ns:
                dft_at(P, n, e & 1, 32, base, 'row of %d' % n)
                base += 2 * n
    return f


def tab_spec(n):
    def f(P):
        m = cint(P, 0)
        if n == 0:
            code(P, (1,), 'empty data')
            return
        c = code(P, (0, 2, 3) if m != n else (0,), 'table of size %d for %d samples' % (m, n))
        if c == 0:
            dft_at(P, n, 0, 32, 0, 'output')
    return f


def build(ck):
    top = 5 if not ck.thorough else 9
    for p in (32, 64):
        for e in range(8):
            for n in ((0,) if e < 6 else (0, 1, 4, 5)):
                ck.add('std', 'split%d' % p, (e, n), split_spec(e, n, p, e >= 6), ints=[(0, top), (0, top)], weight=3)
        for e in range(10):
            for n in ((0,) if e < 4 else (0, 1, 4, 5)):
                ck.add('std', 'oop%d' % p, (e, n), oop_spec(e, n, p, e >= 4), ints=[(0, top), (0, top)], weight=3)
        for n in range(top + 1):
            for st in range(4):
                for inv in (0, 1):
                    ck.add('std', 'plan%d' % p, (n, st, inv), plan_spec(n, inv, p), ints=[(0, top)])
        for e in range(44):
            for inv in (0, 1):
                for cfg in ('all', 'nostd'):
                    ck.add(cfg, 'empty%d' % p, (e, inv), empty_spec(e))
    for e in range(4):
        for m in (0, 1, 2, 3):
            ck.add('std', 'rows', (e, m), rows_spec(e, m), ints=[(0, 3)] * m, weight=5)
        for n in (0, 1, 4):
            ck.add('std', 'cvec', (e, n), split_spec(e, n, 32, e >= 2), ints=[(0, top), (0, top)], weight=3)
    for e in range(3):
        for n in range(0, 10):
            ck.add('std', 'tab', (e, n), tab_spec(n), ints=[(0, 9)], weight=2)
    from checks.C05 import errs
    errs(ck)
    ck.bounds.append('every pair of lengths 0..%d per routine, rows 0..3 of 0..3 samples, table sizes 0..9' % top)


if __name__ == '__main__':
    ck = Check('C07', ['fft', 'stride', 'err'])
    build(ck)
    sys.exit(ck.run())
