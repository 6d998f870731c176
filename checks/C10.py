from checks.realspec import *


def ferr_spec(v, p, inverse):
    def f(P):
        c = P.int()
        if c == 99:
            return
        a, b, s = cint(P, 0), cint(P, 1), cint(P, 2)
        n, bins = (b, a) if inverse else (a, b)
        scr = v in (1, 3, 4)
        what = 'signal %d, spectrum %d, scratch %d' % (n, bins, s)
        if n == 0:
            want = (1, 3) if bins != 1 else (1,)
        elif n % 2:
            want = (6, 3) if bins != n // 2 + 1 else (6,)
        elif bins != n // 2 + 1 or (scr and s < n // 2):
            want = (3,)
        else:
            want = (0,)
        P.expect(c in want, '%s: result %s, expected %s' % (what, ERRS.get(c, c), [ERRS[x] for x in want]))
        if c == 0 and want == (0,):
            if inverse:
                irfft_rows(P, n, range(bins), 0, rtol(n, p) * 4 / max(n, 4))
            else:
                rfft_rows(P, n, range(n), 0, rtol(n, p))
    return f


def stack_err(n, m):
    def f(P):
        c = P.int()
        if n == 0:
            want = (1,)
        elif m != n // 2 + 1:
            want = (3,)
        elif n & (n - 1):
            want = (2, 6)
        else:
            want = (0,) if n > 1 else (0, 6)
        P.expect(c in want, 'sizes %d, %d: result %s' % (n, m, ERRS.get(c, c)))
    return f


def build(ck):
    top = 6 if not ck.thorough else 9
    for cfg in ('std', 'x86'):
        for p in (32, 64):
            for v in range(7):
                if p == 64 and v >= 5:
                    continue
                sc = v in (1, 3, 4)
                ck.add(cfg, 'rferr%d' % p, (v,), ferr_spec(v, p, False), ints=[(0, top), (0, top // 2 + 2), (0, 4 if sc else 0)], weight=10)
                ck.add(cfg, 'rierr%d' % p, (v,), ferr_spec(v, p, True), ints=[(0, top // 2 + 2), (0, top), (0, 4 if sc else 0)], weight=10)
        for n, m in ((0, 1), (0, 0), (1, 1), (3, 2), (6, 4), (12, 7), (4, 2), (4, 4), (8, 8), (8, 4), (1, 0), (1, 2), (2, 1), (8, 5)):
            ck.add(cfg, 'rstack', (n, m), stack_err(n, m))
            ck.add(cfg, 'ristack', (n, m), stack_err(n, m))
    ck.bounds.append('signal lengths 0..%d, spectrum lengths 0..%d, scratch 0..4' % (top, top // 2 + 2))


if __name__ == '__main__':
    ck = Check('C10', ['real'])
    build(ck)
    sys.exit(ck.run())
