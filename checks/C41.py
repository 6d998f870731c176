import numpy as np
from checks.stftspec import *
from checks.realspec import cint

EPS = {0: 2.0 ** -23, 1: 2.0 ** -52}
NAME = ('f32', 'f64')


def table(P, n, ty, what, direct=False):
    """the next outputs are a table of n / 2 rotations exp(-2 pi i k / n)"""
    P.expect_int(n // 2, '%s: length of the table of size %d' % (what, n))
    for k in range(n // 2):
        w = unit(k, n)
        for v, part in ((w.real, 're'), (w.imag, 'im')):
            P.lin({}, v, (32 if direct else 2 * k + 8) * EPS[ty], '%s: entry %d of the table of size %d, %s' % (what, k, n, part))


def pair_spec(n, m, ty):
    def f(P):
        if m:
            table(P, m, ty, 'first request')
        table(P, n, ty, 'request after %d' % m if m else 'request')
        table(P, n, ty, 'repeated request')
    return f


def history_spec(k, ty):
    def f(P):
        for i in range(k):
            table(P, cint(P, i), ty, 'request %d' % i)
    return f


def chirp(n):
    return np.array([unit(-((i * i) % (2 * n)), 2 * n) for i in range(n)])


def blue_spec(n, m, ty):
    def f(P):
        for s in (m, n, n):
            if not s:
                continue
            M = 1
            while M < 2 * s - 1:
                M *= 2
            c = chirp(s)
            P.expect_int(s, 'chirp length')
            for i in range(s):
                P.lin({}, c[i].real, 32 * EPS[ty], 'chirp %d of length %d, re' % (i, s))
                P.lin({}, -c[i].imag, 32 * EPS[ty], 'chirp %d of length %d, im' % (i, s))
            b = np.zeros(M, complex)
            b[:s] = c
            for i in range(1, s):
                b[M - i] = c[i]
            B = np.fft.fft(b)
            P.expect_int(M, 'convolution length')
            tol = EPS[ty] * (64 + 16 * s)
            for i in range(M):
                P.lin({}, B[i].real, tol, 'kernel spectrum %d of length %d, re' % (i, s))
                P.lin({}, B[i].imag, tol, 'kernel spectrum %d of length %d, im' % (i, s))
    return f


def tfb_spec(n):
    def f(P):
        P.expect_int(n, 'size')
        table(P, n, 0, 'TwiddleFactorBuffer', True)
    return f


def tfg_spec(n):
    def f(P):
        w = unit(cint(P, 0), n)
        P.lin({}, w.real, 32 * EPS[0], 'entry, re')
        P.lin({}, w.imag, 32 * EPS[0], 'entry, im')
    return f


def strat_spec(n):
    def f(P):
        v = cint(P, 0) if n == 0 else n
        P.expect_int(2 if v > 1 and v & (v - 1) == 0 else 3, 'strategy for length %d' % v)
    return f


def build(ck):
    cfgs = ('all', 'std', 'pre', 'nostd', 'fma')
    top = 2048 if ck.thorough else 1024
    small = range(0, 100 if ck.thorough else 34)
    odd = (36, 45, 48, 49, 60, 96, 97, 100, 120, 127, 129, 180, 192, 250, 255, 257, 360, 384, 500, 511, 513, 768, 1000, 1023, 1025)
    pows = [1 << i for i in range(12 if ck.thorough else 11)] + ([2048] if not ck.thorough else [4096])
    sizes = sorted(set(small) | set(odd) | set(pows))
    for cfg in cfgs:
        for ty in (0, 1):
            for n in sizes:
                ck.add(cfg, 'tw', (ty, n, 0), pair_spec(n, 0, ty), weight=n, key='table of size %d, %s @%s' % (n, NAME[ty], cfg))
            for n, m in ((8, 4), (4, 8), (16, 2), (2, 16), (12, 8), (8, 12), (64, 32), (32, 64), (1024, 512), (512, 1024), (2048, 1024), (3, 5), (5, 3), (24, 48), (257, 256), (256, 257), (1, 2), (2, 1), (0, 2)):
                ck.add(cfg, 'tw', (ty, n, m), pair_spec(n, m, ty), weight=n + m, key='table of size %d after %d, %s @%s' % (n, m, NAME[ty], cfg))
            ck.add(cfg, 'twh', (ty, 2), history_spec(2, ty), ints=[(0, 20)] * 2, fork=True, weight=900, key='two requests, %s @%s' % (NAME[ty], cfg))
            ck.add(cfg, 'twh', (ty, 3), history_spec(3, ty), ints=[(1, 9 if ck.thorough else 6)] * 3, fork=True, weight=900, key='three requests, %s @%s' % (NAME[ty], cfg))
            if cfg != 'nostd':
                for n, m in [(n, 0) for n in list(range(1, 18)) + [23, 31, 33, 48, 64, 97, 100]] + [(3, 5), (5, 3), (7, 6), (6, 12), (12, 6)]:
                    ck.add(cfg, 'tbl', (ty, n, m), blue_spec(n, m, ty), weight=20 * n, key='Bluestein tables of length %d%s, %s @%s' % (n, ' after %d' % m if m else '', NAME[ty], cfg))
        if cfg != 'nostd':
            for n in sorted(set(range(0, 34)) | {48, 64, 97, 100, 128, 255, 256, 512, 1000, 1024}):
                ck.add(cfg, 'tfb', (n,), tfb_spec(n), weight=n, key='TwiddleFactorBuffer of size %d @%s' % (n, cfg))
            for n in (2, 3, 4, 5, 7, 8, 12, 16, 31, 32, 64, 100):
                ck.add(cfg, 'tfg', (n,), tfg_spec(n), ints=[(0, n // 2 - 1)], fork=True, weight=n, key='TwiddleFactorBuffer::get of size %d @%s' % (n, cfg))
        ck.add(cfg, 'tst', (0,), strat_spec(0), ints=[(0, 130)], fork=True, key='strategy, lengths to 130 @%s' % cfg)
        for n in (255, 256, 1023, 1024, 65536, 65537, 1 << 31, (1 << 31) + 1, 1 << 63, (1 << 63) - 1):
            ck.add(cfg, 'tst', (n,), strat_spec(n), key='strategy for length %d @%s' % (n, cfg))
    ck.bounds.append('planner tables of sizes %s in f32 and f64; pairs and triples of requests of one planner (all pairs of sizes 0 to 20, all triples of small sizes chosen by the solver); Bluestein tables of lengths 1 to 100; TwiddleFactorBuffer sizes 0 to 1024 with every index below size/2; strategy for every length to 130; builds %s' % (sizes, ', '.join(cfgs)))
    ck.assumptions.append('entries of a generated table may be off by (2 k + 8) units in the last place at index k (the recurrence adds one rounding per step)')


if __name__ == '__main__':
    ck = Check('C41', ['num'])
    build(ck)
    sys.exit(ck.run())
