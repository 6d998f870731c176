from checks.realspec import *
from engine.core import fn


def spec(n, live, tol):
    """live: positions of samples that are not zero"""
    def f(P):
        c = P.int()
        if n == 0:
            return P.expect(c == 1, 'empty input: result %s' % ERRS.get(c, c))
        if n & (n - 1) and c == 2:
            return
        if c:
            return P.bad('length %d: error %s' % (n, ERRS.get(c, c)))
        P.expect(len(P.outs) == n + 1, 'output has the input length')
        xs = P.xs()
        L = []
        for k in range(n // 2 + 1):
            re = im = 0.0
            for j in live:
                w = unit(k * j, n)
                re = re + xs[j] * w.real
                im = im + xs[j] * w.imag
            L.append(fn('log', fn('sqrt', re * re + im * im) + 1e-12) if live else math.log(1e-12))
        for t in range(n):
            v = 0.0
            for k in range(n):
                v = v + L[min(k, n - k)] * (unit(k * t, n).real / n)
            i = P.take()
            P.same_x(P.xout(i), v, tol, 'cepstrum[%d]' % t)
    return f


def box(n, live, lo, hi):
    def b(i):
        if i == live[0]:
            return (lo, hi)
        return (-1.0, 1.0) if i in live else 0.0
    return b


def build(ck):
    ns = [1, 2, 4, 8, 16, 32] + ([64] if ck.thorough else [])
    for cfg in ('all', 'nostd'):
        for n in (0, 3, 5, 6, 7, 12):
            ck.add(cfg, 'cepst', (n,), spec(n, list(range(n)), 2e-4 if n <= 8 else 1e-3 if n == 16 else 3e-3), box=box(n, list(range(n)), n + 1.0, n + 2.0) if n else (-1.0, 1.0))
        for n in ns:
            ck.add(cfg, 'cepst', (n,), spec(n, [], 1e-4), box=(0.0, 0.0), key='cepst(%d) silence @%s' % (n, cfg))
            if n <= 16 or ck.thorough:
                for sg in (1, -1):
                    lo, hi = sorted((sg * (n + 1.0), sg * (n + 2.0)))
                    L = list(range(n))
                    for r in (0, n // 2, n - 1):
                        if r and r in (0, n):
                            continue
                        ck.add(cfg, 'cepst', (n,), spec(n, [r] + [i for i in L if i != r], 2e-4 if n <= 8 else 1e-3 if n == 16 else 3e-3), box=box(n, [r] + [i for i in L if i != r], lo, hi), weight=n ** 3, key='cepst(%d) sign %d at %d @%s' % (n, sg, r, cfg))
            for p in (range(n) if n <= 16 else range(0, n, 5)):
                ck.add(cfg, 'cepst', (n,), spec(n, [p], 2e-4 if n <= 8 else 1e-3 if n == 16 else 3e-3), box=box(n, [p], 0.5, 4.0), weight=n, key='cepst(%d) sample %d @%s' % (n, p, cfg))
                if p:
                    ck.add(cfg, 'cepst', (n,), spec(n, [0, p], 2e-4 if n <= 8 else 1e-3 if n == 16 else 3e-3), box=box(n, [0, p], 2.0, 3.0), weight=n, key='cepst(%d) samples 0 and %d @%s' % (n, p, cfg))
    for n in (64, 128, 256, 512):
        for p in (0, 3, n // 2, n - 1):
            ck.add('all', 'cepst', (n,), spec(n, [p], 3e-3), box=box(n, [p], 0.5, 4.0), weight=n, key='cepst(%d) sample %d' % (n, p))
        if n <= 256:
            for p in (n // 2,):
                ck.add('all', 'cepst', (n,), spec(n, [0, p], 3e-3), box=box(n, [0, p], 2.0, 3.0), weight=n * n, key='cepst(%d) samples 0 and %d' % (n, p))
    ck.bounds.append('lengths 64 to 512 with one or two non-zero samples')
    ck.bounds.append('lengths %s (others must be rejected); signals with one dominating sample (so that no bin of the spectrum vanishes), all other samples in [-1, 1]; single samples, pairs, silence. Signals whose spectrum has a bin near zero are outside the bounds: there the logarithm amplifies rounding without limit.' % (ns,))


if __name__ == '__main__':
    ck = Check('C19', ['spec'])
    build(ck)
    sys.exit(ck.run())
