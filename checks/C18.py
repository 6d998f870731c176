from checks.realspec import *

RATES = ((8000.0, 1000.0), (44100.0, 440.0), (1.0, 0.25), (48000.0, 12000.0), (16000.0, 7999.0), (1.0, 0.0), (22050.0, 11025.0), (8.0, 3.0), (10.0, 9.0))


def bins(n, sr, t):
    """bin nearest to the frequency; both neighbours when it lies half way between two"""
    x = float(np.float32(t)) * n / float(np.float32(sr))
    return {math.floor(x + 0.5 - 1e-4), math.floor(x + 0.5 + 1e-4)}


def spec(n, sr, t, live=None, tol=None):
    def f(P):
        c = P.int()
        if n == 0:
            return P.expect(c == 1, 'empty input: result %s' % ERRS.get(c, c))
        if not sr > 0:
            return P.expect(c == 6, 'sample rate %g: result %s' % (sr, ERRS.get(c, c)))
        if c:
            return P.bad('error %s' % ERRS.get(c, c))
        ks = bins(n, sr, t)
        if len(ks) > 1:
            return
        k = ks.pop()
        i = P.take()

        def power(x):
            re = im = 0.0
            for j in (range(n) if live is None else live):
                w = unit(k * j, n)
                re = re + x[2 + j] * w.real
                im = im + x[2 + j] * w.imag
            return re * re + im * im
        xs = P.xs()
        p = power(xs)
        P.fact(p)
        P.le_x(0.0, P.xout(i), 1e-9, 'magnitude is not negative')
        P.check_poly(i, power, tol or min(1.5e-5 * n ** 4 + 1e-5, 4e-6 * n ** 2 / max(abs(math.sin(2 * math.pi * k / n)), 0.5 / n) ** 4), 'power of bin %d' % k, square=True)
    return f


def build(ck):
    ns = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20] + ([24, 32] if ck.thorough else [])
    for cfg in ('all', 'nostd'):
        for n in ns:
            rates = list(RATES) + [(8000.0, float(np.float32(k * 8000.0 / n))) for k in range(n // 2 + 1)]
            for sr, t in rates:
                ck.add(cfg, 'goertzel', (n,), spec(n, sr, t), box=(lambda i, v=(sr, t): v[i] if i < 2 else (-1.0, 1.0)), weight=n * n, noise=True, key='goertzel(%d) %g of %g @%s' % (n, t, sr, cfg))
        for n in (64, 65, 100, 128, 200, 256, 512, 1000, 1024, 2048):
            for k in (n // 8, n // 4, n // 3, 2 * n // 5):
                for live in ([0, n // 2, n - 1], [n // 3], [n - 2, n - 1]):
                    t = float(np.float32(k * 8000.0 / n))
                    s = math.sin(2 * math.pi * k / n)
                    ck.add(cfg, 'goertzel', (n,), spec(n, 8000.0, t, live, 2e-5 * n / s ** 4), box=(lambda i, t=t, live=live: (8000.0, t)[i] if i < 2 else (-1.0, 1.0) if i - 2 in live else 0.0), weight=n, noise=True, key='goertzel(%d) %g of 8000, free samples %s @%s' % (n, t, live, cfg))
        for n, sr in ((0, 8000.0), (0, 0.0), (3, 0.0), (3, -1.0)):
            ck.add(cfg, 'goertzel', (n,), spec(n, sr, 100.0), box=(lambda i, v=(sr, 100.0): v[i] if i < 2 else (-1.0, 1.0)), key='goertzel(%d) rate %g @%s' % (n, sr, cfg))
    ck.bounds.append('lengths 64 to 2048 with one to three free samples, four bins away from 0 and n/2')
    ck.bounds.append('lengths %s, the frequencies of every bin k*rate/n and %d further (rate, frequency) pairs; samples in [-1, 1]; frequencies half way between two bins are not judged' % (ns, len(RATES)))


if __name__ == '__main__':
    ck = Check('C18', ['spec'])
    build(ck)
    sys.exit(ck.run())
