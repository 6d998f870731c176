from checks.trigspec import *
from engine.core import fn

NAMES = ['hann', 'hamming', 'blackman', 'bartlett', 'bohman', 'nuttall', 'tukey', 'kaiser']
pi = math.pi


def i0(x):
    s = t = 1.0
    k = 1
    while t > s * 1e-18:
        t *= x * x / 4 / (k * k)
        s += t
        k += 1
    return s


def value(kind, i, n, par):
    if kind == 0:
        return 0.5 - 0.5 * cosd(2 * i, n)
    if kind == 1:
        return 0.54 - 0.46 * cosd(2 * i, n)
    if kind == 2:
        return 0.42 - 0.5 * cosd(2 * i, n) + 0.08 * cosd(4 * i, n)
    if n == 1:
        return 1.0
    x = 2.0 * i / (n - 1) - 1
    if kind == 3:
        return 1 - abs(x)
    if kind == 4:
        return (1 - abs(x)) * math.cos(pi * x) + math.sin(pi * abs(x)) / pi
    if kind == 5:
        return 0.355768 - 0.487396 * cosd(2 * i, n - 1) + 0.144232 * cosd(4 * i, n - 1) - 0.012604 * cosd(6 * i, n - 1)
    if kind == 6:
        a = min(max(par, 0.0), 1.0)
        j = min(i, n - 1 - i)
        if j < a * (n - 1) / 2:
            return 0.5 * (1 + math.cos(pi * (2 * j / (a * (n - 1)) - 1)))
        return 1.0
    return i0(par * math.sqrt(max(0.0, 1 - x * x))) / i0(par)


def spec(kind, n, par=None, tol=2e-6):
    def f(P):
        P.expect_int(n, 'length')
        P.expect(len(P.outs) == n + 1, 'one value per sample')
        for i in range(n):
            P.lin({}, value(kind, i, n, par), tol, '%s(%d)[%d]' % (NAMES[kind], n, i))
    return f


def tukey_spec(n, c, tol):
    """shape parameter symbolic between 2c/(n-1) and 2(c+1)/(n-1): samples up to c from an end are tapered, the others are 1"""
    def f(P):
        P.expect_int(n, 'length')
        a = P.xs()[0]
        for i in range(n):
            j = min(i, n - 1 - i)
            v = P.xout(P.take())
            ref = 0.5 * (1.0 + fn('cos', (2.0 * j / (a * float(n - 1)) - 1.0) * pi)) if j <= c else 1.0
            P.same_x(v, ref, tol, 'tukey(%d)[%d]' % (n, i))
    return f


def build(ck):
    NS = list(range(0, 66)) + [100, 127, 128, 255, 256, 500, 512, 1000, 1024] + ([2048, 4096, 4097, 10000] if ck.thorough else [2047, 2048])
    for cfg in ('all', 'nostd'):
        for n in NS:
            for kind in range(6):
                ck.add(cfg, 'win', (kind, n), spec(kind, n), key='%s(%d) @%s' % (NAMES[kind], n, cfg))
            for al in (-1.0, 0.0, 0.1, 0.25, 0.3, 0.5, 0.7, 0.999, 1.0, 2.5):
                x = struct.unpack('f', struct.pack('f', al))[0]
                ck.add(cfg, 'win', (6, n), spec(6, n, x, 2e-6 * (1 + n / 16)), box=lambda i, x=x: x, key='tukey(%d, %g) @%s' % (n, al, cfg))
            for be in (0.0, 0.5, 2.0, 5.0, 8.6, 14.0, 20.0, 25.0, 40.0, 80.0):
                x = struct.unpack('f', struct.pack('f', be))[0]
                ck.add(cfg, 'win', (7, n), spec(7, n, x, 4e-6 * (1 + be / 4)), box=lambda i, x=x: x, key='kaiser(%d, %g) @%s' % (n, be, cfg))
        for n in range(2, 25):
            for c in range(0, (n + 1) // 2):
                lo, hi = max(2.0 * c / (n - 1), 0.05) + 1e-3, min(1.0, 2.0 * (c + 1) / (n - 1)) - 1e-3
                if lo < hi:
                    ck.add(cfg, 'win', (6, n), tukey_spec(n, c, 2e-5 + 1e-5 / lo), box=(lo, hi), key='tukey(%d, alpha in [%g, %g]) @%s' % (n, lo, hi, cfg), weight=99)
        for kind in range(3):
            for n in (0, 1, 2, 3, 5, 8, 12, 31, 64, 256):
                ck.add(cfg, 'wst', (kind, n), spec(kind, n), key='%s stack(%d) @%s' % (NAMES[kind], n, cfg))
    ck.bounds.append('every length 0..65 and %s; Tukey with ten shape parameters and, up to length 24, every one between 0.05 and 1 that is not within 1e-3 of a value at which another sample joins the taper; Kaiser with ten shape parameters' % NS[66:])


if __name__ == '__main__':
    ck = Check('C23', ['win'])
    build(ck)
    sys.exit(ck.run())
