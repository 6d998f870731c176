from checks.realspec import *
import cmath


def contours(n, m, thorough):
    f = lambda z: (float(np.float32(z.real)), float(np.float32(z.imag)))
    out = [('unit circle', unit(1, max(m, 1)), 1), ('zoom', unit(1, 64), unit(3, 40)), ('inverse direction', unit(-2, 11), unit(-1, 9)),
           ('spiral', 0.97 * unit(1, 16), 1.1 * unit(1, 7)), ('w=1', 1, 0.8), ('w real', -0.9, -1.25), ('a far', unit(1, 12), 2j), ('a near zero', unit(1, 9), 0.06 - 0.03j), ('a tiny', unit(2, 5), 0.004j), ('w small', 0.03 + 0.02j, unit(1, 5))]
    if thorough:
        out += [('growing', 1.05 * unit(1, 9), 0.9j), ('w=0', 0, 1), ('small a', unit(1, 8), 0.5 + 0.1j)]
    return [(nm, f(complex(w)), f(complex(a))) for nm, w, a in out]


def spec(n, m, w, a):
    def f(P):
        P.expect(len(P.outs) == 2 * m, '%d output bins' % m)
        W, A = complex(*w), complex(*a)
        for k in range(m):
            c = [A ** -t * W ** (t * k) for t in range(n)]
            g = max([1] + [abs(x) for x in c])
            for part in (0, 1):
                P.lin({4 + t: (c[t].real, c[t].imag)[part] for t in range(n)}, 0.0, 4e-6 * g * max(n, 2) * (m + n + 2), 'bin %d part %d' % (k, part))
    return f


def polyspec(n, m, a):
    """contour step free as well"""
    def f(P):
        xs = P.xs()
        A = complex(*a)
        for k in range(m):
            re, im = 0.0, 0.0
            pr, pi = 1.0, 0.0                      # w^(k t)
            wr, wi = 1.0, 0.0
            for _ in range(k):
                wr, wi = wr * xs[0] - wi * xs[1], wr * xs[1] + wi * xs[0]
            for t in range(n):
                c = A ** -t
                re = re + xs[4 + t] * (pr * c.real - pi * c.imag)
                im = im + xs[4 + t] * (pr * c.imag + pi * c.real)
                pr, pi = pr * wr - pi * wi, pr * wi + pi * wr
            for part, v in ((0, re), (1, im)):
                i = P.take()
                P.same_x(P.xout(i), v + xs[4] * 0.0, 2e-4, 'bin %d part %d' % (k, part))
    return f


def build(ck):
    pairs = [(0, 0), (0, 3), (1, 1), (1, 4), (2, 2), (3, 5), (4, 4), (5, 3), (8, 8), (7, 12), (16, 16), (16, 5), (24, 24), (13, 40)] + ([(32, 32), (33, 20), (48, 48)] if ck.thorough else [])
    for cfg in ('all', 'nostd'):
        for n, m in pairs:
            for nm, w, a in contours(n, m, ck.thorough):
                v = w + a
                if abs(complex(*a)) ** -n > 1e30 or abs(complex(*w)) ** (n * m) > 1e30:
                    continue                   # a power overflows single precision
                ck.add(cfg, 'czt', (n, m), spec(n, m, w, a), box=(lambda i, v=v: v[i] if i < 4 else (-1.0, 1.0)), weight=n * m, key='czt(%d,%d) %s @%s' % (n, m, nm, cfg))
        for n, m in ((1, 3), (2, 2), (2, 4), (3, 2), (3, 3), (4, 2)):
            for a in ((1.0, 0.0), (0.0, 1.0), (0.5, -0.75)):
                ck.add(cfg, 'czt', (n, m), polyspec(n, m, a), box=(lambda i, a=a: (-1.0, 1.0) if i < 2 or i > 3 else a[i - 2]), weight=50, key='czt(%d,%d) any w, a=%s @%s' % (n, m, a, cfg))
    ck.bounds.append('(inputs, bins) %s on the listed contours; every w in the unit square for up to 4 inputs and 4 bins; samples in [-1, 1]; a = 0 excluded (the contour is undefined), as are contours whose powers overflow single precision' % (pairs,))


if __name__ == '__main__':
    ck = Check('C17', ['spec'])
    build(ck)
    sys.exit(ck.run())
