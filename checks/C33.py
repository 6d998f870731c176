from checks.trigspec import *
from engine.core import fn


def pair_spec(m):
    """pixels of two bins x < y"""
    def f(P):
        a, b = P.take(), P.take()
        x, y = P.iin(0), P.iin(1)
        L = math.log(m + 1)
        for v, i in ((x, a), (y, b)):
            p = P.iout(i)
            P.le_x(p, float(m), 0.5, 'pixel outside the axis')
            ref = fn('log', v + 1.0) * (m / L)
            P.le_x(p, ref, 2e-6 * m + 1e-6, 'pixel above the logarithmic position')
            P.le_x(ref, p + 1.0, 2e-6 * m + 1e-6, 'pixel below the logarithmic position')
        if P.given(y - x - 1.0):
            P.le_x(P.iout(a), P.iout(b), 0.5, 'a higher bin maps to a lower pixel')
    return f


def end_spec(P):
    a, b = P.take(), P.take()
    P.same_x(P.iout(a), P.iin(0), 0.5, 'pixel of the last bin')
    P.expect_eqi(P.outs[b][1], 0, 'pixel of bin 0')


def point_spec(v):
    def f(P):
        P.expect_int(v, 'pixel')
    return f


def avg_spec(n, m):
    def f(P):
        px = [P.int() for _ in range(m + 1)]
        for b, p in enumerate(px):
            P.expect(p <= m, 'pixel %d of bin %d' % (p, b))
            P.expect(b == 0 or px[b - 1] <= p, 'pixels decrease at bin %d' % b)
        P.expect(px[0] == 0 and px[m] == m, 'ends of the axis map to %d and %d' % (px[0], px[m]))
        P.expect_int(m + 1, 'pixels')
        for p in range(m + 1):
            g = [b for b in range(min(n, m + 1)) if px[b] == p]
            P.lin({b: 1.0 / len(g) for b in g}, 0.0, 1e-6 * (1 + len(g)), 'pixel %d' % p)
    return f


def build(ck):
    sizes = [1, 2, 3, 7, 8, 15, 16, 25, 31, 63, 100, 127, 128, 255, 256, 511, 512, 1023] + ([2047, 4095] if ck.thorough else [])
    for cfg in ('all', 'std'):
        for m in sizes:
            ck.add(cfg, 'b2p', (m,), pair_spec(m), ints=[(0, m), (0, m)], link=True, weight=m, key='pixels of bins of an axis of %d @%s' % (m, cfg))
        for lo, hi in ((1, 64), (65, 1024), (1025, 1 << 16), (1 << 16, 1 << 22)):
            ck.add(cfg, 'b2pe', (), end_spec, ints=[(lo, hi)], link=True, key='ends of axes of %d to %d @%s' % (lo, hi, cfg))
        for m, b, v in ((0, 0, 0), (0, 5, 0), (15, 15, 15), (25, 25, 25), (114, 114, 114), (127, 127, 127), (255, 255, 255), (1023, 1023, 1023), (350, 350, 350)):
            ck.add(cfg, 'b2pc', (m, b), point_spec(v), key='pixel of bin %d of an axis of %d @%s' % (b, m, cfg))
        for m in (0, 1, 2, 3, 4, 7, 8, 15, 16, 25, 31, 32, 63, 64, 100, 127):
            for n in sorted({0, 1, m // 2, m, m + 1, m + 2, m + 9}):
                ck.add(cfg, 'lsb', (n, m), avg_spec(n, m), weight=m, key='log_scale_bins(%d values, axis of %d) @%s' % (n, m, cfg))
    ck.bounds.append('axis lengths %s with every pair of bins on them; both ends of the axis for every length up to 2^22; binning of every value in [-1, 1] at axis lengths 0 to 127 with fewer, exactly enough and more values than bins' % sizes)


if __name__ == '__main__':
    ck = Check('C33', ['vis'])
    build(ck)
    sys.exit(ck.run())
