from checks.trigspec import *
from engine.core import fn, fmax, fmin

F = lambda v: float(np.float32(v))


def db_spec(lo):
    """decibels of a positive magnitude: 20 log10(m / max), not below the floor"""
    def f(P):
        m, x, fl = P.xs()[:3]
        P.same_x(P.xout(P.take()), fmax(fn('log10', m / x) * 20.0, fl), 2e-4, 'decibels')
    return f


def db2_spec(P):
    m, k, x, fl = P.xs()[:4]
    a, b = P.take(), P.take()
    P.le_x(fl, P.xout(a), 1e-4, 'decibels below the floor')
    if P.given(k - m):
        P.le_x(P.xout(a), P.xout(b), 2e-4, 'a larger magnitude has fewer decibels')


def floor_spec(P):
    P.same_x(P.xout(P.take()), P.xs()[2], 0.0, 'decibels of nothing')


def scale_spec(lo):
    def f(P):
        m, x, r = P.xs()[:3]
        i = P.take()
        P.le_x(0.0, P.xout(i), 1e-6, 'scaled value is negative')
        P.le_x(P.xout(i), 1.0, 1e-6, 'scaled value exceeds 1')
        P.same_x(P.xout(i), fmin(1.0, fmax(0.0, fn('log10', m / x) * 20.0 / r + 1.0)), 2e-4 / 20 + 1e-5, 'scaled value')
    return f


def scale2_spec(P):
    m, k, x, r = P.xs()[:4]
    a, b = P.take(), P.take()
    for i in (a, b):
        P.le_x(0.0, P.xout(i), 1e-6, 'scaled value is negative')
        P.le_x(P.xout(i), 1.0, 1e-6, 'scaled value exceeds 1')
    if P.given(k - m):
        P.le_x(P.xout(a), P.xout(b), 2e-5, 'a larger magnitude has a smaller value')


def one_spec(P):
    P.same_x(P.xout(P.take()), 1.0, 1e-5, 'scaled reference maximum')
    P.same_x(P.xout(P.take()), 0.0, 1e-5, 'decibels of the reference maximum')


def const_spec(v):
    def f(P):
        P.same_x(P.xout(P.take()), v, 0.0 if v in (0.0, 1.0) else 1e-6, 'value')
    return f


def build(ck):
    for cfg in ('all', 'std'):
        for xb in ((1.0, 1.0), (0.37, 0.37), (1000.0, 1000.0), (0.5, 2.0), (20.0, 50.0), (1e-4, 1e-4), (1e-7, 1e-7), (3e-12, 3e-12), (1e-20, 1e-20), (1e-28, 1e-28), (1e6, 1e6), (7e12, 7e12), (1e30, 1e30)):
            xc = xb[0] == xb[1]
            for d in range(-9, 3) if 1e-3 < xb[0] < 2e3 else (-7, -3, -1, 0):
                lo, hi = F(10.0 ** d * xb[0]), F(10.0 ** (d + 1) * xb[0])
                for fl in (-120.0, -60.0, -35.5, 0.0) if 1e-3 < xb[0] < 2e3 else (-120.0, -60.0):
                    box = lambda i, v=((lo, hi), xb, fl), xc=xc: (F(v[1][0]) if xc else v[1]) if i == 1 else v[i]
                    ck.add(cfg, 'mdb', (), db_spec(lo), box=box, key='magnitude_to_db of [%g, %g] against %s floor %g @%s' % (lo, hi, xb, fl, cfg))
                for r in (120.0, 60.0, 35.5, 200.0) if 1e-3 < xb[0] < 2e3 else (120.0, 60.0):
                    box = lambda i, v=((lo, hi), xb, r), xc=xc: (F(v[1][0]) if xc else v[1]) if i == 1 else v[i]
                    ck.add(cfg, 'dbs', (), scale_spec(lo), box=box, key='db_scale of [%g, %g] against %s range %g @%s' % (lo, hi, xb, r, cfg))
            for lo, hi in () if not xc else ((1e-6, 1e-4), (0.001, 0.1), (0.1, 1.0), (0.9, 1.5), (1.0, 100.0)):
                for q in (120.0, 60.0, 10.0):
                    b = lambda s: lambda i, v=((F(lo * xb[0]), F(hi * xb[1])), (F(lo * xb[0]), F(hi * xb[1])), xb, s * q), xc=xc: (F(v[2][0]) if xc else v[2]) if i == 2 else v[i]
                    ck.add(cfg, 'mdb2', (), db2_spec, box=b(-1), key='magnitude_to_db of pairs of [%g, %g] against %s floor %g @%s' % (lo, hi, xb, -q, cfg))
                    ck.add(cfg, 'dbs2', (), scale2_spec, box=b(1), key='db_scale of pairs of [%g, %g] against %s range %g @%s' % (lo, hi, xb, q, cfg))
        for lo, hi in ((1e-6, 1e-3), (0.1, 1.0), (0.5, 2.0), (10.0, 1e4), (1e-9, 1e-6), (1e-15, 1e-9), (1e-25, 1e-15), (1e-36, 1e-25), (1e4, 1e8), (1e8, 1e20), (1e20, 1e37)):
            for r in (120.0, 60.0, 7.5):
                ck.add(cfg, 'dbs1', (), one_spec, box=lambda i, v=((F(lo), F(hi)), r): v[i], key='reference maximum of [%g, %g] range %g @%s' % (lo, hi, r, cfg))
        for x in (1.0, 0.37, 1000.0):
            for r in (120.0, 60.0, 35.5):
                for b in ((0.0, F(x * 10 ** (-r / 20) * 0.99)), (-5.0, -0.01), (-0.01, -1e-4), (-1e-6, 0.0), (-F(x * 1e-6), F(x * 10 ** (-r / 20) * 0.9))):
                    ck.add(cfg, 'dbs', (), const_spec(0.0), box=lambda i, v=(b, F(x), r): v[i], key='db_scale of [%g, %g] (below the range) against %g range %g @%s' % (b + (x, r, cfg)))
                for b in ((x, 1.5 * x), (F(2 * x), F(30 * x)), (F(30 * x), F(5e3 * x))):
                    ck.add(cfg, 'dbs', (), const_spec(1.0) if b[0] > x else scale_spec(0), box=lambda i, v=((F(b[0]), b[1]), F(x), r): v[i], key='db_scale of [%g, %g] (above the maximum) against %g range %g @%s' % (b + (x, r, cfg)))
                for m in (0.0, -0.0, -1.0, 1e-45, x, 5 * x):
                    ck.add(cfg, 'dbs', (), const_spec(1.0 if m >= x else 0.0), box=lambda i, v=(F(m), F(x), r): v[i], key='db_scale of %r against %g range %g @%s' % (m, x, r, cfg))
                for b in ((-5.0, 0.0), 0.0):
                    ck.add(cfg, 'mdb', (), floor_spec, box=lambda i, v=(b, F(x), -r): v[i], key='magnitude_to_db of %r against %g floor %g @%s' % (b, x, -r, cfg))
                    ck.add(cfg, 'mdb', (), floor_spec, box=lambda i, v=((0.0, 5.0), b, -r): v[i], key='magnitude_to_db against a maximum of %r (%g) floor %g @%s' % (b, x, -r, cfg))
                ck.add(cfg, 'dbs', (), const_spec(0.0), box=lambda i, v=(0.0, 0.0, r): v[i], key='db_scale of 0 against 0 range %g (%g) @%s' % (r, x, cfg))
    ck.bounds.append('reference maxima 1, 0.37, 1000, eight further ones from 1e-28 to 1e30 and every value in [0.5, 2] and [20, 50] (the maximum itself: every value from 1e-36 to 1e37); magnitudes from 1e-9 to 1e3 of them in boxes of a decade, pairs over up to two decades; every magnitude below the range, zero, negative; ranges and floors 0 to 200 dB; agreement with 20 log10 up to 2e-4 dB; monotone up to 2e-5 of the scale')


if __name__ == '__main__':
    ck = Check('C31', ['vis'])
    build(ck)
    sys.exit(ck.run())
