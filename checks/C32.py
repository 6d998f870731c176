from checks.trigspec import *
from engine.core import fn, X

FIRE = [(0.0, (0, 0, 0)), (0.25, (128, 0, 128)), (0.5, (255, 165, 0)), (0.75, (255, 255, 0)), (1.0, (255, 255, 255))]
RAINBOW = [(0.0, (0, 0, 0)), (0.25, (0, 0, 255)), (0.5, (0, 255, 255)), (0.75, (255, 255, 0)), (0.9, (255, 0, 0)), (1.0, (255, 255, 255))]
LEGACY = [(0.0, (64, 0, 64)), (1.0, (255, 255, 224))]
GRAY = [(0.0, (0, 0, 0)), (1.0, (255, 255, 255))]
MAPS = {0: ('Fire', FIRE), 1: ('Legacy', LEGACY), 2: ('Gray', GRAY), 3: ('Viridis', None), 4: ('Plasma', None), 5: ('Inferno', None), 6: ('Rainbow', RAINBOW)}


def colour(stops, t, seg=None):
    """the piecewise linear colour at t; seg: the interval t is known to lie in"""
    for (a, c), (b, d) in zip(stops, stops[1:]):
        if (seg[0] >= a and seg[1] <= b) if seg else (a <= t <= b):
            return [x + (y - x) * ((t - a) * (1 / (b - a))) for x, y in zip(c, d)]


def near(P, ref, wide, what, tol=1.001):
    for ch, r in zip('rgb', ref):
        i = P.take()
        P.same_x(P.iout(i) * (1 / 257) if wide else P.iout(i), r, tol, '%s: %s' % (what, ch))


def exact(P, ref, wide, what):
    for ch, r in zip('rgb', ref):
        P.expect_int(int(r) * (257 if wide else 1), '%s: %s' % (what, ch))


def seg_spec(stops, seg, wide):
    def f(P):
        t = P.xs()[0]
        if seg[1] <= 0:
            return exact(P, stops[0][1], wide, 'below 0')
        if seg[0] >= 1:
            return exact(P, stops[-1][1], wide, 'above 1')
        near(P, colour(stops, t, seg), wide, 'colour')
    return f


def point_spec(stops, t, wide):
    def f(P):
        near(P, colour(stops, min(max(float(np.float32(t)), 0.0), 1.0)), wide, 'colour at %g' % t)
    return f


def stop_spec(c, wide):
    def f(P):
        exact(P, c, wide, 'colour of the stop')
    return f


def grad_spec(P):
    a = [P.take() for _ in range(6)]
    for k in range(3):
        P.expect_eqi(P.outs[a[k]][1], P.outs[a[k + 3]][1], 'palette channel %d' % k)


def mono_spec(wide):
    """grey values do not decrease with the intensity"""
    def f(P):
        x, y = P.xs()[:2]
        a = [P.take() for _ in range(6)]
        if P.given(y - x - 1e-6):
            for k in range(3):
                P.le_x(P.iout(a[k]), P.iout(a[k + 3]), 0.5, 'grey channel %d decreases' % k)
    return f


def any_spec(P):
    P.expect(len(P.outs) == 3, 'no colour')


def mag_spec(stops, seg, floor, wide):
    def f(P):
        m, x = P.xs()[:2]
        t = 1.0 - fn('log10', m / x) * (20.0 / floor)
        near(P, colour(stops, t, seg), wide, 'colour of the magnitude', 1.02)
    return f


def name_spec(n):
    def f(P):
        got = P.rawint()
        got = got.e if type(got) is SymI else z3.BitVecVal(got, 64)
        low = [z3.If(z3.And(z3.UGE(b, 65), z3.ULE(b, 90)), b + 32, b) for b in map(P.ubv, range(n))]
        is_ = {c: z3.And(*[b == ord(x) for b, x in zip(low, name.lower())]) for c, (name, _) in MAPS.items() if len(name) == n}
        for c, e in is_.items():
            P.must(z3.Implies(e, got == c), 'palette called ' + MAPS[c][0])
        P.must(z3.Or(got == 0, *[z3.And(e, got == c) for c, e in is_.items()]), 'other names select the default palette')
    return f


def build(ck):
    for cfg in ('all', 'std'):
        for n in range(0, 10 if ck.thorough else 9):
            ck.add(cfg, 'cmps', (n,), name_spec(n), ints=[(0, 127)] * n, max_paths=20000, key='palette name of %d characters @%s' % (n, cfg))
    ck.bounds.append('palette names: every ASCII text of up to 8 characters')
    segs = {0: FIRE, 1: LEGACY, 2: GRAY, 6: RAINBOW}
    for cfg in ('all', 'std'):
        for c, (name, stops) in MAPS.items():
            for wide in (0, 1):
                T = 'u16' if wide else 'u8'
                if stops:
                    for (a, _), (b, _) in zip(stops, stops[1:]):
                        lo, hi = float(np.nextafter(np.float32(a), np.float32(2))) if a else 0.0, float(np.float32(b))
                        if hi > b:
                            hi = float(np.nextafter(np.float32(b), np.float32(0)))
                        if lo < a:
                            lo = float(np.nextafter(np.float32(lo), np.float32(2)))
                        ck.add(cfg, 'col', (c, wide), seg_spec(stops, (lo, hi), wide), box=(lo, hi), link=True, key='%s %s of [%g, %g] @%s' % (name, T, a, b, cfg))
                    for a, col in stops:
                        ck.add(cfg, 'col', (c, wide), stop_spec(col, wide) if a in (0.0, 0.25, 0.5, 0.75, 1.0) else point_spec(stops, a, wide), box=lambda i, a=a: float(np.float32(a)), key='%s %s at stop %g @%s' % (name, T, a, cfg))
                    for lo, hi in ((-3e38, 0.0), (1.0, 3e38)):
                        ck.add(cfg, 'col', (c, wide), seg_spec(stops, (lo, hi), wide), box=(lo, hi), link=True, key='%s %s of [%g, %g] @%s' % (name, T, lo, hi, cfg))
                    for v, col in ((float('inf'), stops[-1][1]), (float('-inf'), stops[0][1])):
                        ck.add(cfg, 'col', (c, wide), stop_spec(col, wide), box=lambda i, v=v: v, key='%s %s of %g @%s' % (name, T, v, cfg))
                else:
                    for lo, hi in ((0.0, 0.01), (0.01, 0.5), (0.5, 0.99), (0.99, 1.0), (-3e38, 0.0), (1.0, 3e38)):
                        lo, hi = float(np.float32(lo)), float(np.float32(hi))
                        ck.add(cfg, 'col', (c, wide, 1), grad_spec, box=(lo, hi), link=True, key='%s %s of [%g, %g] @%s' % (name, T, lo, hi, cfg))
                    for v in (float('inf'), float('-inf'), 0.0, 1.0):
                        ck.add(cfg, 'col', (c, wide, 1), grad_spec, box=lambda i, v=v: v, key='%s %s of %g @%s' % (name, T, v, cfg))
        for wide in (0, 1):
            for lo, hi in ((0.0, 1.0), (-2.0, 3.0), (0.4, 0.41)):
                ck.add(cfg, 'col2', (2, wide), mono_spec(wide), box=(lo, hi), link=True, key='Gray monotone on [%g, %g] wide %d @%s' % (lo, hi, wide, cfg))
            for c in range(7):
                ck.add(cfg, 'col', (c, wide), any_spec, box=lambda i: float('nan'), key='map %d of NaN wide %d @%s' % (c, wide, cfg))
            for c, stops in segs.items():
                for floor in (-120.0, -60.0, -20.0):
                    for (a, ca), (b, cb) in zip(stops, stops[1:]):
                        # pieces of the segment that span at most a decade of magnitude
                        k = math.ceil((b - a) * -floor / 20)
                        for p in range(k):
                            l, h = a + (b - a) * p / k, a + (b - a) * (p + 1) / k
                            e = (h - l) * 1e-3
                            m = tuple(float(np.float32(10 ** ((t - 1) * -floor / 20))) for t in (l + e, h - e))
                            for x in (1.0, 0.37):
                                box = lambda i, v=((m[0] * x, m[1] * x), x, floor): tuple(map(lambda z: float(np.float32(z)), v[i])) if i == 0 else float(np.float32(v[i]))
                                ck.add(cfg, 'cfm', (c, wide), mag_spec(stops, (a, b), floor, wide), box=box, link=True, key='%s of magnitudes %g..%g of %g, floor %g wide %d @%s' % (MAPS[c][0], m[0] * x, m[1] * x, x, floor, wide, cfg))
                    for m, x, col in ((0.0, 1.0, stops[0][1]), (-1.0, 1.0, stops[0][1]), (1.0, 0.0, stops[0][1]), (1.0, -1.0, stops[0][1]), (1e-30, 1.0, stops[0][1]), (1.0, 1.0, stops[-1][1]), (0.37, 0.37, stops[-1][1]), (5.0, 1.0, stops[-1][1])):
                        ck.add(cfg, 'cfm', (c, wide), stop_spec(col, wide), box=lambda i, v=(m, x, floor): float(np.float32(v[i])), key='%s of magnitude %g of %g, floor %g wide %d @%s' % (MAPS[c][0], m, x, floor, wide, cfg))
    ck.bounds.append('colours of magnitudes: floors -120, -60 and -20 dB, reference maxima 1 and 0.37, every magnitude from the floor to the maximum except within a thousandth of a decade piece of its ends; grey scale monotone for every pair of intensities in [-2, 3] that lie at least 1e-6 apart')
    ck.bounds.append('every single-precision intensity in [-3e38, 3e38] and both infinities, for each of the seven palettes in 8 and 16 bits; piecewise linear palettes within one step of the exact gradient and exact at the stops; Viridis, Plasma and Inferno against the gradients of the colorous crate')


if __name__ == '__main__':
    ck = Check('C32', ['vis'])
    build(ck)
    sys.exit(ck.run())
