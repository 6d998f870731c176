from checks.stftspec import *


def hann32(i, n):
    return f32(0.5 - 0.5 * cosd(2 * i, n))


def mag_spec(n, wl, hop, live=None):
    """magnitudes of the lower half of each frame's spectrum and their maximum; live: positions of the free samples"""
    def f(P):
        c = P.int()
        if hop == 0:
            return P.expect(c == 5, 'hop 0: result %s' % ERRS.get(c, c))
        if wl == 0 and c:
            return
        P.expect(c == 0, 'result %s' % ERRS.get(c, c))
        if c:
            return
        fr = -(-n // hop)
        P.expect_int(fr, 'frames')
        for t in range(fr):
            P.expect_int(wl // 2, 'bins of frame %d' % t)
        js = []
        for t in range(fr):
            for k in range(wl // 2):
                def power(x, t=t, k=k):
                    re = im = 0.0
                    for i in range(wl):
                        j = t * hop + i
                        if j < n and (live is None or j in live):
                            w = unit(i * k, wl)
                            h = 0.5 - 0.5 * cosd(2 * i, wl)
                            re = re + x[j] * (h * w.real)
                            im = im + x[j] * (h * w.imag)
                    return re * re + im * im
                i = P.take()
                js.append(i)
                P.fact(power(P.xs()))
                P.check_poly(i, power, 4 * ftol(wl) * wl, 'power of frame %d bin %d' % (t, k), square=True)
        m = P.take()
        for i in js:
            P.le_x(P.xout(i), P.xout(m), 5e-3, 'a magnitude exceeds the maximum')
        P.one_of(m, js, 5e-3, 'the maximum is none of the magnitudes', (0.0,) if not js or live is not None else ())
    return f


def build(ck):
    for cfg in ('all', 'std'):
        for n, wl, hop in ((1, 2, 1), (2, 2, 1), (3, 2, 1), (4, 2, 2), (5, 2, 3), (1, 4, 1), (2, 4, 1), (3, 4, 2), (4, 4, 4), (5, 4, 5), (6, 4, 3), (3, 6, 2), (4, 6, 6), (4, 8, 4), (8, 8, 8), (6, 5, 4), (3, 3, 1), (4, 3, 1), (5, 12, 5)):
            ck.add(cfg, 'smag', (n, wl, hop), mag_spec(n, wl, hop), weight=n * wl * hop, key='stft_magnitudes(n=%d, window %d, hop %d) @%s' % (n, wl, hop, cfg))
        for n, wl, hop, live in ((12, 4, 2, (5,)), (16, 8, 4, (6,)), (20, 8, 3, (10,)), (16, 16, 16, (3, 9)), (40, 16, 24, (20,)), (64, 32, 64, (13,)), (30, 10, 9, (12,)), (9, 4, 6, (1, 7)), (100, 64, 50, (77,))):
            ck.add(cfg, 'smag', (n, wl, hop), mag_spec(n, wl, hop, live), weight=n * wl, box=lambda i, live=live: (0.5, 1.0) if i in live else 0.0, key='stft_magnitudes(n=%d, window %d, hop %d), free samples %s @%s' % (n, wl, hop, live, cfg))
        for n, wl, hop in ((0, 4, 1), (0, 0, 1), (5, 1, 2), (0, 4, 0), (3, 4, 0), (3, 0, 2), (3, 0, 0), (0, 0, 0)):
            ck.add(cfg, 'smag', (n, wl, hop), mag_spec(n, wl, hop), key='stft_magnitudes(n=%d, window %d, hop %d) @%s' % (n, wl, hop, cfg))
    ck.bounds.append('signals of 0 to 8 samples, all free in [-1, 1], windows of 0 to 12, hops 0 to 8; signals of 9 to 100 samples with one or two free samples in [0.5, 1] and windows up to 64; the magnitudes are compared through their squares')


if __name__ == '__main__':
    ck = Check('C30', ['vis'])
    build(ck)
    sys.exit(ck.run())
