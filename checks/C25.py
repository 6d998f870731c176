from checks.stftspec import *


def istft_spec(name, wl, hop, frames, m, scratch=True):
    base = wl + (2 if scratch else 1) * m

    def f(P):
        c = P.int()
        P.expect(c == 0, 'result %s' % ERRS.get(c, c))
        if c:
            return
        for t, r in enumerate(ola(name, wl, hop, frames, m, base, P)):
            ola_check(P, name, wl, r, 'output %d' % t)
    return f


def ifr_spec(name, wl, start, m):
    base = wl + m

    def f(P):
        c = P.int()
        P.expect(c == 0, 'result %s' % ERRS.get(c, c))
        if c:
            return
        W = wvals(name, wl, P)
        xs = P.xs() if name == 'sym' else None
        for t in range(m):
            i = t - start
            if 0 <= i < wl:
                co = {wl + t: 1.0}
                for k in range(wl):
                    w = unit(-i * k, wl)
                    co[base + 2 * k] = w.real / wl
                    co[base + 2 * k + 1] = -w.imag / wl
                if name == 'sym':
                    v = xs[wl + t]
                    for a, b in co.items():
                        if a >= base:
                            v = v + xs[a] * W[i] * b
                    P.same_x(P.xout(P.take()), v, 2 * ftol(wl), 'output %d' % t)
                else:
                    P.lin({a: b if a < base else b * W[i] for a, b in co.items()}, 0.0, 2 * ftol(wl), 'output %d' % t)
            else:
                P.lin({wl + t: 1.0}, 0.0, 0.0, 'untouched output %d' % t)
    return f


def rt_spec(name, wl, n, hop, mode):
    def f(P):
        for _ in range(2):
            c = P.int()
            P.expect(c == 0, 'result %s' % ERRS.get(c, c))
            if c:
                return
        W = wvals(name, wl, P)
        xs = P.xs() if name == 'sym' else None
        for t in range(n):
            cov = [t - f * hop for f in range(-(-n // hop)) if 0 <= t - f * hop < wl]
            if name == 'sym':
                if cov:
                    P.same_x(P.xout(P.take()), xs[wl + t], 8 * ftol(wl), 'sample %d' % t)
                else:
                    P.lin({}, 0.0, 0.0, 'uncovered sample %d' % t)
                continue
            norm = sum(W[i] ** 2 for i in cov)
            if norm > 1e-5:
                P.lin({wl + t: 1.0}, 0.0, 8 * ftol(wl) / min(1.0, norm) ** .5, 'sample %d' % t)
            elif norm == 0:
                P.lin({}, 0.0, 1e-3, 'uncovered sample %d' % t)
            else:
                P.take()
    return f


def rt_big(name, wl, n, hop, pos):
    def f(P):
        for _ in range(2):
            c = P.int()
            P.expect(c == 0, 'result %s' % ERRS.get(c, c))
            if c:
                return
        for t in range(n):
            cov = any(0 <= t - f * hop < wl for f in range(-(-n // hop)))
            P.lin({wl + t: 1.0} if cov and t in pos else {}, 0.0, 8 * ftol(wl), 'sample %d' % t)
    return f


def rt_bigs(ck, cfg, modes):
    for wl, n, hop in LONG:
        if cfg == 'nostd' and wl & (wl - 1):
            continue
        pos = spreads(n, 4)
        for mode in modes:
            ck.add(cfg, 'srt', (n, wl, hop, mode), rt_big('ramp', wl, n, hop, pos), box=sbox('ramp', wl, pos), weight=n * wl, key='%s round trip(n=%d, window ramp(%d), hop %d), 4 free samples @%s' % (('batch', 'parallel', 'stream')[mode], n, wl, hop, cfg))
    ck.bounds.append('round trips with ' + LONGTEXT)


def rts(ck, cfg, modes, wls, names):
    for wl in wls:
        for n, hop in ((1, 1), (4, 1), (6, 2), (8, 3), (9, 4), (10, 5), (11, 6), (16, 8), (12, 9)):
            for mode in modes:
                for name in names:
                    if name == 'sym' and (wl > 4 or n > 10):
                        continue
                    ck.add(cfg, 'srt', (n, wl, hop, mode), rt_spec(name, wl, n, hop, mode), box=wbox(name, wl), weight=n * wl * (9 if name == 'sym' else 1), key='%s round trip(n=%d, window %s(%d), hop %d) @%s' % (('batch', 'parallel', 'stream')[mode], n, name, wl, hop, cfg))


SHAPES = ((0, 1, 3), (1, 1, 4), (2, 1, 5), (3, 2, 9), (2, 3, 4), (4, 2, 3), (3, 5, 20), (5, 4, 24), (2, 9, 14), (3, 4, 0))


def build(ck):
    for cfg in ('all', 'std', 'nostd'):
        wls = (1, 2, 4, 8, 16) if cfg == 'nostd' else (1, 2, 3, 4, 6, 8, 16)
        names = ('hann', 'ramp', 'signed', 'gap', 'faint') if cfg == 'all' else ('ramp',)
        for wl in wls:
            for fr, hop, m in SHAPES:
                for name in names:
                    ck.add(cfg, 'istf', (fr, wl, hop, m), istft_spec(name, wl, hop, fr, m), box=wbox(name, wl), weight=fr * wl * wl, key='istft(%d frames, window %s(%d), hop %d, %d samples) @%s' % (fr, name, wl, hop, m, cfg))
                if wl <= 4 and fr <= 3 and cfg == 'all':
                    ck.add(cfg, 'istf', (fr, wl, hop, m), istft_spec('sym', wl, hop, fr, m), box=wbox('sym', wl), weight=fr * wl * 20, key='istft(%d frames, any window of %d, hop %d, %d samples) @%s' % (fr, wl, hop, m, cfg))
            for st, m in ((0, 0), (0, 3), (2, 8), (5, 20), (9, 9), (30, 4)):
                for name in ('ramp', 'signed', 'sym'):
                    if name == 'sym' and wl > 8:
                        continue
                    ck.add(cfg, 'sifr', (wl, st, m), ifr_spec(name, wl, st, m), box=wbox(name, wl), weight=wl, key='inverse frame(window %s(%d), start %d, %d samples) @%s' % (name, wl, st, m, cfg))
        rt_bigs(ck, cfg, (0,))
        rts(ck, cfg, (0,), wls, names + ('sym',) if cfg == 'all' else names)
    ck.bounds.append('window lengths up to 16, up to 5 frames, hops 1 to 9, outputs shorter and longer than the frames cover, symbolic previous contents of output and scratch; windows: four fixed shapes (one with zero samples, one with negative ones), and windows of up to 4 samples (8 for single frames) with every sample symbolic in [0.25, 1]; spectra and samples in [-1, 1]')


if __name__ == '__main__':
    ck = Check('C25', ['stft'])
    build(ck)
    sys.exit(ck.run())
