from checks.stftspec import *


def pairs(P, count, tol, what):
    for t in range(count):
        i, j = P.take(), P.take()
        P.same(i, j, tol, '%s %d' % (what, t))


def fwd_spec(n, wl, hop, frames):
    need = -(-n // hop)

    def f(P):
        a, b = P.int(), P.int()
        P.expect(a == b, 'sequential result %s, parallel result %s' % (ERRS.get(a, a), ERRS.get(b, b)))
        P.expect(a == (3 if frames < need else 0), 'result %s' % ERRS.get(a, a))
        if a or b:
            return
        P.expect_int(1, 'frame lengths agree')
        pairs(P, 2 * frames * wl, ftol(wl), 'value')
    return f


def inv_spec(wl, m):
    def f(P):
        a, b = P.int(), P.int()
        P.expect(a == 0, 'parallel result %s' % ERRS.get(a, a))
        P.expect(b == 0, 'sequential result %s' % ERRS.get(b, b))
        if not a and not b:
            pairs(P, m, 16 * ftol(wl), 'sample')
    return f


def fft_spec(n, k):
    def f(P):
        a, b = P.int(), P.int()
        P.expect(a == b == 0, 'results %s, %s' % (ERRS.get(a, a), ERRS.get(b, b)))
        if not a and not b:
            pairs(P, 2 * n, ftol(n) * 4, 'value')
    return f


def build(ck):
    cfg = 'all'
    for wl in (1, 2, 3, 4, 8):
        for n, hop, ex in ((0, 1, 1), (1, 1, 0), (4, 2, 0), (6, 2, 0), (7, 3, 1), (8, 2, 0), (9, 9, 0), (10, 4, 1), (12, 2, 0), (20, 2, 0), (6, 2, -1)):
            fr = -(-n // hop) + ex
            for name in ('ramp', 'signed', 'sym'):
                if name == 'sym' and (wl > 4 or n > 8):
                    continue
                ck.add(cfg, 'scmp', (n, wl, hop, fr), fwd_spec(n, wl, hop, fr), box=wbox(name, wl), weight=n * wl * 24, max_paths=6000, key='parallel and sequential stft(n=%d, window %s(%d), hop %d, %d frames)' % (n, name, wl, hop, fr))
        for fr, hop, m in ((0, 1, 3), (1, 1, 4), (2, 1, 5), (3, 2, 9), (4, 2, 12), (4, 5, 20), (7, 1, 9), (3, 4, 6)):
            for name in ('ramp', 'signed', 'gap', 'sym'):
                if name == 'sym' and (wl > 4 or fr > 3):
                    continue
                ck.add(cfg, 'sicmp', (fr, wl, hop, m), inv_spec(wl, m), box=wbox(name, wl), weight=fr * wl * 24, max_paths=6000, key='parallel and sequential istft(%d frames, window %s(%d), hop %d, %d samples)' % (fr, name, wl, hop, m))
        for n, hop in ((1, 1), (6, 2), (8, 3), (8, 2)):
            from checks.C25 import rt_spec
            for name in ('ramp', 'gap'):
                ck.add(cfg, 'srt', (n, wl, hop, 1), rt_spec(name, wl, n, hop, 1), box=wbox(name, wl), weight=n * wl * 50, max_paths=6000, key='parallel round trip(n=%d, window %s(%d), hop %d)' % (n, name, wl, hop))
    for n in list(range(1, 18)) + [24, 31, 32, 64, 100, 128] + ([200, 256, 512] if ck.thorough else []):
        for inv in (0, 1):
            for thr in (1, n, n + 1):
                if n <= 32 or thr == 1:
                    k = 0 if n <= 32 else 6
                    ck.add(cfg, 'fpar', (n, thr, inv, k), fft_spec(n, k), weight=n, key='%s FFT(%d), %s inputs, parallel from length %d' % ('inverse' if inv else 'forward', n, k or 'all', thr))
    from checks.C25 import rt_big
    for wl, n, hop in ((64, 200, 48), (128, 300, 64)):
        pos = spreads(n, 4)
        ck.add(cfg, 'srt', (n, wl, hop, 1), rt_big('ramp', wl, n, hop, pos), box=sbox('ramp', wl, pos), weight=n * wl * 50, max_paths=6000, key='parallel round trip(n=%d, window ramp(%d), hop %d), 4 free samples' % (n, wl, hop))
    ck.bounds.append('windows up to 8, up to 10 frames, complex FFT lengths 1..17, 24, 31, 32, 64, 100, 128 (the latter three with 6 symbolic samples); every order of up to 4 work items, and forward, reverse and odd-even orders of more; per-worker state of initialising adapters is handed on or recreated in every combination')
    ck.assumptions.append('rayon is replaced by a stand-in in which each work item is one atomic step; interleavings inside two items are not explored (they share no mutable state unless the code uses atomics, locks or unsafe)')


if __name__ == '__main__':
    ck = Check('C28', ['stft'])
    build(ck)
    sys.exit(ck.run())
