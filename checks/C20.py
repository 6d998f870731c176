from checks.trigspec import *
from engine.core import fn


def filters(n, sr, m):
    """the triangular filters in exact arithmetic; None if a corner lies too close to a sample boundary to be decided by rounding"""
    mx = 2595.0 * math.log10(1.0 + sr / 2.0 / 700.0)
    bins = []
    for i in range(m + 2):
        v = 700.0 * (10.0 ** (mx * i / (m + 1) / 2595.0) - 1.0) * (n + 1) / sr
        if i and abs(v - round(v)) < 2e-3 * max(1.0, v / 20):
            return None
        bins.append(int(math.floor(v)))
    W = []
    for j in range(1, m + 1):
        a, b, c = bins[j - 1:j + 2]
        w = {}
        if a < b < c:
            for k in range(a, b):
                if k < n:
                    w[k] = (k - a) / (b - a)
            for k in range(b, c):
                if k < n:
                    w[k] = (c - k) / (c - b)
        W.append(w)
    return W


def mel_spec(n, W):
    def f(P):
        P.expect(len(P.outs) == len(W), 'one energy per filter')
        for j, w in enumerate(W):
            # the sample rate is input 0
            P.lin({k + 1: v for k, v in w.items()}, 0.0, 1e-5 * (1 + len(w)), 'energy of filter %d' % j)
    return f


def energies(P, W, off):
    xs = P.xs()
    L = []
    for w in W:
        e = 0.0
        for k, v in w.items():
            e = e + xs[off + k] * v
        L.append(fn('log', e + 1e-12) if any(w.values()) else math.log(1e-12))
    return L


def mfcc_spec(n, W, nc, frames):
    m = len(W)

    def f(P):
        c = P.int()
        if nc > m:
            return P.expect(c == 6, 'more coefficients than filters: result %s' % ERRS.get(c, c))
        P.expect(c == 0, 'result %s' % ERRS.get(c, c))
        if c:
            return
        if frames:
            P.expect_int(frames, 'one row per frame')
        P.expect(len(P.outs) == (frames or 1) * nc + 1 + (1 if frames else 0), '%d coefficients per frame' % nc)
        for r in range(frames or 1):
            L = energies(P, W, 1 + r * n)
            for k in range(nc):
                v = 0.0
                for t in range(m):
                    v = v + L[t] * cosd((2 * t + 1) * k, 2 * m)
                i = P.take()
                P.same_x(P.xout(i), v, 2e-4 * m, 'frame %d coefficient %d' % (r, k))
    return f


def mbox(sr, lo, hi):
    return lambda i: sr if i == 0 else (lo, hi)


def build(ck):
    skipped = done = 0
    for cfg in ('all', 'nostd'):
        for n in (2, 4, 8, 16, 20, 32, 64) + (128, 257, 512, 513, 1025):
            for sr in (8000.0, 16000.0, 22050.0, 44100.0, 48000.0, 100.0, 1000000.0):
                for m in (0, 1, 2, 3, 4, 8, 13, 20) + ((26, 40, 80, 128) if ck.thorough or cfg == 'all' else (40,)):
                    W = filters(n, sr, m)
                    if W is None:
                        skipped += 1
                        continue
                    done += 1
                    ck.add(cfg, 'mel', (n, m), mel_spec(n, W), box=mbox(sr, -1.0, 1.0), weight=n * m, key='mel(n=%d, %d filters, %g Hz) @%s' % (n, m, sr, cfg))
                    if (n <= 32 and m <= 8 and sr in (8000.0, 16000.0, 44100.0)) or ck.thorough and n <= 513:
                        for nc in sorted({0, 1, m // 2, m, m + 1}):
                            ck.add(cfg, 'mfcc', (n, m, nc, 0), mfcc_spec(n, W, nc, 0), box=mbox(sr, 0.5, 2.0), weight=n * m, key='mfcc(n=%d, %d filters, %d coefficients, %g Hz) @%s' % (n, m, nc, sr, cfg))
                        if m and m <= 4 and n <= 16:
                            for fr in (1, 2, 3):
                                ck.add(cfg, 'mfcc', (n, m, m, fr), mfcc_spec(n, W, m, fr), box=mbox(sr, 0.5, 2.0), weight=n * m, key='mfcc_batch(n=%d, %d filters, %d frames, %g Hz) @%s' % (n, m, fr, sr, cfg))
                            ck.add(cfg, 'mfcc', (n, m, m + 1, 2), mfcc_spec(n, W, m + 1, 2), box=mbox(sr, 0.5, 2.0), key='mfcc_batch(n=%d, %d filters, too many coefficients, %g Hz) @%s' % (n, m, sr, cfg))
    ck.bounds.append('spectra of 2 to 1025 bins, seven sample rates, 0 to 128 filters (%d combinations; %d more are left out because a filter corner lies within rounding of a bin boundary); mel magnitudes in [-1, 1], MFCC magnitudes in [0.5, 2], up to 3 frames per batch' % (done, skipped))


if __name__ == '__main__':
    ck = Check('C20', ['spec'])
    build(ck)
    sys.exit(ck.run())
