from checks.trigspec import *
from engine.core import fn, X


def f32(v):
    return float(np.float32(v))


# (window, signal, hop): large windows, and many frames
LONG = ((64, 200, 48), (100, 260, 70), (128, 300, 64), (256, 600, 300), (512, 1200, 500), (2, 300, 1), (4, 600, 2), (3, 410, 1), (8, 1030, 4))
LONGTEXT = 'windows of 64 to 512 samples, and up to 410 frames of a window of 2 to 8, over signals of 200 to 1200 samples, four of them free'

WIN = {
    'rect': lambda i, n: 1.0,
    'hann': lambda i, n: f32(0.5 - 0.5 * cosd(2 * i, n)),
    'ramp': lambda i, n: f32(0.3 + 0.7 * (i + 1) / n),
    'signed': lambda i, n: f32((-1) ** i * (0.4 + 0.5 * ((3 * i) % 5) / 5)),
    'faint': lambda i, n: f32(0.02 * (1 + i / n)),
    'gap': lambda i, n: 0.0 if i in (0, n // 2) and n > 2 else f32(0.5 + 0.4 * i / n),
}


def wbox(name, wl, rest=(-1.0, 1.0)):
    if name == 'sym':
        return lambda i: (0.25, 1.0) if i < wl else rest
    w = WIN[name]
    return lambda i: w(i, wl) if i < wl else rest


def sbox(name, wl, pos):
    """window constants, then a signal that is free at pos only"""
    w = WIN[name]
    pos = set(pos)
    return lambda i: w(i, wl) if i < wl else (-1.0, 1.0) if i - wl in pos else 0.0


def wvals(name, wl, P):
    """window samples: numbers, or expressions for a symbolic window"""
    if name == 'sym':
        return P.xs()[:wl]
    return [WIN[name](i, wl) for i in range(wl)]


def ftol(wl):
    return (4e-6 if wl & (wl - 1) == 0 else 4e-5) * max(wl, 2)


def frame_vals(P, name, wl, n, start, what, pos=None):
    """the next 2*wl outputs are the transform of the windowed segment"""
    for k in range(wl):
        for part in (0, 1):
            co = {}
            for i in range(wl):
                if start + i < n and (pos is None or start + i in pos):
                    w = unit(i * k, wl)
                    co[i] = w.imag if part else w.real
            t = '%s bin %d%s' % (what, k, 'i' if part else 'r')
            if name == 'sym':
                i = P.take()
                xs = P.xs()
                v = 0.0
                for j, c in co.items():
                    v = v + xs[j] * xs[wl + start + j] * c
                P.same_x(P.xout(i), v, ftol(wl), t)
            else:
                W = wvals(name, wl, P)
                P.lin({wl + start + j: c * W[j] for j, c in co.items()}, 0.0, ftol(wl), t)


def fftcode(wl, cfg):
    return 1 if wl == 0 else 2 if cfg == 'nostd' and wl & (wl - 1) else 0


def batch_spec(name, wl, n, hop, frames, pos=None):
    need = -(-n // hop)

    def f(P):
        c = P.int()
        if frames < need:
            return P.expect(c == 3, 'too few frames: result %s' % ERRS.get(c, c))
        P.expect(c == 0, 'result %s' % ERRS.get(c, c))
        if c:
            return
        P.expect_int(frames, 'frames')
        for t in range(frames):
            P.expect_int(wl, 'length of frame %d' % t)
            frame_vals(P, name, wl, n, t * hop, 'frame %d' % t, pos)
    return f


def ola(name, wl, hop, frames, m, base, P, off=0):
    """reference of the overlap-add at positions off..m: (expression or coefficients, norm)"""
    W = wvals(name, wl, P)
    out = []
    xs = P.xs() if name == 'sym' else None
    for t in range(off, m):
        co = {}
        norm = 0.0
        num = 0.0
        for f in range(frames):
            i = t - f * hop
            if 0 <= i < wl:
                norm = norm + W[i] * W[i]
                for k in range(wl):
                    w = unit(-i * k, wl)
                    a = base + 2 * (f * wl + k)
                    if name == 'sym':
                        num = num + xs[a] * W[i] * (w.real / wl) + xs[a + 1] * W[i] * (-w.imag / wl)
                    else:
                        co[a] = co.get(a, 0.0) + W[i] * w.real / wl
                        co[a + 1] = co.get(a + 1, 0.0) - W[i] * w.imag / wl
        out.append((num if name == 'sym' else co, norm))
    return out


def ola_check(P, name, wl, r, what):
    num, norm = r
    if name == 'sym':
        i = P.take()
        covered = type(norm) is X
        P.same_x(P.xout(i), num / norm if covered else 0.0, 16 * ftol(wl), what)
    elif norm > 1e-8:
        P.lin({a: v / norm for a, v in num.items()}, 0.0, 4 * ftol(wl) / min(1.0, norm) ** .5, what)
    else:
        P.lin({}, 0.0, 1e-3, what + ' (uncovered)')
