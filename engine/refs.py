"""Reference definitions (rows of the linear maps), in double precision with exact angle reduction."""
import numpy as np, math


def unit(num, den):
    """exp(-2 pi i num/den), reduced exactly"""
    num %= den
    # octant reduction keeps the error at one ulp
    a = 2 * math.pi * num / den
    c, s = math.cos(a), math.sin(a)
    if 4 * num == den:
        c, s = 0.0, 1.0
    elif 2 * num == den:
        c, s = -1.0, 0.0
    elif 4 * num == 3 * den:
        c, s = 0.0, -1.0
    return complex(c, -s)


_dft = {}


def dft(n, inv=False):
    """complex matrix n x n"""
    k = (n, inv)
    if k not in _dft:
        u = np.array([unit(j, n) for j in range(n)])
        idx = np.outer(np.arange(n), np.arange(n)) % n
        W = u[idx]
        if inv:
            W = np.conj(W) / n
        _dft[k] = W
    return _dft[k]


def crows(W, pos=None, base=0, nin=None):
    """rows (re, im interleaved) of the complex matrix W acting on interleaved complex inputs at positions pos"""
    n = W.shape[1]
    if pos is None:
        pos = range(n)
    pos = list(pos)
    out = np.zeros((2 * W.shape[0], nin if nin is not None else base + 2 * len(pos)))
    sub = W[:, pos]
    out[0::2, base:base + 2 * len(pos):2] = sub.real
    out[0::2, base + 1:base + 2 * len(pos):2] = -sub.imag
    out[1::2, base:base + 2 * len(pos):2] = sub.imag
    out[1::2, base + 1:base + 2 * len(pos):2] = sub.real
    return out


def dft_rows(n, inv, pos, base=0, bins=None, nin=None):
    """crows(dft(n, inv), pos, base) without building the whole matrix; bins: output rows wanted"""
    pos = list(pos)
    u = np.array([unit(j, n) for j in range(n)])
    bins = np.arange(n) if bins is None else np.asarray(list(bins))
    sub = u[np.outer(bins, np.array(pos)) % n]
    if inv:
        sub = np.conj(sub) / n
    out = np.zeros((2 * len(bins), nin if nin is not None else base + 2 * len(pos)))
    out[0::2, base:base + 2 * len(pos):2] = sub.real
    out[0::2, base + 1:base + 2 * len(pos):2] = -sub.imag
    out[1::2, base:base + 2 * len(pos):2] = sub.imag
    out[1::2, base + 1:base + 2 * len(pos):2] = sub.real
    return out


def spread(i, k, n):
    return n - 1 if i + 1 == k else i * n // k + (i * 5) % (n // k)


def spreads(n, k):
    if k == 0 or k >= n:
        return list(range(n))
    return [spread(i, k, n) for i in range(k)]
