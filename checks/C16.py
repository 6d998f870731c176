from checks.realspec import *


def matrix(n):
    W = dft(n)
    h = np.zeros(n)
    h[0] = 1
    for k in range(1, n):
        h[k] = 1 if 2 * k == n else (2 if 2 * k < n else 0)
    V = np.array([[unit(-k * t, n) / n for k in range(n)] for t in range(n)])
    return V @ np.diag(h) @ W


def spec(n):
    def f(P):
        c = P.int()
        if n == 0:
            return P.expect(c == 1, 'nothing to transform: result %s' % ERRS.get(c, c))
        if n & (n - 1):
            if c == 2:
                return
        if c:
            return P.bad('length %d: error %s' % (n, ERRS.get(c, c)))
        A = matrix(n)
        tol = (1e-5 if n & (n - 1) == 0 else 1e-4) * max(n, 4)
        for t in range(n):
            P.lin({t: 1.0}, 0.0, tol, 'real part %d' % t)
            P.lin({i: A[t, i].imag for i in range(n)}, 0.0, tol, 'imaginary part %d' % t)
        P.expect(P.pos == len(P.outs), 'output has the input length')
    return f


def big_spec(n, pos):
    def f(P):
        c = P.int()
        if c == 2 and n & (n - 1):
            return
        if c:
            return P.bad('length %d: error %s' % (n, ERRS.get(c, c)))
        tol = (1e-5 if n & (n - 1) == 0 else 1e-4) * n
        # the imaginary part is a convolution: h[t] = 2/n sum over the positive bins of sin(2 pi k t/n)
        h = [2.0 / n * sum(-unit(k * t, n).imag for k in range(1, (n + 1) // 2)) for t in range(n)]
        for t in range(n):
            P.lin({t: 1.0} if t in pos else {}, 0.0, tol, 'real part %d' % t)
            P.lin({i: h[(t - i) % n] for i in pos}, 0.0, tol, 'imaginary part %d' % t)
        P.expect(P.pos == len(P.outs), 'output has the input length')
    return f


def build(ck):
    ns = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 32, 64] + ([128, 256] if ck.thorough else [])
    for cfg in ('all', 'nostd', 'pre', 'sse'):
        for n in ns:
            ck.add(cfg, 'hilb', (n,), spec(n), weight=n * n)
        for n in (100, 128, 256, 512, 1024) if cfg in ('all', 'nostd') else (256,):
            pos = spreads(n, 3)
            ck.add(cfg, 'hilb', (n,), big_spec(n, pos), box=lambda i, pos=pos: (-1.0, 1.0) if i in pos else 0.0, weight=n * 40, key='hilb(%d), 3 free samples @%s' % (n, cfg))
    ck.bounds.append('lengths 100 to 1024 with three free samples')
    ck.bounds.append('lengths %s (lengths the routine rejects must be rejected with an error), samples in [-1, 1]' % (ns,))


if __name__ == '__main__':
    ck = Check('C16', ['spec'])
    build(ck)
    sys.exit(ck.run())
