from checks.fftspec import *

P2 = (1, 2, 4, 8, 16, 32, 64, 128)
OTHER = (0, 3, 5, 6, 7, 9, 10, 12, 15, 20, 24, 48, 96)


def bad_spec(n):
    def f(P):
        c = P.int()
        P.expect(c == (1 if n == 0 else 2), 'size %d: result %s' % (n, ERRS.get(c, c)))
        for i in range(2 * n):
            P.lin({i: 1.0}, 0.0, 0.0, 'sample %d after an error' % (i // 2))
    return f


def big_spec(n, inv):
    def f(P):
        if not P.ok('size %d' % n):
            return
        rows = dft_rows(n, inv, spreads(n, 2))
        idx = [2 * t + q for t in spreads(n, 2) for q in (0, 1)]
        for r, row in enumerate(rows):
            P.lin(dict(zip(idx, row)), 0.0, 4e-5 * n / (n if inv else 1), 'bin %d' % (r // 2))
    return f


def build(ck):
    for cfg in ('std', 'nostd', 'fma'):
        for inv in (0, 1):
            for n in P2:
                ck.add(cfg, 'stack', (n, inv), dft_spec(n, inv, 0, 2e-6 * max(n, 4) * (1 + n / 64)), weight=n * n)
            if cfg == 'std':
                for n in (256, 512):
                    pos = set(spreads(n, 2))
                    ck.add(cfg, 'stack', (n, inv), big_spec(n, inv), box=lambda i, pos=pos: (-1.0, 1.0) if i // 2 in pos else 0.0, weight=n * 40, key='stack(%d, inverse=%d), 2 free samples' % (n, inv))
            for n in OTHER:
                ck.add(cfg, 'stack', (n, inv), bad_spec(n))
    ck.bounds.append('sizes %s (all samples symbolic), sizes 256 and 512 with two free samples, unsupported sizes %s' % (P2, OTHER))


if __name__ == '__main__':
    ck = Check('C06', ['stack'])
    build(ck)
    sys.exit(ck.run())
