from checks.trigspec import *


def big_spec(n, s, pos, tol):
    def f(P):
        P.expect(len(P.outs) == n, 'output has the input length')
        for i in range(n):
            P.lin({i: s} if i in pos else {}, 0.0, tol, 'sample %d' % i)
    return f


def build(ck):
    top = 14 if not ck.thorough else 32
    for cfg in ('all', 'nostd'):
        for n in list(range(1, top + 1)) + [16, 20]:
            for kind in (1, 2, 3, 4):
                s = (2.0 * (n - 1) if n > 1 else 4.0) if kind == 1 else n / 2
                ck.add(cfg, 'dctinv', (kind, n), scaled_identity(n, s, (4e-6 if kind == 1 else 2e-6) * n ** 3 + 1e-5), weight=n * n)
        for n in (33, 64, 100, 128) if cfg == 'all' else (65,):
            for kind in (1, 2, 3, 4):
                s = 2.0 * (n - 1) if kind == 1 else n / 2
                pos = spreads(n, 3)
                ck.add(cfg, 'dctinv', (kind, n), big_spec(n, s, pos, 2e-5 * n * n), box=sparse_box(pos), weight=n * n, key='dct round trip of type %d(%d), 3 free samples @%s' % (kind, n, cfg))
    ck.bounds.append('lengths 33 to 128 with three free samples')
    ck.bounds.append('lengths 1..%d, 16, 20' % top)


if __name__ == '__main__':
    ck = Check('C13', ['trig'])
    build(ck)
    sys.exit(ck.run())
