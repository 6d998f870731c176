from checks.wavspec import *


def fwd_spec(fam, n):
    def f(P):
        A, D = rows(fam, n)
        out_rows(P, A, 2e-6, 'approximation')
        out_rows(P, D, 2e-6, 'detail')
    return f


def inv_spec(fam, m):
    def f(P):
        out_rows(P, [{**a, **{m + i: v for i, v in d.items()}} for a, d in syn(fam, m)], 3e-6, 'signal')
    return f


def rt_spec(fam, n):
    def f(P):
        P.expect_int(n // 2 * 2, 'length')
        ok = set(exact(fam, n))
        for p in range(n // 2 * 2):
            if p in ok:
                P.lin({p: 1.0}, 0.0, 4e-6, 'reconstructed sample %d' % p)
            else:
                P.take()
    return f


def build(ck):
    N = 64 if not ck.thorough else 160
    for cfg in ('all', 'nostd'):
        for fam in range(5):
            for n in list(range(0, 25)) + [32, 48, N]:
                ck.add(cfg, 'wfwd', (fam, n), fwd_spec(fam, n), key='%s forward(%d) @%s' % (FAM[fam], n, cfg), weight=n)
                if n % 2 == 0:
                    ck.add(cfg, 'winv', (fam, n // 2), inv_spec(fam, n // 2), key='%s inverse(%d) @%s' % (FAM[fam], n, cfg), weight=n)
                    ck.add(cfg, 'wrt', (fam, n), rt_spec(fam, n), key='%s round trip(%d) @%s' % (FAM[fam], n, cfg), weight=n)
            for n in (128, 129, 256, 514):
                ck.add(cfg, 'wfwd', (fam, n), fwd_spec(fam, n), key='%s forward(%d) @%s' % (FAM[fam], n, cfg), weight=n * 3)
                if n % 2 == 0:
                    ck.add(cfg, 'winv', (fam, n // 2), inv_spec(fam, n // 2), key='%s inverse(%d) @%s' % (FAM[fam], n, cfg), weight=n * 3)
                    ck.add(cfg, 'wrt', (fam, n), rt_spec(fam, n), key='%s round trip(%d) @%s' % (FAM[fam], n, cfg), weight=n * 3)
    ck.bounds.append('lengths 128, 129, 256, 514, all samples free')
    ck.bounds.append('every length 0..24, and 32, 48, %d; samples and coefficients in [-1, 1]. Samples within taps-2 of an end are outside the reconstruction claim for the mirrored families (documented boundary effect).' % N)


if __name__ == '__main__':
    ck = Check('C21', ['wav'])
    build(ck)
    sys.exit(ck.run())
