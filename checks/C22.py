from checks.wavspec import *


def batch_spec(fam, n, r):
    def f(P):
        P.expect_int(r, 'rows')
        P.expect_int(r, 'rows')
        A, D = rows(fam, n)
        for t in range(r):
            sh = lambda R: [{k + t * n: v for k, v in x.items()} for x in R]
            out_rows(P, sh(A), 2e-6, 'row %d approximation' % t)
            out_rows(P, sh(D), 2e-6, 'row %d detail' % t)
    return f


def ibatch_spec(fam, m, r):
    def f(P):
        P.expect_int(r, 'rows')
        S = syn(fam, m)
        for t in range(r):
            out_rows(P, [{**{t * m + i: v for i, v in a.items()}, **{(r + t) * m + i: v for i, v in d.items()}} for a, d in S], 3e-6, 'row %d' % t)
    return f


def multi_spec(fam, n, lv):
    def f(P):
        a, det = multi(fam, n, lv)
        out_rows(P, a, 3e-6 * 2 ** lv, 'approximation')
        P.expect_int(lv, 'number of detail bands')
        for l, d in enumerate(det):
            out_rows(P, d, 3e-6 * 2 ** lv, 'detail band %d' % l)
    return f


def minv_spec(fam, n, lv):
    def f(P):
        cur = [{i: 1.0} for i in range(n)]
        offs = []
        o = n
        for l in range(lv):
            offs.append(o)
            o += n << (lv - 1 - l)
        for l in reversed(range(lv)):
            m = len(cur)
            out = []
            for a, d in syn(fam, m):
                r = {}
                for i, c in a.items():
                    for j, v in cur[i].items():
                        r[j] = r.get(j, 0.0) + c * v
                for i, c in d.items():
                    r[offs[l] + i] = r.get(offs[l] + i, 0.0) + c
                out.append(r)
            cur = out
        out_rows(P, cur, 4e-6 * 2 ** lv, 'signal')
    return f


def mrt_spec(fam, n, lv):
    def f(P):
        want = n + (n % 2 if lv else 0)
        P.expect_int(want, 'length of the reconstruction')
        for p in range(want):
            if fam == 0:
                P.lin({min(p, n - 1): 1.0}, 0.0, 4e-6 * 2 ** lv, 'reconstructed sample %d' % p)
            else:
                P.take()
    return f


def mbatch_spec(fam, n, lv, r):
    def f(P):
        for _ in range(3):
            P.expect_int(r, 'rows')
        def pair(what):
            L = P.int()
            i0 = [P.take() for _ in range(L)]
            i1 = [P.take() for _ in range(L)]
            for a, b in zip(i0, i1):
                P.same(a, b, 0.0, what + ' equals the single form')
        for t in range(r):
            P.expect_int(1, 'shapes equal the single form')
            pair('approximation of row %d' % t)
            for l in range(lv):
                pair('detail band %d of row %d' % (l, t))
            pair('reconstruction of row %d' % t)
    return f


def stack_spec(n):
    h = n // 2

    def f(P):
        A, D = rows(0, n)
        out_rows(P, A, 1e-6, 'approximation')
        out_rows(P, D, 1e-6, 'detail')
        out_rows(P, [{i: 1.0} for i in range(2 * h)], 2e-6, 'reconstruction')
    return f


def build(ck):
    NS = list(range(0, 14)) + [16, 24, 30, 32] + ([37, 48, 64, 100] if ck.thorough else [])
    for cfg in ('all', 'nostd'):
        for fam in (0, 1):
            for n in (0, 1, 2, 3, 4, 7, 8, 12):
                for r in (0, 1, 2, 3):
                    ck.add(cfg, 'wbatch', (fam, n, r), batch_spec(fam, n, r), key='%s batch forward(%d x %d) @%s' % (FAM[fam], r, n, cfg))
                    if n % 2 == 0:
                        ck.add(cfg, 'wibatch', (fam, n // 2, r), ibatch_spec(fam, n // 2, r), key='%s batch inverse(%d x %d) @%s' % (FAM[fam], r, n, cfg))
        for fam in range(5):
            for n in NS:
                for lv in range(0, 6):
                    ck.add(cfg, 'wmulti', (fam, n, lv), multi_spec(fam, n, lv), key='%s multi-level forward(%d, %d levels) @%s' % (FAM[fam], n, lv, cfg), weight=n)
                    ck.add(cfg, 'wmrt', (fam, n, lv), mrt_spec(fam, n, lv), key='%s multi-level round trip(%d, %d levels) @%s' % (FAM[fam], n, lv, cfg), weight=n)
            for n, lv in ((128, 7), (100, 6), (255, 3)):
                ck.add(cfg, 'wmulti', (fam, n, lv), multi_spec(fam, n, lv), key='%s multi-level forward(%d, %d levels) @%s' % (FAM[fam], n, lv, cfg), weight=n * 3)
                ck.add(cfg, 'wmrt', (fam, n, lv), mrt_spec(fam, n, lv), key='%s multi-level round trip(%d, %d levels) @%s' % (FAM[fam], n, lv, cfg), weight=n * 3)
            for n in (0, 1, 2, 3, 4):
                for lv in range(0, 5):
                    ck.add(cfg, 'wminv', (fam, n, lv), minv_spec(fam, n, lv), key='%s multi-level inverse(%d, %d levels) @%s' % (FAM[fam], n, lv, cfg), weight=n)
            for n in (0, 1, 4, 5, 8, 12):
                for lv in (0, 1, 2, 3):
                    ck.add(cfg, 'wmbatch', (fam, n, lv, 2), mbatch_spec(fam, n, lv, 2), key='%s multi-level batch(%d, %d levels) @%s' % (FAM[fam], n, lv, cfg), weight=n)
        for n in (0, 2, 3, 4, 6, 8, 16, 32):
            ck.add(cfg, 'wstack', (n,), stack_spec(n), key='Haar stack(%d) @%s' % (n, cfg))
    ck.bounds.append('lengths %s, 0 to 5 levels; 100, 128 and 255 with up to 7 levels, batches of up to 3 rows; all samples and coefficients in [-1, 1]' % NS)


if __name__ == '__main__':
    ck = Check('C22', ['wav'])
    build(ck)
    sys.exit(ck.run())
