from checks.stftspec import *
from engine.core import fn

EPS = {0: 2.0 ** -23, 1: 2.0 ** -52}


def arith(kind, ty):
    def f(P):
        x = P.xs()
        e = EPS[ty]
        n = [P.take() for _ in range(5 if kind == 9 else 1 if kind == 10 else 2)]

        def is_(re, im, tol, what):
            P.same_x(P.xout(n[0]), re, tol, what + ', real part')
            P.same_x(P.xout(n[1]), im, tol, what + ', imaginary part')
        if kind in (0, 3):
            is_(x[0] + x[2], x[1] + x[3], 8 * e, 'sum')
        elif kind in (1, 4):
            is_(x[0] - x[2], x[1] - x[3], 8 * e, 'difference')
        elif kind in (2, 5):
            is_(x[0] * x[2] - x[1] * x[3], x[0] * x[3] + x[1] * x[2], 16 * e, 'product')
        elif kind == 6:
            for k in (0, 1):
                P.check_lin(n[k], {k: -1.0}, 0.0, 0.0, 'negation')
        elif kind == 7:
            is_(0.0, 0.0, 0.0, 'zero')
        elif kind == 8:
            is_(x[0], x[1], 0.0, 'new')
        elif kind == 9:
            for i, v in enumerate((0.0, 1.0, math.pi, f32(0.1), -3.5)):
                P.same_x(P.xout(n[i]), v, 4 * e if i == 2 else 0.0, 'constant %d' % i)
        elif kind == 10:
            P.same_x(P.xout(n[0]), x[0] * x[1] + x[2], 12 * e, 'mul_add')
        elif kind == 11:
            a, b = x[0], x[1]
            r, i = a * a - b * b, 2.0 * (a * b)
            is_(r * a - i * b - a + r, r * b + i * a - b + i, 100 * e, 'expression')
    return f


def polar(ty, m):
    def f(P):
        x = P.xs()[0]
        a, b = P.take(), P.take()
        P.same_x(P.xout(a), fn('cos', x), 4 * EPS[ty], 'cosine')
        P.same_x(P.xout(b), fn('sin', x), 4 * EPS[ty], 'sine')
    return f


def moved(P, src, what):
    """the next outputs are exactly the inputs listed"""
    for j in src:
        P.lin({j: 1.0}, 0.0, 0.0, what)


def contract(P, good, what):
    if not good:
        P.expect(P.outcome == 'panic', '%s: lengths that differ are accepted' % what)
        return False
    P.expect(P.outcome == 'ok', '%s: panicked (%s)' % (what, P.detail))
    return P.outcome == 'ok'


def split_spec(kind, n, m, l, free=False):
    def f(P):
        if not contract(P, kind == 4 and n == m or n == m == l, 'kind %d' % kind):
            return
        re, im = [2 * i for i in range(n)], [2 * i + 1 for i in range(n)]
        if kind in (0, 1):
            if kind == 1 or free:
                P.expect_int(n, 'length')
                P.expect_int(int(n == 0), 'emptiness')
            moved(P, re, 're')
            moved(P, im, 'im')
            moved(P, range(2 * n), 'input')
        elif kind in (2, 3):
            if kind == 3 or free:
                P.expect_int(n, 'length')
                P.expect_int(int(n == 0), 'emptiness')
            moved(P, [j for i in range(n) for j in (i, n + i)], 'interleaved')
            moved(P, range(2 * n), 'input')
        else:
            moved(P, list(range(n, 2 * n)) + list(range(n)), 'written through')
    return f


def vec_spec(kind, n, m):
    def f(P):
        if not contract(P, kind % 3 or n == m, 'ComplexVec'):
            return
        re, im = (range(n), range(n, 2 * n)) if kind % 3 == 0 else (range(0, 2 * n, 2), range(1, 2 * n, 2))
        P.expect_int(n, 'length')
        P.expect_int(int(n == 0), 'emptiness')
        if kind // 3 == 0:
            P.expect_int(n, 're length')
            P.expect_int(n, 'im length')
            moved(P, re, 're')
            moved(P, im, 'im')
        elif kind // 3 == 3:
            moved(P, [j for i in range(n) for j in (im[i], re[i])], 'swapped')
        else:
            for r in range(3 - kind // 3):
                if r == 0:
                    P.expect_int(n, 'interleaved length')
                moved(P, [j for i in range(n) for j in (re[i], im[i])], 'interleaved')
    return f


def build(ck):
    cfgs = ('all', 'std', 'fma', 'nostd')
    for cfg in cfgs:
        for ty in (0, 1):
            for kind in range(12):
                ck.add(cfg, 'car', (kind, ty), arith(kind, ty), key='complex operation %d, %s @%s' % (kind, ('f32', 'f64')[ty], cfg))
                if kind in (0, 1, 6, 8):
                    ck.add(cfg, 'car', (kind, ty), arith(kind, ty) if kind > 5 else scaled(kind, ty, 1e6), box=(-1e6, 1e6), key='complex operation %d, %s, large @%s' % (kind, ('f32', 'f64')[ty], cfg))
            for kind in range(3):
                for lo, hi in ((-7.0, 7.0), (-1e-3, 1e-3), (50.0, 60.0), (-1000.0, -990.0)):
                    ck.add(cfg, 'cex', (kind, ty), polar(ty, hi), box=(lo, hi), key='polar %d, %s, angles in [%g, %g] @%s' % (kind, ('f32', 'f64')[ty], lo, hi, cfg))
        N = (0, 1, 2, 3, 4, 7, 8, 16, 33, 100, 260) if not ck.thorough else tuple(range(40)) + (64, 100, 127, 256)
        for n in N:
            for case in ('csp32', 'csp64'):
                for kind in range(5):
                    ck.add(cfg, case, (kind, n, n, n), split_spec(kind, n, n, n), may_panic=True, key='%s %d, length %d @%s' % (case, kind, n, cfg))
            for kind in (0, 1):
                ck.add(cfg, 'csf', (kind, n, n, n), split_spec((0, 2)[kind], n, n, n, True), may_panic=True, key='csf %d, length %d @%s' % (kind, n, cfg))
            for kind in range(12):
                ck.add(cfg, 'ccv', (kind, n, n), vec_spec(kind, n, n), may_panic=True, key='ComplexVec %d, length %d @%s' % (kind, n, cfg))
        mis = [(n, m, l) for n in (0, 1, 2, 5) for m in (0, 1, 2, 5) for l in (0, 1, 2, 5) if not n == m == l and (n + m + l) % (1 if ck.thorough else 2) == 0]
        for n, m, l in mis:
            for kind in range(5):
                if kind == 4 and (n == m or l):
                    continue
                ck.add(cfg, 'csp32', (kind, n, m, l), split_spec(kind, n, m, l), may_panic=True, key='csp32 %d, lengths %d, %d, %d @%s' % (kind, n, m, l, cfg))
                if kind < 2:
                    ck.add(cfg, 'csf', (kind, n, m, l), split_spec((0, 2)[kind], n, m, l, True), may_panic=True, key='csf %d, lengths %d, %d, %d @%s' % (kind, n, m, l, cfg))
        for n, m in ((0, 1), (1, 0), (1, 2), (3, 2), (4, 7)):
            ck.add(cfg, 'ccv', (0, n, m), vec_spec(0, n, m), may_panic=True, key='ComplexVec::new(%d, %d) @%s' % (n, m, cfg))
    ck.bounds.append('operands in [-1, 1] (sums, differences, negation also in [-1e6, 1e6]), angles in [-7, 7], [-1e-3, 1e-3], [50, 60] and [-1000, -990]; conversions of lengths %s with every element free and every combination of differing lengths 0, 1, 2, 5; builds %s' % (N, ', '.join(cfgs)))


def scaled(kind, ty, m):
    def f(P):
        x = P.xs()
        for k in (0, 1):
            P.same_x(P.xout(P.take()), x[k] + x[2 + k] if kind == 0 else x[k] - x[2 + k], 4 * m * EPS[ty], 'sum')
    return f


if __name__ == '__main__':
    ck = Check('C40', ['num'])
    build(ck)
    sys.exit(ck.run())
