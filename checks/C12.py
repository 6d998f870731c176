from checks.trigspec import *

PS = [1, 2, 3, 4, 6, 8, 16, 5]


def plan_spec(plans, uses):
    def f(P):
        base = 0
        for s in range(plans):
            n = P.int()
            for t in range(uses):
                c = P.int()
                if c:
                    return P.bad('plan %d, length %d: error %s' % (s, n, ERRS.get(c, c)))
                if s + 1 == plans:
                    rows_at(P, dct_matrix(2, n), base, ttol(n), 'plan %d of length %d, use %d, output' % (s, n, t))
                else:
                    P.pos += n
                base += n
    return f


def long_spec(pre):
    def f(P):
        n = P.int()
        c = P.int()
        if c:
            return P.bad('length %d after %d plans: error %s' % (n, pre, ERRS.get(c, c)))
        M = dct_matrix(2, n)
        pos = spreads(n, 2)
        for k in range(n):
            P.lin({j: M[k][i] for j, i in enumerate(pos)}, 0.0, ttol(n), 'plan of length %d after %d others, output %d' % (n, pre, k))
    return f


def planerr_spec(n):
    def f(P):
        c = P.int()
        a, b = cint(P, 0), cint(P, 1)
        if a == n == b and n:
            if c:
                return P.bad('length %d: error %s' % (n, ERRS.get(c, c)))
            rows_at(P, dct_matrix(2, n), 0, ttol(n), 'output')
        else:
            P.expect(c in (1, 3) if 0 in (a, b, n) else c == 3, 'plan for %d given %d -> %d: result %s' % (n, a, b, ERRS.get(c, c)))
    return f


def build(ck):
    sizes = tuple(range(0, 18)) + (20, 31, 32) + ((48, 64) if ck.thorough else ())
    for cfg in ('all', 'nostd'):
        for kind in (1, 2, 3, 4):
            for form in (0, 1, 2, 3):
                for n in sizes:
                    if form == 3 and (kind == 1 or cfg == 'nostd'):
                        continue
                    if form in (1, 2) and n > 9:
                        continue
                    ck.add(cfg, 'dct', (kind, form, n), plain_spec(lambda m, kind=kind: dct_matrix(kind, m), n, form), weight=n * n)
        for n in (0, 1, 2, 3, 4, 6, 8, 12, 16, 32):
            ck.add(cfg, 'stack', (1, n), stack_spec(lambda m: dct_matrix(1, m), n, n >= 2 and n & (n - 1) == 0))
            ck.add(cfg, 'stack', (2, n), stack_spec(lambda m: dct_matrix(2, m), n, n >= 2 and n & (n - 1) == 0))
    ck.add('all', 'dctplan', (1, 2), plan_spec(1, 2), ints=[(0, 7)], weight=100)
    ck.add('all', 'dctplan', (2, 1), plan_spec(2, 1), ints=[(0, 7)] * 2, weight=100)
    ck.add('all', 'dctplan', (3, 1), plan_spec(3, 1), ints=[(0, 4)] * 3, weight=200)
    for pre in (16, 40):
        for down in (0, 1):
            ck.add('all', 'dctlong', (pre, down), long_spec(pre), ints=[(1, pre)], fork=True, weight=pre * pre, key='a plan of any length after %d lengths, %s' % (pre, ('ascending', 'descending')[down]))
    for how in (2, 3):
        ck.add('all', 'dctlong', (5, how), long_spec(5), ints=[(1, 8)], fork=True, weight=2000, key='a plan of any length up to 8 after 5 %s' % ('congruent lengths', 'multiples')[how - 2])
    for n in range(0, 6):
        ck.add('all', 'dctplanerr', (n,), planerr_spec(n), ints=[(0, 5), (0, 5)], weight=20)
    for cfg in ('all', 'nostd'):
        for kind in (1, 2, 3, 4):
            large(ck, cfg, 'dct', lambda n: (kind, 0, n), lambda n: dct_fun(kind, n), LARGE, lambda n: 5e-6 * n + 1e-5, 'dct%d' % kind)
    ck.bounds.append('lengths %s with three free samples, the others zero' % (LARGE,))
    ck.bounds.append('lengths %s; plans over lengths %s, up to 3 plans on one planner, and a plan of any length after 40 others or after longer ones congruent to it modulo powers of two; every pair of buffer lengths 0..5 for a plan' % (sizes, PS))


if __name__ == '__main__':
    ck = Check('C12', ['trig'])
    build(ck)
    sys.exit(ck.run())
