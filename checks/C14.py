from checks.trigspec import *


def table_spec(steps, p):
    def f(P):
        for s in range(steps):
            n, k = P.int(), P.int()
            if k not in (2, 3, 4):
                P.expect(P.int() == n, 'scratch of %d elements' % n)
                continue
            for i in range(n):
                ref = sind(i, n) if k == 3 else sind(2 * i + 1, 2 * n)
                P.lin({}, ref, 1e-6 if p == 32 else 4e-15, 'request %d: factor %d of %d for type %d' % (s, i, n, k))
    return f


def build(ck):
    sizes = tuple(range(0, 18)) + (20, 31, 32) + ((48, 64) if ck.thorough else ())
    for cfg in ('all', 'nostd'):
        for kind in (1, 2, 3, 4):
            for form in (0, 1, 2):
                for n in sizes:
                    if form and n > 9:
                        continue
                    ck.add(cfg, 'dst', (kind, form, n), plain_spec(lambda m, kind=kind: dst_matrix(kind, m), n, form), weight=n * n)
        for n in list(range(1, 15)) + [16, 20]:
            for kind in (1, 2, 3, 4):
                s = (n + 1) / 2 if kind == 1 else n / 2
                ck.add(cfg, 'dstinv', (kind, n), scaled_identity(n, s, 2e-6 * n ** 3 + 1e-5), weight=n * n)
        for n in (0, 1, 2, 3, 4, 6, 8, 12, 16, 32):
            for kind, t in ((11, 2), (12, 2), (13, 3), (14, 4)):
                ck.add(cfg, 'stack', (kind, n), stack_spec(lambda m, t=t: dst_matrix(t, m), n, n >= 2 and n & (n - 1) == 0))
        for p in (32, 64):
            ck.add(cfg, 'dstplan%d' % p, (3,), table_spec(3, p), ints=[(0, 11)] * 3, weight=500, max_paths=20000)
    for pre in (16, 40):
        for down in (0, 1):
            ck.add('all', 'dstlong', (pre, down), table_spec(1, 32), ints=[(1, pre), (2, 4)], fork=True, weight=pre * pre, key='a table of any length and type after %d lengths, %s' % (pre, ('ascending', 'descending')[down]))
    for how in (2, 3):
        ck.add('all', 'dstlong', (6, how), table_spec(1, 32), ints=[(1, 8), (2, 4)], fork=True, weight=2000, key='a table of any length up to 8 and type after 6 %s' % ('congruent lengths', 'multiples')[how - 2])
    for cfg in ('all', 'nostd'):
        for kind in (1, 2, 3, 4):
            large(ck, cfg, 'dst', lambda n: (kind, 0, n), lambda n: dst_fun(kind, n), LARGE, lambda n: 5e-6 * n + 1e-5, 'dst%d' % kind)
    ck.bounds.append('lengths %s with three free samples, the others zero' % (LARGE,))
    ck.bounds.append('lengths %s; round trips up to 20; planner: 3 requests in any order over 12 (length, table) pairs, and any (length, type) after all tables of lengths 1 to 40, or after longer ones congruent to it modulo powers of two' % (sizes,))


if __name__ == '__main__':
    ck = Check('C14', ['trig'])
    build(ck)
    sys.exit(ck.run())
