from checks.realspec import *

SIZES = (2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 30, 32, 34, 40, 48, 64, 96, 100, 128)


def build(ck):
    for cfg in ('std', 'all'):
        for p in (32, 64):
            for v in range(7):
                for n in SIZES:
                    k = 0 if n <= 32 else 10
                    ck.add(cfg, 'rf%d' % p, (n, v, k, 0 if n % 4 else 3), fwd_spec(n, k, p, p == 64 and v >= 5), weight=n * n)
    for p in (32, 64):
        for n, k in ((256, 6), (512, 6)) + (((1024, 8), (2048, 4), (1000, 4)) if ck.thorough else ()):
            ck.add('std', 'rf%d' % p, (n, 2, k, 0), fwd_spec(n, k, p), weight=n * n)
    for cfg in ('std', 'all'):
        for p in (32, 64):
            for v in range(7):
                for n in (130, 198, 254, 256, 258, 500, 512, 1024) + ((2048, 4096) if v in (0, 2) or ck.thorough else ()):
                    ck.add(cfg, 'rf%d' % p, (n, v, 4, 0 if n % 4 else 3), fwd_spec(n, 4, p, p == 64 and v >= 5), weight=n * 40)
    ck.bounds.append('even lengths from 130 to 1024 (4096 for two variants) with four free values')
    for p in (2, 4, 8, 16, 32, 64, 128):
        ck.add('std', 'rstack', (p, p // 2 + 1), fwd_spec(p, 0, 32), weight=p * p)
    ck.bounds.append('even lengths %s and 256, 512 (sparse above 32), all variants, arbitrary prior contents of output and scratch' % (SIZES,))


if __name__ == '__main__':
    ck = Check('C08', ['real'])
    build(ck)
    sys.exit(ck.run())
