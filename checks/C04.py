from checks.fftspec import *

P2 = (1, 2, 4, 8, 16, 32, 64)
NP = (3, 5, 6, 7, 12, 15)
BIG = (100, 128, 256, 1024)


def build(ck):
    for cfg in ('all', 'std', 'nostd'):
        for e in range(1, 44):
            for n in P2 + NP + BIG:
                for inv in (0, 1):
                    for p in (32, 64):
                        if p == 64 and e >= 32:
                            continue
                        if n > 64 and (cfg == 'nostd' or (inv == 0) != (e % 2 == 0)) and not ck.thorough:
                            continue
                        if n > 64:
                            ck.add(cfg, 'fft%d' % p, (n, e, inv, 3), dft_spec(n, inv, 3, tol_of(n, p), True, (2,) if cfg == 'nostd' and n & (n - 1) else ()), weight=n * 40)
                            continue
                        ck.add(cfg, 'fft%d' % p, (n, e, inv, 0), dft_spec(n, inv, 0, tol_of(n, p), True, (2,) if cfg == 'nostd' and n in NP else ()), weight=n * n)
    ck.bounds.append('every entry point at lengths %s with all inputs free; lengths %s with three free samples (in the quick tier one direction per entry point)' % (P2 + NP, BIG))
    ck.bounds.append('configurations: every feature, std, no_std')


if __name__ == '__main__':
    ck = Check('C04', ['fft'])
    build(ck)
    sys.exit(ck.run())
