from checks.fftspec import *

INV = False
FULL = list(range(1, 33)) + [48, 64, 100, 128]
LARGE = [2048, 4096, 1000, 2047]


def build(ck):
    for cfg in ('all', 'sse'):
        for n in FULL + [257, 512, 1024] + LARGE:
            for p in (32, 64):
                k = 0 if n <= 64 else 16 if n <= 128 else 3
                if n > 1024 and cfg == 'sse' and not ck.thorough and n != 2048:
                    continue
                ck.add(cfg, 'fft%d' % p, (n, 0, int(INV), k), dft_spec(n, INV, k, tol_of(n, p)), weight=n * n if n <= 128 else n * 40)
        for n in (1, 2, 3, 4, 5, 6, 7, 8, 12, 15, 16, 17, 31, 32, 100, 128, 300):
            if cfg == 'all':
                for p in (32, 64):
                    for thr in (1, n):
                        ck.add(cfg, 'fftp%d' % p, (n, 0, int(INV), thr), dft_spec(n, INV, 3 if n > 32 else 0, tol_of(n, p)), weight=n * n, max_paths=2000, key='fft%d(%d) inverse=%d, parallel from length %d' % (p, n, INV, thr))
        if ck.thorough:
            for n in list(range(33, 64)) + [65, 81, 96, 120, 125, 127]:
                for p in (32, 64):
                    ck.add(cfg, 'fft%d' % p, (n, 0, int(INV), 0), dft_spec(n, INV, 0, tol_of(n, p)), weight=n * n)
            for n in (8192, 16384, 3000, 4095):
                for p in (32, 64):
                    ck.add(cfg, 'fft%d' % p, (n, 0, int(INV), 3), dft_spec(n, INV, 3, tol_of(n, p)), weight=n * 40)
    ck.bounds.append('every length 1..32 and 48, 64: all inputs free; lengths 100 and 128: 16 free samples spread over the signal, the others zero; lengths 257 to 4096 (16384 thorough): 3 free samples; all outputs checked; f32 and f64; samples in [-1, 1]')
    ck.bounds.append('with the parallel path switched on from length 1 and from the length itself: lengths up to 300')
    ck.bounds.append('configurations: every feature, and sse+std')


if __name__ == '__main__':
    ck = Check('C01', ['fft'])
    build(ck)
    sys.exit(ck.run())
