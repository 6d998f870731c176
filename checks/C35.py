import math
from checks.realspec import *
from checks.trigspec import *
from checks import C16, C23, C24

STD = ('def', 'std', 'soa', 'a2', 'a512', 'slow', 'ctr', 'x64', 'xpre', 'sse', 'pre', 'x86', 'fma', 'avx', 'all', 'par')
NOSTD = ('nostd', 'npar', 'nsimd', 'nctr', 'nfma')


def build(ck):
    for cfg in STD + NOSTD:
        std = cfg in STD
        for p in (32, 64):
            for inv in (0, 1):
                for n in (1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 32, 60, 64, 100, 256, 1024) + ((31, 33, 128, 512, 2048, 4096, 8192, 1000) if ck.thorough else ()):
                    pow2 = n & (n - 1) == 0
                    k = 0 if n <= 17 else 6 if n <= 100 else 3
                    if not std and not pow2:
                        ck.add(cfg, 'fft%d' % p, (n, 0, inv, k), lambda P: P.expect(P.int() == 2, 'a length that is not a power of two is not reported as unsupported'), key='fft%d(%d), inverse=%d @%s' % (p, n, inv, cfg))
                    else:
                        ck.add(cfg, 'fft%d' % p, (n, 0, inv, k), dft_spec(n, bool(inv), k, tol_of(n, p)), weight=n * n if n < 100 else n * 40, key='fft%d(%d), inverse=%d @%s' % (p, n, inv, cfg))
                for e in range(1, 44):
                    for n in ((1, 2, 4, 8, 16, 32, 64) if ck.thorough else (4, 16, 64) if e % 2 else (2, 8, 32)) if p == 32 else (2, 8, 32) if ck.thorough else (16,):
                        ck.add(cfg, 'fft%d' % p, (n, e, inv, 0 if n <= 16 else 4), dft_spec(n, bool(inv), 0 if n <= 16 else 4, tol_of(n, p), absent_ok=True), weight=n * n, key='entry point %d, %d points, f%d, inverse=%d @%s' % (e, n, p, inv, cfg))
            for v in range(7):
                for n in ((2, 4, 8, 16, 32, 64, 128) if ck.thorough else (4, 8, 16, 64)) + (((6, 10, 12, 20, 24, 34, 100) if ck.thorough else (6, 20)) if std else ()):
                    k = 0 if n <= 16 else 5
                    ck.add(cfg, 'rf%d' % p, (n, v, k, 0), fwd_spec(n, k, p, True), weight=n * n, key='rfft variant %d, f%d, %d samples @%s' % (v, p, n, cfg))
                    ck.add(cfg, 'ri%d' % p, (n, v, k, 0), inv_spec(n, k, p, True), weight=n * n, key='irfft variant %d, f%d, %d samples @%s' % (v, p, n, cfg))
        for n in (2, 4, 8, 16, 32, 64):
            ck.add(cfg, 'rstack', (n, n // 2 + 1), fwd_spec(n, 0, 32), weight=n * n, key='rfft stack, %d samples @%s' % (n, cfg))
            ck.add(cfg, 'ristack', (n, n // 2 + 1), inv_spec(n, 0, 32), weight=n * n, key='irfft stack, %d samples @%s' % (n, cfg))
        for n in (0, 1, 2, 3, 5, 8, 16) if ck.thorough else (1, 4, 7):
            for kind in (1, 2, 3, 4):
                ck.add(cfg, 'dct', (kind, 0, n), plain_spec(lambda m, kind=kind: dct_matrix(kind, m), n, 0), weight=n * n, key='dct%d(%d) @%s' % (kind, n, cfg))
                ck.add(cfg, 'dst', (kind, 0, n), plain_spec(lambda m, kind=kind: dst_matrix(kind, m), n, 0), weight=n * n, key='dst%d(%d) @%s' % (kind, n, cfg))
            ck.add(cfg, 'dht', (0, n), plain_spec(cas_matrix, n, 0), weight=n * n, key='dht(%d) @%s' % (n, cfg))
            for kind in range(6):
                ck.add(cfg, 'win', (kind, n), C23.spec(kind, n), key='%s(%d) @%s' % (C23.NAMES[kind], n, cfg))
        for n in (2, 4, 8, 16) + ((3, 5, 6, 12) if std else ()):
            ck.add(cfg, 'hilb', (n,), C16.spec(n), weight=n * n, key='hilbert(%d) @%s' % (n, cfg))
        for n, wl, hop in ((8, 4, 2), (9, 4, 3), (16, 8, 4)) + (((7, 5, 2), (12, 6, 6)) if std else ()):
            ck.add(cfg, 'stf', (n, wl, hop, -(-n // hop)), C24.batch_spec('ramp', wl, n, hop, -(-n // hop)), box=C24.wbox('ramp', wl), weight=n * wl, key='stft(%d samples, window %d, hop %d) @%s' % (n, wl, hop, cfg))
    ck.bounds.append('builds: %s; transforms of up to 1024 points (free samples: all up to 17 points, 3 to 6 above), every entry point up to 64 points, every real variant up to 64 samples (thorough: 8192, 128), the trigonometric transforms, windows, analytic signal and short-time transform at small sizes' % ', '.join(STD + NOSTD))
    ck.bounds.append('x86-64 builds only; AArch64 and WebAssembly code is not compiled here')


if __name__ == '__main__':
    ck = Check('C35', ['fft', 'real', 'trig', 'spec', 'win', 'stft'])
    build(ck)
    sys.exit(ck.run())
