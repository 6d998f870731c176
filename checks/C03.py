import itertools
from checks.realspec import *

SIZES = [5, 8, 7, 32, 3, 64, 16, 17, 6, 4, 12, 2, 1, 128, 31, 40]
INV = (1, 3, 5, 7)


def spec(steps, k, p):
    def f(P):
        base = 0
        for s in range(steps):
            last = s + 1 == steps
            n = P.int()
            e = P.int()
            inv = e in INV
            c = P.int()
            if c == 2 and e > 9 and n & (n - 1):
                pass
            elif c != 0:
                P.bad('call %d: length %d, operation %d after earlier transforms: error %s' % (s, n, e, ERRS.get(c, c)))
                return
            pos = spreads(n, k if last else 1)
            if c == 0 and last:
                rows = crows(dft(n, inv), pos, base=base)
                tol = tol_of(n, p)
                P.lins(rows, tol / n if inv else tol, 'call %d (length %d, operation %d) output' % (s, n, e))
            else:
                P.pos += 2 * n
            base += 2 * len(pos)
    return f


def lspec(pre, n, e, p):
    def f(P):
        c = P.int()
        if c:
            return P.bad('operation %d at length %d after %d other transforms: error %s' % (e, n, pre, ERRS.get(c, c)))
        inv = e in INV
        tol = tol_of(n, p)
        P.lins(crows(dft(n, inv), spreads(n, 2), base=0), tol / n if inv else tol, 'operation %d at length %d after %d other transforms: output' % (e, n, pre))
    return f


RS = [8, 6, 32, 2, 10, 64, 14, 4, 16, 128]


def rspec(steps, k, p):
    def f(P):
        base = 0
        for s in range(steps):
            last = s + 1 == steps
            kk = k if last else 1
            n = P.int()
            inverse = P.int()
            c = P.int()
            if c:
                return P.bad('call %d: length %d, %s real FFT after earlier transforms: error %s' % (s, n, 'inverse' if inverse else 'forward', ERRS.get(c, c)))
            bins = n // 2 + 1
            pos = spreads(bins if inverse else n, kk)
            if last:
                if inverse:
                    irfft_rows(P, n, pos, base, rtol(n, p) * 4 / max(n, 4), 'call %d (inverse real FFT of length %d) sample' % (s, n))
                else:
                    rfft_rows(P, n, pos, base, rtol(n, p), 'call %d (real FFT of length %d) bin' % (s, n))
            else:
                P.pos += n if inverse else 2 * bins
            base += len(pos) * (2 if inverse else 1)
    return f


def rlspec(pre, n, how, p):
    def f(P):
        c = P.int()
        if c:
            return P.bad('length %d after %d other lengths: error %s' % (n, pre, ERRS.get(c, c)))
        if how & 2:
            irfft_rows(P, n, spreads(n // 2 + 1, 2), 0, rtol(n, p) * 4 / max(n, 4), 'inverse real FFT of length %d after %d other lengths: sample' % (n, pre))
        else:
            rfft_rows(P, n, spreads(n, 2), 0, rtol(n, p), 'real FFT of length %d after %d other lengths: bin' % (n, pre))
    return f


def build(ck):
    nsz = 8 if not ck.thorough else 16
    for p in (32, 64):
        for a in range(11):
            for b in range(11):
                if p == 64 and not ck.thorough and (a + b) % 3:
                    continue
                ck.add('all' if (a + b) % 2 or ck.thorough else 'std', 'hist%d' % p, (2, a | b << 4, 2), spec(2, 2, p), ints=[(0, nsz - 1 if (a, b) == (0, 0) else 4)] * 2, weight=2)
        top = 4 if not ck.thorough else 13
        for m in range(8):
            ops = [m & 1, m >> 1 & 1, m >> 2]
            ck.add('std', 'hist%d' % p, (3, ops[0] | ops[1] << 4 | ops[2] << 8, 2), spec(3, 2, p), ints=[(0, top)] * 3, weight=20)
    for p in (32, 64):
        for order in (0, 1, 2) if p == 32 or ck.thorough else (2,):
            for i, (n, e) in enumerate(((1, 0), (2, 1), (3, 0), (3, 5), (4, 4), (5, 7), (8, 2), (12, 6), (16, 1), (31, 0), (32, 9), (60, 3))):
                for pre in (40, 70) if ck.thorough else (40,) if (i + order) % 3 else (70,):
                    ck.add('all' if i % 2 else 'std', 'hlng%d' % p, (pre, n, e, order), lspec(pre, n, e, p), weight=pre * pre, key='operation %d at length %d after %d transforms of other lengths, order %d, f%d' % (e, n, pre, order, p))
    for p in (32, 64):
        for i, (n, how) in enumerate(itertools.product((2, 4, 6, 16, 30, 64), range(4))):
            ck.add('std' if i % 2 else 'x86', 'rlng%d' % p, (34, n, how), rlspec(34, n, how, p), weight=1500, key='real planner, length %d after 34 other lengths, mode %d, f%d' % (n, how, p))
    for p in (32, 64):
        for n, e in ((1, 0), (3, 1), (4, 2), (5, 0), (7, 6), (8, 0)):
            for order, pre in ((3, 5 if p == 32 or ck.thorough else 4), (4, 7)):
                ck.add('all' if n % 3 == 1 else 'std', 'hlng%d' % p, (pre, n, e, order), lspec(pre, n, e, p), weight=9000, key='operation %d at length %d after %d %s of it, f%d' % (e, n, pre, ('lengths congruent modulo a power of two', 'multiples')[order - 3], p))
        for i, (n, how) in enumerate(itertools.product((2, 6, 8), (4, 6, 8, 10))):
            pre = 5 if how < 8 else 7
            ck.add('std' if i % 2 else 'x86', 'rlng%d' % p, (pre, n, how), rlspec(pre, n, how, p), weight=5000, key='real planner, length %d after %d related lengths, mode %d, f%d' % (n, pre, how, p))
    ck.bounds.append('one complex or real transform with two free samples of a length up to 8, after longer ones congruent to it modulo 16 to 256, and after 7 of its multiples')
    ck.bounds.append('one real transform with two free samples after 34 forward and 34 inverse ones of the lengths 2 to 68 on the same planner and engine')
    ck.bounds.append('one call with two free samples after 40 or 70 calls of other lengths (1 to 70, ascending, descending and mixed) with fixed data on the same engine')
    for p in (32, 64):
        for cfg in ('std', 'x86'):
            for v1 in (2, 3, 4):
                for v2 in (2, 3, 4):
                    top = 9 if ck.thorough else 4
                    ck.add(cfg, 'rhist%d' % p, (2, 2), rspec(2, 2, p), ints=[(0, top), (v1, v1), (0, 1), (0, top), (v2, v2), (0, 1)], weight=6, key='rhist%d %d %d@%s' % (p, v1, v2, cfg))
    ck.bounds.append('lengths drawn by the solver from ' + str(SIZES) + ' (a prefix in the quick tier); 2 calls over all pairs of 11 operations, 3 calls over forward/inverse')


if __name__ == '__main__':
    ck = Check('C03', ['fft', 'real'])
    build(ck)
    sys.exit(ck.run())
