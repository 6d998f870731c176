from checks.fftspec import *


def st_spec(n, stride, extra, e, p):
    inv = e & 1
    ln = (n - 1) * stride + 1 + extra if e < 2 else n * stride + extra

    def f(P):
        if not P.ok('strided transform'):
            return
        tol = tol_of(n, p) / (n if inv else 1)
        W = dft(n, bool(inv))
        for i in range(ln):
            if i % stride == 0 and i // stride < n:
                k = i // stride
                re, im = {}, {}
                for t in range(n):
                    w = W[k, t]
                    j = 2 * t * stride
                    re[j], re[j + 1] = w.real, -w.imag
                    im[j], im[j + 1] = w.imag, w.real
                P.lin(re, 0.0, tol, 'element %d re' % i)
                P.lin(im, 0.0, tol, 'element %d im' % i)
            else:
                P.lin({2 * i: 1.0}, 0.0, 0.0, 'unaddressed element %d re' % i)
                P.lin({2 * i + 1: 1.0}, 0.0, 0.0, 'unaddressed element %d im' % i)
    return f


def oop_spec(n, a, b, e, p):
    inv = e & 1

    def f(P):
        if not P.ok('strided transform'):
            return
        tol = tol_of(n, p) / (n if inv else 1)
        W = dft(n, bool(inv))
        base = 2 * n * a
        for i in range(n * b):
            if i % b == 0:
                k = i // b
                re, im = {}, {}
                for t in range(n):
                    w = W[k, t]
                    j = 2 * t * a
                    re[j], re[j + 1] = w.real, -w.imag
                    im[j], im[j + 1] = w.imag, w.real
                P.lin(re, 0.0, tol, 'output %d re' % i)
                P.lin(im, 0.0, tol, 'output %d im' % i)
            else:
                P.lin({base + 2 * i: 1.0}, 0.0, 0.0, 'unaddressed output %d re' % i)
                P.lin({base + 2 * i + 1: 1.0}, 0.0, 0.0, 'unaddressed output %d im' % i)
    return f


def fits(m, stride, ln):
    """(m-1)*stride < ln over unbounded integers"""
    if m == 0:
        return z3.BoolVal(True)
    if m == 1:
        return z3.BoolVal(ln > 0)
    return z3.ULE(stride, z3.BitVecVal((ln - 1) // (m - 1), 64)) if ln > 0 else z3.BoolVal(False)


def unchanged(P, ln):
    for i in range(2 * ln):
        P.lin({i: 1.0}, 0.0, 0.0, 'buffer element %d after an error' % (i // 2))


def cint(P, i):
    v = P.uins[i]
    return P.vm.concretize(v) if type(v) is SymI else v


def sterr_spec(e):
    def f(P):
        c = P.int()
        ln, m, s = cint(P, 0), cint(P, 1), P.ubv(2)
        zero = s == 0
        if e < 2:
            fit = fits(m, s, ln)
            if m == 0:
                good = {0: s != 0, 4: zero}
            else:
                good = {0: z3.And(s != 0, fit), 4: zero, 3: z3.And(s != 0, z3.Not(fit))}
        else:
            good = {0: s != 0, 4: zero, 1: z3.And(s != 0, z3.UGT(s, ln))}
        P.must(good.get(c, z3.BoolVal(False)), 'len %d, scratch %d: result %s' % (ln, m, ERRS.get(c, c)))
        if c != 0:
            unchanged(P, ln)
    return f


def ooperr_spec(P):
    c = P.int()
    la, lb, a, b = cint(P, 0), cint(P, 1), P.ubv(2), P.ubv(3)

    def cases(ln, s):
        """(condition, count) of valid strides"""
        if ln == 0:
            return [(s != 0, 0)]
        return [(s == d, ln // d) for d in range(1, ln + 1) if ln % d == 0]
    A, Bc = cases(la, a), cases(lb, b)
    va, vb = z3.Or([x for x, _ in A]), z3.Or([x for x, _ in Bc])
    same = z3.Or([z3.And(x, y) for x, i in A for y, j in Bc if i == j] + [z3.BoolVal(False)])
    good = {4: z3.Not(z3.And(va, vb)), 3: z3.And(va, vb, z3.Not(same)), 0: same, 1: z3.And(same, z3.BoolVal(la == 0))}
    P.must(good.get(c, z3.BoolVal(False)), 'lengths %d, %d: result %s' % (la, lb, ERRS.get(c, c)))
    if c != 0:
        for i in range(2 * lb):
            P.lin({i: 1.0}, 0.0, 0.0, 'output element %d after an error' % (i // 2))


def build(ck):
    sizes = (1, 2, 3, 4, 5, 8, 16, 32, 17) if not ck.thorough else (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 32, 64)
    for p in (32, 64):
        for w in range(4 if p == 32 else 2):
            for n in sizes:
                for stride in (1, 2, 3, 5) if n <= 8 or ck.thorough else (2, 3):
                    for e in range(4):
                        for extra in ((0, 1, 2) if stride == 3 else (0,)):
                            ck.add('std', 'st%d' % p, (n, stride, extra, e | w << 4), st_spec(n, stride, extra, e, p), weight=n)
                for a, b in ((1, 1), (1, 2), (3, 1), (2, 3)):
                    for e in (0, 1):
                        if n <= 8 or (a, b) == (2, 3) or ck.thorough:
                            ck.add('std', 'oos%d' % p, (n, a, b, e | w << 4), oop_spec(n, a, b, e, p), weight=n)
        for w in range(4 if p == 32 else 2):
            for n in (1, 2, 3, 4, 5, 8, 16) + ((17, 32) if ck.thorough else ()):
                for pre in (n + 1, 33):
                    for stride in (1, 3):
                        for e in range(4):
                            ck.add('std', 'st%d' % p, (n, stride, 0, e | w << 4 | pre << 8), st_spec(n, stride, 0, e, p), weight=n, key='st%d(%d, stride %d, operation %d, engine %d) after transforms of %d' % (p, n, stride, e, w, pre))
                    for e in (0, 1):
                        ck.add('std', 'oos%d' % p, (n, 2, 3, e | w << 4 | pre << 8), oop_spec(n, 2, 3, e, p), weight=n, key='oop%d(%d, operation %d, engine %d) after transforms of %d' % (p, n, e, w, pre))
    errs(ck)
    ck.bounds.append('lengths %s, strides 1..5, buffers with 0..2 trailing elements' % (sizes,))
    ck.bounds.append('the same calls on an engine that served strided transforms of other lengths before: lengths 1..16 after 1..33')


def errs(ck):
    full = (0, (1 << 64) - 1)
    top = 6 if not ck.thorough else 12
    for e in range(4):
        for w in range(4):
            ck.add('std', 'sterr', (e, w), sterr_spec(e), ints=[(0, top), (0, top if e < 2 else 0), full], weight=500, box=(-1, 1))
    for e in range(2):
        for w in range(2):
            ck.add("std", "ooperr", (e, w), ooperr_spec, ints=[(0, top - 2), (0, top - 2), full, full], weight=500)
    ck.bounds.append('error contract of strided calls: buffer and scratch lengths 0..%d with the stride any 64-bit value' % top)


if __name__ == '__main__':
    ck = Check('C05', ['fft', 'stride'])
    build(ck)
    sys.exit(ck.run())
