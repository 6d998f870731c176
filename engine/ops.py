"""Run-time helpers used by the generated code."""
import math
import z3
from .sym import (SignMask, HOOK, Term, TT, SymB, SymI, Pack, mki, mkb, rf, fbits, frombits, norm, Unsupported, M64, _cf)

INF = float('inf')
NAN = float('nan')


def fold32(f):
    return f


def mkfop(op):
    import operator
    pyop = {'+': operator.add, '-': operator.sub, '*': operator.mul}[op]

    def f32(a, b):
        if type(a) is float and type(b) is float:
            return _cf(pyop(a, b)).value
        return TT.mk(op, 32, a, b)

    def f64(a, b):
        if type(a) is float and type(b) is float:
            return pyop(a, b)
        return TT.mk(op, 64, a, b)
    return f32, f64


fadd32, fadd64 = mkfop('+')
fsub32, fsub64 = mkfop('-')
fmul32, fmul64 = mkfop('*')


def _div(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        if a != a or a == 0:
            return NAN
        s = math.copysign(1, a) * math.copysign(1, b)
        return INF if s > 0 else -INF


def fdiv32(a, b):
    if type(a) is float and type(b) is float:
        return _cf(_div(a, b)).value
    return TT.mk('/', 32, a, b)


def fdiv64(a, b):
    if type(a) is float and type(b) is float:
        return _div(a, b)
    return TT.mk('/', 64, a, b)


def frem32(a, b):
    if type(a) is float and type(b) is float:
        return math.fmod(a, b) if b != 0 and not math.isinf(a) else NAN
    return TT.mk('rem', 32, a, b)


def frem64(a, b):
    if type(a) is float and type(b) is float:
        return math.fmod(a, b) if b != 0 and not math.isinf(a) else NAN
    return TT.mk('rem', 64, a, b)


def fneg(a, w):
    if type(a) is float:
        return -a
    if a.op == 'neg':
        return a.args[0]
    return TT.mk('neg', w, a)


def fpext(a):
    return a if type(a) is float else TT.mk('ext', 64, a)


def fptrunc(a):
    return rf(a) if type(a) is float else TT.mk('fptrunc', 32, a)


def sgn(x, w):
    s = 1 << (w - 1)
    return (x ^ s) - s


def sx(x, w):
    if type(x) is int:
        return sgn(x, w) & M64
    return mki(z3.SignExt(64 - w, x.e))


def sext(x, w1, w2):
    if type(x) is int:
        return sgn(x, w1) & ((1 << w2) - 1)
    return mki(z3.SignExt(w2 - w1, x.e))


def zx(x, w1, w2):
    if type(x) is SymI:
        return mki(z3.ZeroExt(w2 - w1, x.e))
    if type(x) is Pack:
        return norm(list(x.parts) + [((w2 - w1) // 8, 0)], w2 // 8)
    raise Unsupported('zx %r' % (x,))


def zxb(x, w):
    if type(x) is bool:
        return int(x)
    if type(x) is SymB:
        if x.f is not None and not z3.eq(z3.simplify(z3.Not(x.t)), z3.simplify(x.f)):
            return 1 if x else 0
        return mki(z3.If(x.t, z3.BitVecVal(1, w), z3.BitVecVal(0, w)))
    return x


def tr(x, w1, w2):
    if type(x) is SymI:
        return mki(z3.Extract(w2 - 1, 0, x.e))
    if type(x) is Pack:
        if w2 % 8:
            raise Unsupported('tr Pack')
        return x.slice(0, w2 // 8)
    raise Unsupported('tr %r' % (x,))


def tob(x):
    if type(x) is int:
        return bool(x & 1)
    if type(x) is bool or type(x) is SymB:
        return x
    if type(x) is SymI:
        return mkb(z3.Extract(0, 0, x.e) == 1)
    if type(x) is Pack:
        r = x.slice(0, 1)
        if type(r) is not Pack:
            return tob(r)
    raise Unsupported('tob %r' % (x,))


def shl(a, b, w):
    if type(b) is int and b >= w:
        return 0
    return (a << b) & ((1 << w) - 1)


def ashr(a, b, w):
    if type(a) is int and type(b) is int:
        return (sgn(a, w) >> b) & ((1 << w) - 1)
    if type(a) is Pack and b == w - 1 and a.number() is not None:
        return SignMask(a.number(), w)
    A = a.e if type(a) is SymI else z3.BitVecVal(a, w)
    B = b.e if type(b) is SymI else z3.BitVecVal(b, w)
    return mki(A >> B)


def udiv(a, b):
    if type(b) is int and b == 0:
        raise UBx('division by zero')
    return a // b


def urem(a, b):
    if type(b) is int and b == 0:
        raise UBx('division by zero')
    return a % b


def sdiv(a, b, w):
    if type(a) is int and type(b) is int:
        x = sgn(a, w)
        y = sgn(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return q & ((1 << w) - 1)
    A = a.e if type(a) is SymI else z3.BitVecVal(a, w)
    B = b.e if type(b) is SymI else z3.BitVecVal(b, w)
    return mki(A / B)


def srem(a, b, w):
    if type(a) is int and type(b) is int:
        x = sgn(a, w)
        y = sgn(b, w)
        r = abs(x) % abs(y)
        if x < 0:
            r = -r
        return r & ((1 << w) - 1)
    A = a.e if type(a) is SymI else z3.BitVecVal(a, w)
    B = b.e if type(b) is SymI else z3.BitVecVal(b, w)
    return mki(z3.SRem(A, B))


def sel(c, a, b, w):
    if type(c) is bool:
        return a if c else b
    if type(c) is SymB and w != 1 and type(a) in (int, SymI) and type(b) in (int, SymI) \
            and z3.eq(z3.simplify(z3.Not(c.t)), z3.simplify(c.f)):
        A = a.e if type(a) is SymI else z3.BitVecVal(a, w)
        B = b.e if type(b) is SymI else z3.BitVecVal(b, w)
        return mki(z3.If(c.t, A, B))
    if w == 1 and type(c) is SymB:
        return (c & a) | ((c ^ True) & b) if type(c & a) is not bool or True else None
    return a if c else b


def fsel(c, a, b):
    """select on a symbolic condition; the larger or smaller of the two values compared needs no fork"""
    if type(c) is SymB and c.r is not None and type(a) is Term and type(b) is Term and a is not b and a.prec == b.prec:
        k, xy = c.r[2], c.r[3]
        if (k,) + xy not in VMREF[0].dom.decided and k not in ('eq', 'ne'):
            if xy == (b.id, a.id):
                k = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}[k]
                xy = (a.id, b.id)
            if xy == (a.id, b.id):
                return TT.mk('max' if k in ('gt', 'ge') else 'min', a.prec, a, b)
    return a if c else b


def vm_positive(a):
    vm = VMREF[0]
    return vm.truth(vm.dom.cmp('gt', a, 0.0))


def signbit(t):
    """the sign bit of a symbolic number; a symbolic input that is zero counts as +0"""
    n = False
    while t.op == 'neg':
        t, n = t.args[0], not n
        if type(t) is not Term:
            return (math.copysign(1.0, t) < 0) != n
    if t.op == 'abs':
        return n
    vm = VMREF[0]
    return bool(vm.truth(vm.dom.cmp('lt', t, 0.0))) != n


def cmpbits(k, a, b, w):
    """comparison of the bits of the number a with those of b (or with the integer b), as unsigned integers"""
    sa = signbit(a)
    if type(b) is int:
        sb = bool(b >> (w - 1))
        v = frombits(b, w // 8)
    else:
        sb, v = signbit(b), b
    if sa != sb:
        return {'eq': False, 'ne': True, 'lt': sb, 'le': sb, 'gt': sa, 'ge': sa}[k]
    if type(v) is float and v != v:
        return k in ('lt', 'le', 'ne')
    if sa:
        k = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(k, k)
    return VMREF[0].dom.cmp(k, a, v)


HOOK['sign'] = signbit
HOOK['cmpbits'] = cmpbits
HOOK['cmp'] = lambda k, a, b: VMREF[0].dom.cmp(k, a, b)


def insv(agg, x, idx):
    i = idx[0]
    l = list(agg)
    if len(idx) > 1:
        l[i] = insv(l[i], x, idx[1:])
    else:
        l[i] = x
    return tuple(l)


def _e(x, w):
    return x.e if type(x) is SymI else z3.BitVecVal(x, w)


def i_umin(a, b, w):
    if type(a) is int and type(b) is int:
        return a if a < b else b
    A, B = _e(a, w), _e(b, w)
    return mki(z3.If(z3.ULT(A, B), A, B))


def i_umax(a, b, w):
    if type(a) is int and type(b) is int:
        return a if a > b else b
    A, B = _e(a, w), _e(b, w)
    return mki(z3.If(z3.UGT(A, B), A, B))


def i_smin(a, b, w):
    if type(a) is int and type(b) is int:
        return a if sgn(a, w) < sgn(b, w) else b
    A, B = _e(a, w), _e(b, w)
    return mki(z3.If(A < B, A, B))


def i_smax(a, b, w):
    if type(a) is int and type(b) is int:
        return a if sgn(a, w) > sgn(b, w) else b
    A, B = _e(a, w), _e(b, w)
    return mki(z3.If(A > B, A, B))


def i_abs(a, _p, w):
    if type(a) is int:
        return abs(sgn(a, w)) & ((1 << w) - 1)
    return mki(z3.If(a.e < 0, -a.e, a.e))


def i_ctpop(a, w):
    if type(a) is int:
        return bin(a).count('1')
    r = z3.BitVecVal(0, w)
    for i in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, a.e))
    return mki(r)


def i_ctlz(a, _p, w):
    if type(a) is int:
        return w - a.bit_length()
    r = z3.BitVecVal(w, w)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, a.e) == 1, z3.BitVecVal(w - 1 - i, w), r)
    return mki(r)


def i_cttz(a, _p, w):
    if type(a) is int:
        return w if a == 0 else (a & -a).bit_length() - 1
    r = z3.BitVecVal(w, w)
    for i in reversed(range(w)):
        r = z3.If(z3.Extract(i, i, a.e) == 1, z3.BitVecVal(i, w), r)
    return mki(r)


def i_bswap(a, w):
    if type(a) is SymI:
        return mki(z3.Concat(*[z3.Extract(i + 7, i, a.e) for i in range(0, w, 8)]))
    return int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')


def i_bitreverse(a, w):
    if type(a) is int:
        return int(bin(a)[2:].zfill(w)[::-1], 2)
    r = None
    for i in range(w):
        x = z3.Extract(i, i, a.e)
        r = x if r is None else z3.Concat(r, x)
    return mki(r)


def i_fshl(a, b, c, w):
    if type(a) is int and type(b) is int and type(c) is int:
        c %= w
        return (((a << w | b) << c) >> w) & ((1 << w) - 1)
    x = z3.Concat(_e(a, w), _e(b, w))
    c = z3.URem(_e(c, w), z3.BitVecVal(w, w))
    return mki(z3.Extract(2 * w - 1, w, x << z3.ZeroExt(w, c)))


def i_fshr(a, b, c, w):
    if type(a) is int and type(b) is int and type(c) is int:
        c %= w
        return ((a << w | b) >> c) & ((1 << w) - 1)
    x = z3.Concat(_e(a, w), _e(b, w))
    c = z3.URem(_e(c, w), z3.BitVecVal(w, w))
    return mki(z3.Extract(w - 1, 0, z3.LShR(x, z3.ZeroExt(w, c))))


def i_uadd_ov(a, b, w):
    if type(a) is int and type(b) is int:
        r = a + b
        return (r & ((1 << w) - 1), r >> w != 0)
    A, B = z3.ZeroExt(1, _e(a, w)), z3.ZeroExt(1, _e(b, w))
    r = A + B
    return (mki(z3.Extract(w - 1, 0, r)), mkb(z3.Extract(w, w, r) == 1))


def i_usub_ov(a, b, w):
    if type(a) is int and type(b) is int:
        return ((a - b) & ((1 << w) - 1), a < b)
    A, B = _e(a, w), _e(b, w)
    return (mki(A - B), mkb(z3.ULT(A, B)))


def i_umul_ov(a, b, w):
    if type(a) is int and type(b) is int:
        r = a * b
        return (r & ((1 << w) - 1), r >> w != 0)
    if type(a) is not int and type(b) is not int and w > 16:
        # a small factor is split into its values; otherwise the solver is given a consequence it finds hard to see: a
        # product that fits is at least as large as its factors
        vm = VMREF[0]
        A, B = a.e, b.e
        if vm.truth(mkb(z3.ULE(B, z3.BitVecVal(16, w)))):
            return i_umul_ov(a, vm.concretize(b), w)
        if vm.truth(mkb(z3.ULE(A, z3.BitVecVal(16, w)))):
            return i_umul_ov(vm.concretize(a), b, w)
        if vm.absmul and w == 64:
            # both above 16: only the size of the product is known
            vm.stub_used.add('product of two symbolic integers above 16 only known to be larger than both')
            i = vm.nfresh = vm.nfresh + 1
            r, fits = z3.BitVec('m%d' % i, 64), z3.Bool('mf%d' % i)
            vm.assume(z3.Implies(fits, z3.And(z3.UGE(r, A), z3.UGE(r, B), z3.UGE(r, 289))))
            vm.assume(z3.Implies(z3.And(z3.ULT(A, 1 << 32), z3.ULT(B, 1 << 32)), fits))
            vm.assume(z3.Implies(z3.And(z3.UGE(A, 1 << 32), z3.UGE(B, 1 << 32)), z3.Not(fits)))
            return (mki(r), mkb(z3.Not(fits)))
        r, fits = A * B, z3.BVMulNoOverflow(A, B, False)
        vm.assume(z3.Implies(z3.And(fits, A != 0, B != 0), z3.And(z3.UGE(r, A), z3.UGE(r, B))))
        return (mki(r), mkb(z3.Not(fits)))
    A, B = z3.ZeroExt(w, _e(a, w)), z3.ZeroExt(w, _e(b, w))
    r = A * B
    return (mki(z3.Extract(w - 1, 0, r)), mkb(z3.Extract(2 * w - 1, w, r) != 0))


def _sov(f):
    def g(a, b, w):
        if type(a) is int and type(b) is int:
            r = f(sgn(a, w), sgn(b, w))
            return (r & ((1 << w) - 1), not (-(1 << (w - 1)) <= r < (1 << (w - 1))))
        A, B = z3.SignExt(w, _e(a, w)), z3.SignExt(w, _e(b, w))
        r = f(A, B)
        lo = z3.Extract(w - 1, 0, r)
        return (mki(lo), mkb(r != z3.SignExt(w, lo)))
    return g


i_sadd_ov = _sov(lambda x, y: x + y)
i_ssub_ov = _sov(lambda x, y: x - y)
i_smul_ov = _sov(lambda x, y: x * y)


def i_usub_sat(a, b, w):
    if type(a) is int and type(b) is int:
        return max(0, a - b)
    A, B = _e(a, w), _e(b, w)
    return mki(z3.If(z3.ULT(A, B), z3.BitVecVal(0, w), A - B))


def i_uadd_sat(a, b, w):
    M = (1 << w) - 1
    if type(a) is int and type(b) is int:
        return min(M, a + b)
    A, B = _e(a, w), _e(b, w)
    s = A + B
    return mki(z3.If(z3.ULT(s, A), z3.BitVecVal(M, w), s))


def i_sadd_sat(a, b, w):
    r = sgn(a, w) + sgn(b, w)
    return max(-(1 << (w - 1)), min((1 << (w - 1)) - 1, r)) & ((1 << w) - 1)


def i_ssub_sat(a, b, w):
    r = sgn(a, w) - sgn(b, w)
    return max(-(1 << (w - 1)), min((1 << (w - 1)) - 1, r)) & ((1 << w) - 1)


def i_ucmp(a, b, w, rw):
    if a < b:
        return (1 << rw) - 1
    return 0 if a == b else 1


def i_scmp(a, b, w, rw):
    s = 1 << (w - 1)
    return i_ucmp(a ^ s, b ^ s, w, rw)


def vbin(op, a, b, w):
    M = (1 << w) - 1
    r = []
    for x, y in zip(a, b):
        if w == 1:
            r.append({'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y}[op]())
        elif op == 'add':
            r.append((x + y) & M)
        elif op == 'sub':
            r.append((x - y) & M)
        elif op == 'mul':
            r.append((x * y) & M)
        elif op == 'and':
            r.append(x & y)
        elif op == 'or':
            r.append(x | y)
        elif op == 'xor':
            r.append(x ^ y)
        elif op == 'shl':
            r.append(shl(x, y, w))
        elif op == 'lshr':
            r.append(x >> y)
        elif op == 'ashr':
            r.append(ashr(x, y, w))
        elif op == 'udiv':
            r.append(udiv(x, y))
        elif op == 'urem':
            r.append(urem(x, y))
        else:
            raise Unsupported('vector ' + op)
    return tuple(r)


def vfbin(f, a, b):
    return tuple([f(x, y) for x, y in zip(a, b)])


def vicmp(pred, a, b, w):
    s = 1 << (w - 1)
    r = []
    for x, y in zip(a, b):
        if w == 1:
            r.append((x == y) if pred == 'eq' else (x != y))
            continue
        if pred[0] == 's':
            x ^= s
            y ^= s
        r.append({'eq': lambda: x == y, 'ne': lambda: x != y, 'lt': lambda: x < y, 'le': lambda: x <= y,
                  'gt': lambda: x > y, 'ge': lambda: x >= y}[pred if len(pred) == 2 else pred[1:]]())
    return tuple(r)


def vreduce(name, *a):
    if name.startswith('vector.reduce.or'):
        r = a[0][0]
        for x in a[0][1:]:
            r = r | x
        return r
    if name.startswith('vector.reduce.and'):
        r = a[0][0]
        for x in a[0][1:]:
            r = r & x
        return r
    if name.startswith('vector.reduce.xor'):
        r = a[0][0]
        for x in a[0][1:]:
            r = r ^ x
        return r
    if name.startswith('vector.reduce.add'):
        w = int(name.split('i')[-1])
        return sum(a[0]) & ((1 << w) - 1)
    raise Unsupported(name)


class UBx(Exception):
    pass


def uitofp(x, w, fw):
    if type(x) is bool:
        x = int(x)
    if type(x) is not int:
        if type(x) is SymB:
            x = 1 if x else 0
        else:
            t = VMREF[0].int_to_float(x, w, False, fw) if type(x) is SymI else None
            if t is not None:
                return t
            x = VMREF[0].concretize(x)
    return i2f(x, fw)


def sitofp(x, w, fw):
    if type(x) is not int:
        t = VMREF[0].int_to_float(x, w, True, fw) if type(x) is SymI else None
        if t is not None:
            return t
        x = VMREF[0].concretize(x)
    return i2f(sgn(x, w), fw)


def i2f(x, fw):
    if fw == 64:
        return float(x)
    # correctly rounded integer -> f32
    s = -1 if x < 0 else 1
    m = abs(x)
    b = m.bit_length()
    if b <= 24:
        return float(x)
    sh = b - 24
    q = m >> sh
    r = m & ((1 << sh) - 1)
    h = 1 << (sh - 1)
    if r > h or (r == h and q & 1):
        q += 1
    return float(s * (q << sh))


def fptoi(x, fw, w, signed):
    if type(x) is float:
        return int(x) & ((1 << w) - 1)
    return VMREF[0].float_to_int(x, w, signed)


def fptoi_sat(x, fw, w, signed):
    if type(x) is float:
        if x != x:
            return 0
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if x <= lo:
            return lo & ((1 << w) - 1)
        if x >= hi:
            return hi
        return int(x) & ((1 << w) - 1)
    return VMREF[0].float_to_int(x, w, signed)


VMREF = [None]


def install(vm):
    from . import vm as vmm
    VMREF[0] = vm
    G = vm.G
    for k, v in globals().items():
        if not k.startswith('__'):
            G[k] = v
    G.update(C=vm.C, StepLimit=vmm.StepLimit, UB=vmm.UB, RustPanic=vmm.RustPanic, Unsupported=Unsupported,
             ldi=vm.ldi, ldu=vm.ldu, ldf=vm.ldf, st=vm.st, memcpy=vm.memcpy, memset=vm.memset, icall=vm.icall, INF=INF, NINF=-INF, NAN=NAN)
    global UBx
    UBx = vmm.UB
    objs = vm.objs

    def alloca(n, AL):
        p = vm.alloc(n if type(n) is int else vm.concretize(n), 'stack')
        AL.append(p)
        return p

    def freeall(AL):
        for p in AL:
            del objs[p >> 40]
    G['alloca'] = alloca
    G['freeall'] = freeall

    def ldvec(fn, a, es, n):
        return tuple([fn(a + i * es, es) for i in range(n)])
    G['ldvec'] = ldvec

    def loadrel(p, off):
        a = (p + sgn(vm.concretize(off), 64)) & M64
        o = vm.objs[a >> 40]
        return vm.relptr[id(o), a & ((1 << 40) - 1)]
    G['loadrel'] = loadrel

    def rmw(op, old, v, w):
        M = (1 << w) - 1
        if op == 'xchg':
            return v
        if op == 'add':
            return (old + v) & M
        if op == 'sub':
            return (old - v) & M
        if op == 'and':
            return old & v
        if op == 'or':
            return old | v
        if op == 'xor':
            return old ^ v
        if op == 'umax':
            return i_umax(old, v, w)
        if op == 'umin':
            return i_umin(old, v, w)
        raise Unsupported('atomicrmw ' + op)
    G['rmw'] = rmw

    def cmpx(a, sz, c, n):
        old = vm.ldi(a, sz)
        if old == c:
            vm.st(a, sz, n)
            return (old, True)
        return (old, False)
    G['cmpx'] = cmpx

    LM = vmm.LM

    def m1(name):
        def f(w, a):
            if type(a) is float:
                if a != a:
                    return a
                return LM[name, w](a)
            return TT.mk(name, w, a)
        return f
    for nme in ('sin', 'cos', 'tan', 'log', 'log10', 'log2', 'exp', 'exp2', 'sqrt', 'floor', 'ceil', 'round', 'trunc', 'rint', 'atan', 'asin', 'acos',
                'sinh', 'cosh', 'tanh'):
        G['m_' + nme] = m1(nme)
    G['m_nearbyint'] = G['m_roundeven'] = G['m_rint']

    def m_fabs(w, a):
        if type(a) is float:
            return abs(a)
        return TT.mk('abs', w, a)
    G['m_fabs'] = m_fabs

    def m_pow(w, a, b):
        if type(a) is float and type(b) is float:
            return LM['pow', w](a, b)
        return TT.mk('pow', w, a, b)
    G['m_pow'] = m_pow

    def m_powi(w, a, b):
        n = sgn(b, 32)
        if type(a) is float:
            # compiler-rt's __powi*
            mul = fmul32 if w == 32 else fmul64
            r = 1.0
            neg = n < 0
            n = abs(n)
            while True:
                if n & 1:
                    r = mul(r, a)
                n //= 2
                if n == 0:
                    break
                a = mul(a, a)
            if neg:
                return (fdiv32 if w == 32 else fdiv64)(1.0, r)
            return r
        mul = fmul32 if w == 32 else fmul64
        r = 1.0
        neg = n < 0
        n = abs(n)
        first = True
        while True:
            if n & 1:
                r = a if first else mul(r, a)
                first = False
            n //= 2
            if n == 0:
                break
            a = mul(a, a)
        return (fdiv32 if w == 32 else fdiv64)(1.0, r) if neg else r
    G['m_powi'] = m_powi

    def m_fma(w, a, b, c):
        if type(a) is float and type(b) is float and type(c) is float:
            return LM['fma', w](a, b, c)
        return TT.mk('fma', w, a, b, c)
    G['m_fma'] = m_fma

    def m_fmuladd(w, a, b, c):
        if w == 32:
            return fadd32(fmul32(a, b), c)
        return fadd64(fmul64(a, b), c)
    G['m_fmuladd'] = m_fmuladd

    def mm(op):
        def f(w, a, b):
            if type(a) is float and type(b) is float:
                if a != a:
                    return b
                if b != b:
                    return a
                return max(a, b) if op == 'max' else min(a, b)
            if type(a) is float and a != a:
                return b
            if type(b) is float and b != b:
                return a
            return TT.mk(op, w, a, b)
        return f
    G['m_maxnum'] = G['m_maximumnum'] = G['m_maximum'] = mm('max')
    G['m_minnum'] = G['m_minimumnum'] = G['m_minimum'] = mm('min')

    def m_copysign(w, a, b):
        if type(a) is float and type(b) is float:
            return math.copysign(a, b)
        m = m_fabs(w, a)
        if type(b) is float:
            return fneg(m, w) if math.copysign(1.0, b) < 0 else m
        vm = VMREF[0]
        if vm.truth(vm.dom.cmp('gt', b, 0.0)):
            return m
        return fneg(m, w) if signbit(b) else m
    G['m_copysign'] = m_copysign

    def m_sincos(w, a):
        return (G['m_sin'](w, a), G['m_cos'](w, a))
    G['m_sincos'] = m_sincos

    def fpclass(a, mask):
        # 1 snan 2 qnan 4 -inf 8 -normal 16 -subnormal 32 -0 64 +0 128 +sub 256 +norm 512 +inf
        if type(a) is not float:
            if mask in (3, 516, 519, 512, 4):
                return False        # symbolic inputs are finite; overflow is outside the stated box
            if mask in (504, 1020 & 504):
                return True
            m = mask & 504
            if m in (0, 504):
                return m == 504
            if m & 96 in (0, 96) and m & 384 in (0, 384) and m & 24 in (0, 24):
                vm = VMREF[0]
                if vm.truth(vm.dom.cmp('gt', a, 0.0)):
                    return bool(m & 384)
                if m & 96 == (96 if m & 24 else 0):
                    return bool(m & 24)
                return bool(m & 24) if vm.truth(vm.dom.cmp('lt', a, 0.0)) else bool(m & 96)
            if m == 64 and vm_positive(a):
                return False
            raise Unsupported('fpclass %d of a symbolic value' % mask)
        if a != a:
            c = 2
        elif a == INF:
            c = 512
        elif a == -INF:
            c = 4
        elif a == 0:
            c = 64 if math.copysign(1, a) > 0 else 32
        else:
            sub = abs(a) < (1.1754943508222875e-38)
            c = (128 if sub else 256) if a > 0 else (16 if sub else 8)
        return bool(mask & c)
    G['fpclass'] = fpclass

    def fcmp(pred, a, b):
        if type(a) is float and type(b) is float:
            un = a != a or b != b
            if pred == 'ord':
                return not un
            if pred == 'uno':
                return un
            if pred == 'true':
                return True
            if pred == 'false':
                return False
            if un:
                return pred[0] == 'u'
            k = pred[1:]
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[k]
        if pred == 'ord':
            return not ((type(a) is float and a != a) or (type(b) is float and b != b))
        if pred == 'uno':
            return (type(a) is float and a != a) or (type(b) is float and b != b)
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        if (type(a) is float and a != a) or (type(b) is float and b != b):
            return pred[0] == 'u'
        return vm.float_cmp(pred[1:], a, b)
    G['fcmp'] = fcmp

    def bitcast(v, t, t2):
        if t == t2:
            return v
        # to bytes
        from .ir import sizeof
        if t[0] == 'vec' and t[2] == ('i', 1):
            r = 0
            for i, b in enumerate(v):
                if (b if type(b) is bool else bool(b)):
                    r |= 1 << i
            return r
        if t2[0] == 'vec' and t2[2] == ('i', 1):
            return tuple(bool(v >> i & 1) for i in range(t2[1]))
        if t[0] == 'vec':
            es = sizeof(t[2])
            parts = [(es, x) for x in v]
        else:
            parts = [(sizeof(t), v)]
        whole = norm(parts, sum(n for n, _ in parts))

        def take(off, et):
            n = sizeof(et)
            if type(whole) is int:
                x = (whole >> (8 * off)) & ((1 << (8 * n)) - 1)
            elif type(whole) is SymI:
                x = mki(z3.Extract(8 * (off + n) - 1, 8 * off, whole.e))
            else:
                x = whole.slice(off, n)
            if et[0] == 'f':
                if type(x) is int:
                    return frombits(x, n)
                if type(x) is Pack and len(x.parts) == 1:
                    return x.parts[0][1]
                raise Unsupported('bitcast to float of %r' % (x,))
            return x
        if t2[0] == 'vec':
            es = sizeof(t2[2])
            return tuple(take(i * es, t2[2]) for i in range(t2[1]))
        return take(0, t2)
    G['bitcast'] = bitcast
