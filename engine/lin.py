"""Real-arithmetic semantics of the float terms with sound rounding bounds.

Every term is mapped to  value = const + sum coef_i * v_i + eps, |eps| <= err,  where v_i are the free inputs,
monomials of inputs, or atoms for operations that are not polynomial.  Every IEEE operation contributes
|value|*u + tiny to err (standard model, u = 2^-24 or 2^-53).  The formulas handed to the solver are built
from these forms: the solver quantifies over all v_i in their boxes and all eps in [-err, err]."""
import math
import numpy as np
import z3
from fractions import Fraction
from .sym import Term, TT, SymB, Unsupported, rf

U = {32: 2.0 ** -24, 64: 2.0 ** -53, 0: 0.0}
TINY = {32: 2.0 ** -149, 64: 2.0 ** -1074, 0: 0.0}
LOGS = {'log': 1.0, 'log10': 1 / math.log(10), 'log2': 1 / math.log(2)}
MONO = ('sqrt', 'log', 'log10', 'log2', 'floor', 'ceil', 'round', 'rint')
UP = 1 + 2.0 ** -40      # covers rounding of the bookkeeping itself


class Form:
    __slots__ = ('k', 'c', 'err', 'lo', 'hi')

    def __init__(self, k, c, err, lo, hi):
        self.k = k
        self.c = c          # numpy array or None
        self.err = err
        self.lo = lo
        self.hi = hi

    @property
    def mag(self):
        return max(abs(self.lo), abs(self.hi))


def ispow2(x):
    m, _ = math.frexp(abs(x))
    return m == 0.5


class Dom:
    def __init__(self, vm):
        self.vm = vm
        self.reset()

    def reset(self):
        self.vlo = []
        self.vhi = []
        self.vdef = []       # ('x', input no) | ('mono', i, j) | ('atom', op, term ids)
        self.mono = {}
        self.atoms = {}
        self.inp = {}        # input number -> var
        self.cache = {}
        self.fatoms = {}     # op -> [(variable, argument forms, precision)]
        self.bvs = []        # bit vectors turned into reals: (expression, smallest, largest value)
        self.truncs = {}
        self.opaque = {}
        self.decided = {}    # comparison decided on this path -> outcome
        self.ints = {}       # term id -> whether its value is an integer
        self.risks = []      # (what, form, kind): conditions a value must meet to be a number
        self.z = []
        self._lo = self._hi = None
        self.noise = False   # keep each rounding error as its own variable (for recursions that damp errors)
        self.noisy = None

    def collapse(self, f):
        """turn the rounding variables of a form back into an error bound"""
        if not self.noise or f.c is None:
            return f
        n = len(f.c)
        m = np.array([d[0] == 'noise' for d in self.vdef[:n]])
        if not f.c[m].any():
            return f
        hi = self.bounds(n)[1]
        e = float(np.abs(f.c[m]) @ hi[m])
        c = f.c.copy()
        c[m] = 0.0
        return Form(f.k, c if c.any() else None, (f.err + e) * UP, f.lo, f.hi)

    # ---- variables
    def newvar(self, lo, hi, d):
        i = len(self.vlo)
        self.vlo.append(lo)
        self.vhi.append(hi)
        self.vdef.append(d)
        self.z.append(None)
        self._lo = None
        return i

    def bounds(self, n):
        if self._lo is None or len(self._lo) != len(self.vlo):
            self._lo = np.array(self.vlo)
            self._hi = np.array(self.vhi)
        return self._lo[:n], self._hi[:n]

    def zvar(self, i):
        v = self.z[i]
        if v is None:
            v = self.z[i] = z3.Real('r%d' % i)
            self.vm.assume(z3.And(v >= rv(self.vlo[i]), v <= rv(self.vhi[i])))
            d = self.vdef[i]
            if d[0] == 'bv':
                self.vm.assume(v == z3.ToReal(z3.BV2Int(d[1])))
            elif d[0] == 'trunc':
                a, ea = self.zexpr(d[2]), rv(d[2].err)
                self.vm.assume(z3.And(v == z3.ToReal(z3.BV2Int(d[1])), v <= a + ea, v >= a - ea if d[3] else v > a - ea - 1))
            if d[0] == 'fun':
                self.axioms(i, v, d)
        return v

    def ev_neg(self, f):
        return Form(-f.k, None if f.c is None else -f.c, f.err, -f.hi, -f.lo)

    def trunc_var(self, f, whole=False):
        """integer part of a form that is not negative, as a bit vector (or a number when there is only one);
        whole: the value is known to be an integer"""
        f = self.collapse(f)
        lo, hi = max(0, math.floor(f.lo)), max(0, math.floor(f.hi))
        if lo == hi:
            return lo
        n = hi.bit_length()
        b = z3.BitVec('t%d' % len(self.vlo), n)
        i = self.newvar(float(lo), float(hi), ('trunc', b, f, whole))
        self.bvs.append((z3.simplify(b), lo, hi))
        self.mono['i2f', len(self.bvs) - 1] = i
        self.zvar(i)
        return b

    def isint(self, x):
        """the float is known to be an integer"""
        if type(x) is float:
            return x == math.floor(x)
        r = self.ints.get(x.id)
        if r is None:
            r = x.op in ('i2f', 'floor', 'ceil', 'round', 'trunc', 'rint') or x.op in ('+', '-', '*', 'neg', 'abs', 'ext', 'fptrunc', 'max', 'min') and all(self.isint(a) for a in x.args) or x.op == '/' and x.args[0] is x.args[1]
            self.ints[x.id] = r
        return r

    def exact_int(self, p, f, *args):
        return all(self.isint(a) for a in args) and f.mag + 1 <= {32: 2.0 ** 24, 64: 2.0 ** 53, 0: 2.0 ** 53}[p]

    def axioms(self, i, v, d):
        """facts about a function atom: v is the computed value"""
        _, op, fs, slack = d
        es = [(self.zexpr(f), rv(f.err)) for f in fs]
        A = self.vm.assume
        if op == 'max':
            (a, ea), (b, eb) = es
            A(z3.And(v >= a - ea, v >= b - eb, z3.Or(v <= a + ea, v <= b + eb)))
        elif op == 'min':
            (a, ea), (b, eb) = es
            A(z3.And(v <= a + ea, v <= b + eb, z3.Or(v >= a - ea, v >= b - eb)))
        elif op == 'abs':
            a, ea = es[0]
            A(z3.And(v >= a - ea, v >= -a - ea, z3.Or(v <= a + ea, v <= -a + ea)))
        elif op in MONO:
            a, ea = es[0]
            if op == 'floor':
                A(z3.And(v <= a + ea, v >= a - ea - 1))
            elif op == 'ceil':
                A(z3.And(v >= a - ea, v <= a + ea + 1))
            elif op in ('round', 'rint'):
                A(z3.And(v >= a - ea - rv(0.5), v <= a + ea + rv(0.5)))
            for j, _, _ in self.fatoms.get(op, ()):
                if j != i and self.z[j] is not None:
                    w = self.z[j]
                    b, eb = self.zexpr(self.vdef[j][2][0]), rv(self.vdef[j][2][0].err)
                    sl = rv(slack + self.vdef[j][3])
                    A(z3.And(z3.Or(a > b + ea + eb, v <= w + sl), z3.Or(b > a + ea + eb, w <= v + sl)))
                    if op in LOGS and self.bvs:
                        # concave: at least the slope at the right end
                        m = LOGS[op] / max(fs[0].hi, self.vdef[j][2][0].hi) * (1 - 1e-9)
                        if m > 0:
                            k = rv(m)
                            sl = rv(slack + self.vdef[j][3] + m * (fs[0].err + self.vdef[j][2][0].err))
                            A(z3.And(z3.Or(a > b, w - v >= k * (b - a) - sl), z3.Or(b > a, v - w >= k * (a - b) - sl)))

    # ---- forms
    def const(self, k):
        return Form(k, None, 0.0, k, k)

    def rng(self, k, c, err):
        if c is None:
            return k - err, k + err
        lo, hi = self.bounds(len(c))
        p = np.maximum(c, 0)
        n = np.minimum(c, 0)
        l = k + float(p @ lo + n @ hi)
        h = k + float(p @ hi + n @ lo)
        s = (abs(k) + float(np.abs(c) @ np.maximum(np.abs(lo), np.abs(hi)))) * 1e-13
        return l - err - s, h + err + s

    def l1(self, k, c):
        if c is None:
            return abs(k)
        lo, hi = self.bounds(len(c))
        return abs(k) + float(np.abs(c) @ np.maximum(np.abs(lo), np.abs(hi)))

    def mkform(self, k, c, err, exact, prec, lo=None, hi=None):
        """finish a form: add bookkeeping and operation rounding errors"""
        if c is not None:
            err = err + self.l1(k, c) * 2.0 ** -53
        l, h = self.rng(k, c, err)
        if lo is not None:
            l = max(l, lo)
            h = min(h, hi)
        if not exact:
            m = max(abs(l), abs(h))
            e = m * U[prec] * UP + TINY[prec]
            l -= e
            h += e
            if self.noise and c is not None:
                # the bookkeeping error of the form moves into the variable as well, or it would grow step by step
                e = (e + err) * UP
                err = 0.0
                i = self.newvar(-e, e, ('noise',))
                c = np.concatenate([c, np.zeros(i + 1 - len(c))])
                c[i] = 1.0
            else:
                err += e
        return Form(k, c, err * UP, l, h)

    def of(self, t):
        if type(t) is float:
            return self.const(t)
        f = self.cache.get(t.id)
        if f is None:
            self.sync_inputs()
            # iterative evaluation of the not yet evaluated sub-DAG, in creation order
            need = []
            stack = [t]
            seen = set()
            while stack:
                x = stack.pop()
                if type(x) is not Term or x.id in self.cache or x.id in seen:
                    continue
                seen.add(x.id)
                need.append(x)
                if x.op != 'x':
                    stack.extend(x.args if x.op != 'i2f' else ())
            need.sort(key=lambda x: x.id)
            for x in need:
                self.cache[x.id] = self.ev(x)
            f = self.cache[t.id]
        return f

    def sync_inputs(self):
        ins = TT.inputs
        for n in range(len(self.inp), len(ins)):
            _, lo, hi = ins[n].args
            self.inp[n] = self.newvar(lo, hi, ('x', n))

    def unit(self, i, err=0.0):
        c = np.zeros(i + 1)
        c[i] = 1.0
        return Form(0.0, c, err, self.vlo[i] - err, self.vhi[i] + err)

    def add(self, a, b, sb, exact, prec):
        k = a.k + sb * b.k
        if a.c is None:
            c = None if b.c is None else (b.c if sb > 0 else -b.c)
        elif b.c is None:
            c = a.c
        else:
            n = max(len(a.c), len(b.c))
            if len(a.c) == n:
                c = a.c.copy()
                if sb > 0:
                    c[:len(b.c)] += b.c
                else:
                    c[:len(b.c)] -= b.c
            else:
                c = b.c.copy() if sb > 0 else -b.c
                c[:len(a.c)] += a.c
            if not c.any():
                c = None
        lo, hi = (a.lo + b.lo, a.hi + b.hi) if sb > 0 else (a.lo - b.hi, a.hi - b.lo)
        s = (abs(lo) + abs(hi)) * 1e-15
        kerr = 0.0 if c is not None else abs(k) * 2.0 ** -53
        f = self.mkform(k, c, a.err + b.err + kerr, exact, prec, lo - s, hi + s)
        if f.lo < 0 and a.lo >= 0 and (b.lo >= 0 if sb > 0 else b.hi <= 0):
            f.lo = 0.0       # a rounded sum of values that are not negative
        return f

    def scale(self, a, s, exact, prec):
        c = None if a.c is None else a.c * s
        k = a.k * s
        kerr = 0.0 if c is not None else abs(k) * 2.0 ** -53
        return self.mkform(k, c, a.err * abs(s) + (0.0 if exact else kerr), exact, prec)

    def mul(self, a, b, exact, prec):
        if b.c is None and b.err == 0:
            s = b.k
            return self.scale(a, s, exact or s in (0.0,) or ispow2(s), prec)
        if a.c is None and a.err == 0:
            return self.mul(b, a, exact, prec)
        # polynomial product over monomial variables
        if self.noise:
            same = a is b
            a = self.collapse(a)
            b = a if same else self.collapse(b)
        err = a.err * b.mag + b.err * a.mag + a.err * b.err
        ai = [] if a.c is None else [int(i) for i in np.nonzero(a.c)[0]]
        bi = [] if b.c is None else [int(i) for i in np.nonzero(b.c)[0]]
        if len(ai) * len(bi) > 5000:
            raise Unsupported('product of large forms')
        acc = {}
        for i in ai:
            for j in bi:
                m = self.monomial(i, j)
                acc[m] = acc.get(m, 0.0) + float(a.c[i]) * float(b.c[j])
            if b.k:
                acc[i] = acc.get(i, 0.0) + float(a.c[i]) * b.k
        for j in bi:
            if a.k:
                acc[j] = acc.get(j, 0.0) + a.k * float(b.c[j])
        k = a.k * b.k
        c = None
        if acc:
            c = np.zeros(max(acc) + 1)
            for i, v in acc.items():
                c[i] = v
        ps = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        lo, hi = min(ps), max(ps)
        if a is b:
            lo = 0.0 if a.lo <= 0 <= a.hi else min(a.lo ** 2, a.hi ** 2)
            hi = max(a.lo ** 2, a.hi ** 2)
        s = (abs(lo) + abs(hi)) * 1e-14
        e2 = 0.0 if c is None else self.l1(k, c) * 2.0 ** -52
        f = self.mkform(k, c, err + e2, exact, prec, lo - s, hi + s)
        if f.lo < 0 and (a is b or a.lo >= 0 and b.lo >= 0 or a.hi <= 0 and b.hi <= 0):
            f.lo = 0.0
        return f

    def factors(self, i):
        d = self.vdef[i]
        return d[1] if d[0] == 'mono' else (i,)

    def monomial(self, i, j):
        key = tuple(sorted(self.factors(i) + self.factors(j)))
        m = self.mono.get(key)
        if m is None:
            lo, hi = 1.0, 1.0
            k = 0
            while k < len(key):
                v = key[k]
                e = 1
                while k + e < len(key) and key[k + e] == v:
                    e += 1
                a, b = self.vlo[v], self.vhi[v]
                if e % 2 == 0:
                    l = 0.0 if a <= 0 <= b else min(abs(a), abs(b)) ** e
                    h = max(abs(a), abs(b)) ** e
                else:
                    l, h = a ** e, b ** e
                ps = [lo * l, lo * h, hi * l, hi * h]
                lo, hi = min(ps), max(ps)
                k += e
            m = self.mono[key] = self.newvar(lo, hi, ('mono', key))
        return m

    def fun(self, op, t, fs, lo, hi, prec, lip, rnd=0.0):
        """the value of a function outside polynomial arithmetic: a variable for the computed value. An argument that
        provably lies close to that of an earlier application of the same function shares its variable, the distance
        becoming rounding error (lip: bound on the derivative for each argument)."""
        fs = tuple(self.collapse(f) for f in fs)
        if lip is not None:
            for i, gs, rnd2 in self.fatoms.get(op, ()):
                D = 0.0
                for f, g, l in zip(fs, gs, lip(fs, gs)):
                    if l is None:
                        l = (lambda x: math.sqrt(x))
                    d = self.add(f, g, -1, True, 64)
                    m = max(abs(d.lo), abs(d.hi))
                    D += l(m) if callable(l) else l * m
                if D <= 1e-3 * max(hi - lo, 1e-30):
                    return self.unit(i, (D + rnd + rnd2) * UP)
        i = self.newvar(lo, hi, ('fun', op, tuple(fs), rnd))
        self.fatoms.setdefault(op, []).append((i, tuple(fs), rnd))
        return self.unit(i)

    def ev(self, t):
        op = t.op
        p = t.prec
        if op == 'x':
            self.sync_inputs()
            return self.unit(self.inp[t.args[0]])
        if op == 'i2f':
            e, lo, hi = self.bvs[t.args[0]]
            key = ('i2f', t.args[0])
            i = self.mono.get(key)
            if i is None:
                i = self.mono[key] = self.newvar(float(lo), float(hi), ('bv', e))
            self.zvar(i)
            f = self.unit(i)
            return f if hi <= (1 << 24) or p != 32 else self.mkform(f.k, f.c, f.err, False, p)
        a = [self.of1(x) for x in t.args]
        if p and all(f.c is None and f.err == 0 and f.lo == f.hi == f.k for f in a):
            v = self.fold(op, p, [f.k for f in a])
            if v is not None and not (v != v or math.isinf(v)):
                return self.const(v)
        if op in ('+', '-', '*') and self.bvs and self.isint(t):
            f = self.mul(a[0], a[1], True, p) if op == '*' else self.add(a[0], a[1], 1 if op == '+' else -1, True, p)
            if self.exact_int(p, f, *t.args):
                return f
        if op == '+':
            ex = (a[0].c is None and a[0].lo == a[0].hi == 0) or (a[1].c is None and a[1].lo == a[1].hi == 0)
            return self.add(a[0], a[1], 1, ex, p)
        if op == '-':
            ex = (a[1].c is None and a[1].lo == a[1].hi == 0)
            return self.add(a[0], a[1], -1, ex, p)
        if op == '*':
            return self.mul(a[0], a[1], False, p)
        if op == 'fma':
            return self.add(self.mul(a[0], a[1], True, p), a[2], 1, False, p)
        if op == 'neg':
            f = a[0]
            return Form(-f.k, None if f.c is None else -f.c, f.err, -f.hi, -f.lo)
        if op == 'ext':
            return a[0]
        if op == 'fptrunc':
            f = a[0]
            return self.mkform(f.k, f.c, f.err, False, 32, f.lo, f.hi)
        if op == '/':
            if t.args[0] is t.args[1]:
                return self.const(1.0)
            if a[1].c is None and a[1].err == 0 and a[1].k != 0:
                s = a[1].k
                if ispow2(s):
                    return self.scale(a[0], 1 / s, True, p)
                f = self.scale(a[0], 1 / s, False, p)
                f.err += f.mag * 2.0 ** -52
                return f
        return self.nonlin(t, op, p, a)

    @staticmethod
    def fold(op, p, v):
        """the result the machine computes from numbers"""
        r = rf if p == 32 else float
        try:
            if op == '+':
                return r(v[0] + v[1])
            if op == '-':
                return r(v[0] - v[1])
            if op == '*':
                return r(v[0] * v[1])
            if op == '/':
                return r(v[0] / v[1])
            if op in ('neg', 'abs'):
                return -v[0] if op == 'neg' else abs(v[0])
            if op in ('max', 'min'):
                return (max if op == 'max' else min)(v)
            if op in ('ext', 'fptrunc'):
                return v[0] if op == 'ext' else rf(v[0])
            if op == 'sqrt':
                return r(math.sqrt(v[0]))
            if op in ('floor', 'ceil', 'trunc'):
                return float(getattr(math, op)(v[0]))
            if op == 'round':
                return math.copysign(math.floor(abs(v[0]) + 0.5), v[0]) if abs(v[0]) < 2.0 ** 22 else None
        except (ArithmeticError, ValueError):
            pass
        return None

    def of1(self, x):
        return self.const(x) if type(x) is float else self.cache[x.id]

    def nonlin(self, t, op, p, a):
        """operations outside polynomial arithmetic become atoms with an interval"""
        f = a[0]
        if op in ('max', 'min'):
            g = a[1]
            if op == 'min':
                if f.hi <= g.lo:
                    return f
                if g.hi <= f.lo:
                    return g
                lo, hi = min(f.lo, g.lo), min(f.hi, g.hi)
            else:
                if f.lo >= g.hi:
                    return f
                if g.lo >= f.hi:
                    return g
                lo, hi = max(f.lo, g.lo), max(f.hi, g.hi)
            return self.fun(op, t, (f, g), lo, hi, p, lambda x, y: (1.0, 1.0))
        if op == 'abs':
            if f.lo >= 0:
                return f
            if f.hi <= 0:
                return Form(-f.k, None if f.c is None else -f.c, f.err, -f.hi, -f.lo)
            return self.fun(op, t, (f,), 0.0, f.mag, p, lambda x, y: (1.0,))
        if op == 'sqrt':
            if f.lo < 0:
                self.risks.append(('square root of a negative value', f, 'ge'))
            lo = math.sqrt(max(0.0, f.lo)) * (1 - 1e-6)
            hi = math.sqrt(max(0.0, f.hi)) * (1 + 1e-6)

            def lip(x, y):
                m = min(x[0].lo, y[0].lo)
                return (0.5 / math.sqrt(m),) if m > 0 else (None,)
            return self.fun(op, t, (f,), lo, hi, p, lip, hi * U[p] * 2)
        if op == '/':
            g = a[1]
            if g.lo > 0 or g.hi < 0:
                qs = [f.lo / g.lo, f.lo / g.hi, f.hi / g.lo, f.hi / g.hi]
                lo, hi = min(qs), max(qs)
            else:
                raise Unsupported('division by a form containing zero')
            return self.quotient(f, g, lo, hi, p)
        if op in ('log', 'log10', 'log2'):
            fn = {'log': math.log, 'log10': math.log10, 'log2': math.log2}[op]
            sc = {'log': 1.0, 'log10': 1 / math.log(10), 'log2': 1 / math.log(2)}[op]
            if f.lo <= 0:
                self.risks.append(('logarithm of a non-positive value', f, 'gt'))
            lo, hi = fn(max(f.lo, 1e-45)), fn(max(f.hi, 1e-45))
            f = self.collapse(f)
            if (f.c is None or not f.c.any()) and f.k > 4 * f.err >= 0:
                # the logarithm of a number known up to its rounding (exactly 0 at exactly 1)
                v = fn(f.k)
                e = (f.err * sc / (f.k - f.err) + abs(v) * (8 * U[p] + 2.0 ** -50)) * UP
                return Form(v, None, e, v - e, v + e)
            s = max(abs(lo), abs(hi)) * 1e-6 + 1e-6

            def lip(x, y):
                m = min(x[0].lo, y[0].lo)
                return (sc / m if m > 0 else (lambda d: 0.0 if d == 0 else 1e300),)
            return self.fun(op, t, (f,), lo - s, hi + s, p, lip, (max(abs(lo), abs(hi)) * 4 + 1e-30) * U[p])
        if op in ('floor', 'ceil', 'round', 'trunc', 'rint'):
            if self.isint(t.args[0]):
                return f
            if math.floor(f.lo) == math.floor(f.hi) and op == 'floor':
                return self.const(float(math.floor(f.lo)))
            return self.fun(op, t, (f,), math.floor(f.lo) - 1, math.ceil(f.hi) + 1, p, lambda x, y: (lambda d: 0.0 if d == 0 else 1e300,))
        if op in ('sin', 'cos'):
            # even and odd symmetry: arguments of opposite sign share an atom
            f = self.collapse(f)
            if f.c is None or not f.c.any():
                v = getattr(math, op)(f.k)
                e = f.err + 4 * U[p] + 2.0 ** -50
                return Form(v, None, e, v - e, v + e)
            neg = f.c[np.nonzero(f.c)[0][-1]] < 0
            if neg:
                f = Form(-f.k, -f.c, f.err, -f.hi, -f.lo)
            r = self.fun(op, t, (f,), -1.0, 1.0, p, lambda x, y: (1.0,), 4 * U[p])
            return Form(-r.k, -r.c, r.err, -r.hi, -r.lo) if neg and op == 'sin' else r
        raise Unsupported('nonlinear ' + op)

    def quotient(self, f, g, lo, hi, p):
        """f / g for a divisor whose interval excludes zero"""
        f, g = self.collapse(f), self.collapse(g)
        gm = min(abs(g.lo), abs(g.hi))
        m = max(abs(lo), abs(hi))
        s = m * 1e-9
        if g.c is None or not g.c.any():
            z = self.scale(f, 1 / g.k, True, 64)
            return self.mkform(z.k, z.c, z.err + m * (g.err / gm + 2.0 ** -50), False, p, lo - s, hi + s)
        q = self.polydiv(f, g)
        if q is not None:
            return self.mkform(q.k, q.c, q.err, False, p, lo - s, hi + s)
        # f * (1/g), the reciprocal being an atom of the divisor scaled to a unit coefficient
        sc = float(g.c[np.argmax(np.abs(g.c))])
        n = Form(g.k / sc, g.c / sc, g.err / abs(sc) * UP, min(g.lo / sc, g.hi / sc), max(g.lo / sc, g.hi / sc))
        n.err += n.mag * 2.0 ** -51
        rl, rh = sorted((1 / n.lo, 1 / n.hi))
        e = max(abs(rl), abs(rh)) * 1e-12

        def lip(x, y):
            v = min(abs(z) for q in (x[0], y[0]) for z in (q.lo, q.hi))
            return (1 / v ** 2,)
        r = self.fun('recip', None, (n,), rl - e, rh + e, 64, lip, 0.0)
        r = self.scale(r, 1 / sc, True, 64)
        r.err += r.mag * 2.0 ** -51
        z = self.mul(f, r, True, 64)
        return self.mkform(z.k, z.c, z.err, False, p, lo - s, hi + s)

    def polydiv(self, f, g):
        """the quotient if f is a polynomial multiple of g up to rounding"""
        gi = [int(i) for i in np.nonzero(g.c)[0]]
        if f.c is None or len(gi) > 40 or len(np.nonzero(f.c)[0]) > 400:
            return None
        fac = lambda i: () if i < 0 else self.factors(i)
        G = {fac(i): float(g.c[i]) for i in gi}
        if g.k:
            G[()] = g.k
        R = {fac(int(i)): float(f.c[i]) for i in np.nonzero(f.c)[0]}
        if f.k:
            R[()] = f.k
        order = lambda m: (len(m), m)
        lead = max(G, key=order)
        big = max(abs(v) for v in R.values())
        Q = {}
        rest = 0.0
        mag = lambda key: math.prod(max(abs(self.vlo[v]), abs(self.vhi[v])) for v in key)
        while R:
            t = max(R, key=order)
            v = R.pop(t)
            d = list(t)
            try:
                for x in lead:
                    d.remove(x)
            except ValueError:
                rest += abs(v) * mag(t)
                if rest > 1e-4 * big:
                    return None
                continue
            d = tuple(d)
            c = v / G[lead]
            if abs(v) < 1e-9 * big:
                rest += abs(v) * mag(t)
                continue
            Q[d] = Q.get(d, 0.0) + c
            if len(Q) > 60:
                return None
            for k2, w in G.items():
                if k2 != lead:
                    m = tuple(sorted(d + k2))
                    R[m] = R.get(m, 0.0) - c * w
                    if R[m] == 0.0:
                        del R[m]
        q = self.const(Q.pop((), 0.0))
        if Q:
            ids = {}
            for m, v in Q.items():
                i = m[0]
                for x in m[1:]:
                    i = self.monomial(i, x)
                ids[i] = v
            c = np.zeros(max(ids) + 1)
            for i, v in ids.items():
                c[i] = v
            q = self.mkform(q.k, c, 0.0, True, 64)
        gm = min(abs(g.lo), abs(g.hi))
        q.err += (f.err + rest + q.mag * g.err + (f.mag + q.mag * g.mag) * 2.0 ** -48) / gm
        return q

    # ---- formulas
    def zexpr(self, f):
        assert f is self.collapse(f)
        e = rv(f.k)
        if f.c is not None:
            terms = []
            for i in np.nonzero(f.c)[0]:
                terms.append(rv(float(f.c[i])) * self.zvar(int(i)))
            if terms:
                e = e + z3.Sum(terms)
        return e

    def cmp(self, k, a, b):
        for x, y, q in ((a, b, k), (b, a, {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(k, k))):
            if type(y) is float and math.isinf(y):
                # values are finite
                return q == 'ne' or (q in ('lt', 'le') if y > 0 else q in ('gt', 'ge'))
        fa, fb = self.of(a), self.of(b)
        d = self.collapse(self.add(fa, fb, -1, True, 64))
        if d.c is not None and d.k - fa.k == -fb.k and d.k + fb.k == fa.k and (fa.c is None or fb.c is None or not ((fa.c[:len(fb.c)] != 0) & (fb.c[:len(fa.c)] != 0)).any()):
            # the difference of the two forms is exact
            ca, cb = self.collapse(fa), self.collapse(fb)
            d = Form(d.k, d.c, (ca.err + cb.err) * UP, d.lo, d.hi)
        lo, hi, err = d.lo, d.hi, d.err
        if k in ('lt', 'ge'):
            if hi < 0:
                return k == 'lt'
            if lo >= 0:
                return k == 'ge'
        elif k in ('gt', 'le'):
            if lo > 0:
                return k == 'gt'
            if hi <= 0:
                return k == 'le'
        else:
            if lo > 0 or hi < 0:
                return k == 'ne'
            if lo == 0 == hi:
                return k == 'eq'
        e = self.zexpr(d)
        E = rv(err)
        r = (fa, fb, k, (a.id if type(a) is Term else ('k', a), b.id if type(b) is Term else ('k', b)))
        if k == 'lt':
            return SymB(e < E, e >= -E, r)
        if k == 'ge':
            return SymB(e >= -E, e < E, r)
        if k == 'gt':
            return SymB(e > -E, e <= E, r)
        if k == 'le':
            return SymB(e <= E, e > -E, r)
        if k == 'eq':
            return SymB(z3.And(e <= E, e >= -E), z3.Or(e != 0, z3.BoolVal(err > 0)), r)
        return SymB(z3.Or(e != 0, z3.BoolVal(err > 0)), z3.And(e <= E, e >= -E), r)

    def refine(self, a, b, k):
        """the computed values of a and b stand in relation k on this path"""
        self.refine1(a, b, k)
        for f in (a, b):
            if f.c is not None and f.err == 0 and f.k == 0:
                nz = np.nonzero(f.c)[0]
                if len(nz) == 1 and f.c[nz[0]] == 1.0 and self.vdef[nz[0]][0] != 'noise':
                    i = int(nz[0])
                    if f.lo > self.vlo[i] or f.hi < self.vhi[i]:
                        self.vlo[i] = max(self.vlo[i], f.lo)
                        self.vhi[i] = min(self.vhi[i], f.hi)
                        self._lo = None
                    if f.lo == f.hi:
                        f.k, f.c = f.lo, None

    @staticmethod
    def refine1(a, b, k):
        if k in ('lt', 'le', 'eq'):
            a.hi = min(a.hi, b.hi)
            b.lo = max(b.lo, a.lo)
        if k in ('gt', 'ge', 'eq'):
            a.lo = max(a.lo, b.lo)
            b.hi = min(b.hi, a.hi)


def rv(x):
    fr = Fraction(x)
    return z3.RealVal(fr)
