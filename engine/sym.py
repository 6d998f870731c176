"""Symbolic values: float terms (hash-consed DAG), bit-vector integers, booleans, byte packs."""
import z3, struct, ctypes, math

M64 = (1 << 64) - 1
_cf = ctypes.c_float


def rf(x):
    return _cf(x).value


class Unsupported(Exception):
    pass


class Term:
    """float term. op 'x' = free input."""
    __slots__ = ('op', 'prec', 'args', 'id', 'cache')

    def __repr__(self):
        return 'T%d' % self.id

    def __float__(self):
        raise Unsupported('float of symbolic term')

    def __bool__(self):
        raise Unsupported('bool of symbolic float')


class TermTable:
    def __init__(self):
        self.tab = {}
        self.nodes = []
        self.inputs = []

    def reset(self):
        self.tab.clear()
        self.nodes = []
        self.inputs = []

    def mk(self, op, prec, *args):
        key = (op, prec) + tuple([a.id if type(a) is Term else ('k', a.hex() if type(a) is float else a) for a in args])
        t = self.tab.get(key)
        if t is None:
            t = Term()
            t.op = op
            t.prec = prec
            t.args = args
            t.id = len(self.nodes)
            t.cache = None
            self.nodes.append(t)
            self.tab[key] = t
        return t

    def var(self, prec, lo=-1.0, hi=1.0):
        t = Term()
        t.op = 'x'
        t.prec = prec
        t.args = (len(self.inputs), lo, hi)
        t.id = len(self.nodes)
        t.cache = None
        self.nodes.append(t)
        self.inputs.append(t)
        return t


TT = TermTable()


NEG = {'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt', 'eq': 'ne', 'ne': 'eq'}


class SymB:
    """symbolic condition. t: z3 Bool that is necessary for the condition being true; f: for being false."""
    __slots__ = ('t', 'f', 'r')
    vm = None

    def __init__(self, t, f=None, r=None):
        self.t = t
        self.r = r          # (form a, form b, relation): what the outcome says about the compared values
        self.f = z3.Not(t) if f is None else f

    def __bool__(self):
        return SymB.vm.decide(self)

    def __and__(self, o):
        if type(o) is bool:
            return self if o else False
        return SymB(z3.And(self.t, o.t), z3.Or(self.f, o.f))
    __rand__ = __and__

    def __or__(self, o):
        if type(o) is bool:
            return True if o else self
        return SymB(z3.Or(self.t, o.t), z3.And(self.f, o.f))
    __ror__ = __or__

    def __xor__(self, o):
        if type(o) is bool:
            if not o:
                return self
            return SymB(self.f, self.t, self.r and (self.r[0], self.r[1], NEG[self.r[2]], self.r[3]))
        return SymB(z3.Or(z3.And(self.t, o.f), z3.And(self.f, o.t)), z3.Or(z3.And(self.t, o.t), z3.And(self.f, o.f)))
    __rxor__ = __xor__

    def __eq__(self, o):
        return self ^ o ^ True

    def __ne__(self, o):
        return self ^ o
    __hash__ = None


def mkb(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymB(e)


class SymI:
    """symbolic bit-vector integer"""
    __slots__ = ('e', 'w')

    def __init__(self, e):
        self.e = e
        self.w = e.size()

    def _c(self, o):
        if type(o) is int:
            return z3.BitVecVal(o, self.w)
        if type(o) is SymI:
            return o.e
        raise Unsupported('symint op with %r' % (type(o),))

    def __repr__(self):
        return 'SymI(%s)' % (self.e,)

    def __add__(self, o):
        return mki(self.e + self._c(o))
    __radd__ = __add__

    def __sub__(self, o):
        return mki(self.e - self._c(o))

    def __rsub__(self, o):
        return mki(self._c(o) - self.e)

    def __mul__(self, o):
        return mki(self.e * self._c(o))
    __rmul__ = __mul__

    def __and__(self, o):
        if type(o) is int and o == (1 << self.w) - 1:
            return self
        return mki(self.e & self._c(o))
    __rand__ = __and__

    def __or__(self, o):
        return mki(self.e | self._c(o))
    __ror__ = __or__

    def __xor__(self, o):
        return mki(self.e ^ self._c(o))
    __rxor__ = __xor__

    def __lshift__(self, o):
        return mki(self.e << self._c(o))

    def __rlshift__(self, o):
        return mki(self._c(o) << self.e)

    def __rshift__(self, o):
        return mki(z3.LShR(self.e, self._c(o)))

    def __rrshift__(self, o):
        return mki(z3.LShR(self._c(o), self.e))

    def __floordiv__(self, o):
        return mki(z3.UDiv(self.e, self._c(o)))

    def __rfloordiv__(self, o):
        return mki(z3.UDiv(self._c(o), self.e))

    def __mod__(self, o):
        return mki(z3.URem(self.e, self._c(o)))

    def __rmod__(self, o):
        return mki(z3.URem(self._c(o), self.e))

    def __eq__(self, o):
        return mkb(self.e == self._c(o))

    def __ne__(self, o):
        return mkb(self.e != self._c(o))

    def __lt__(self, o):
        return mkb(z3.ULT(self.e, self._c(o)))

    def __le__(self, o):
        return mkb(z3.ULE(self.e, self._c(o)))

    def __gt__(self, o):
        return mkb(z3.UGT(self.e, self._c(o)))

    def __ge__(self, o):
        return mkb(z3.UGE(self.e, self._c(o)))
    __hash__ = None

    def __bool__(self):
        raise Unsupported('bool of SymI')

    def __index__(self):
        raise Unsupported('index by SymI')


def mki(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return SymI(e)


class Pack:
    """little-endian byte concatenation of non-integer pieces: parts = ((nbytes, value), ...)"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def nbytes(self):
        return sum(p[0] for p in self.parts)

    def __repr__(self):
        return 'Pack%r' % (self.parts,)

    def slice(self, off, n):
        out = []
        pos = 0
        for sz, v in self.parts:
            s = max(off, pos)
            e = min(off + n, pos + sz)
            if s < e:
                if s == pos and e == pos + sz:
                    out.append((sz, v))
                elif type(v) is int:
                    out.append((e - s, (v >> (8 * (s - pos))) & ((1 << (8 * (e - s))) - 1)))
                elif type(v) is float:
                    b = fbits(v, sz)
                    out.append((e - s, (b >> (8 * (s - pos))) & ((1 << (8 * (e - s))) - 1)))
                else:
                    raise Unsupported('splitting symbolic piece')
            pos += sz
        return norm(out, n)

    def __rshift__(self, k):
        if type(k) is int and k % 8 == 0:
            n = self.nbytes()
            kb = k // 8
            r = self.slice(kb, n - kb)
            parts = r.parts if type(r) is Pack else ((n - kb, r),)
            return norm(list(parts) + [(kb, 0)], n)
        t = self.number()
        if t is not None and k == 8 * self.nbytes() - 1:
            return int(HOOK['sign'](t))
        raise Unsupported('Pack >>')

    def number(self):
        """the symbolic number whose bits these are"""
        return self.parts[0][1] if len(self.parts) == 1 and type(self.parts[0][1]) is Term else None

    def cmp(self, k, o):
        a = self.number()
        b = o.number() if type(o) is Pack else o
        if a is None or type(b) not in (int, Term):
            raise Unsupported('Pack comparison')
        return HOOK['cmpbits'](k, a, b, 8 * self.nbytes())

    def __lt__(self, o):
        return self.cmp('lt', o)

    def __le__(self, o):
        return self.cmp('le', o)

    def __gt__(self, o):
        return self.cmp('gt', o)

    def __ge__(self, o):
        return self.cmp('ge', o)

    def __ne__(self, o):
        return self.cmp('ne', o)

    def __lshift__(self, k):
        if type(k) is int and k % 8 == 0:
            n = self.nbytes()
            kb = k // 8
            return PackL(((kb, 0),) + self.parts, n)
        raise Unsupported('Pack <<')

    def __and__(self, m):
        if type(m) is int:
            n = self.nbytes()
            # contiguous low-byte mask
            full = (1 << (8 * n)) - 1
            m &= full
            if m == full:
                return self
            for kb in range(1, n):
                if m == (1 << (8 * kb)) - 1:
                    r = self.slice(0, kb)
                    parts = r.parts if type(r) is Pack else ((kb, r),)
                    return norm(list(parts) + [(n - kb, 0)], n)
                hi = full ^ ((1 << (8 * kb)) - 1)
                if m == hi:
                    r = self.slice(kb, n - kb)
                    parts = r.parts if type(r) is Pack else ((n - kb, r),)
                    return norm([(kb, 0)] + list(parts), n)
            if m == 0:
                return 0
            # sign-bit operations on floats
            if len(self.parts) == 1 and self.parts[0][0] == n and type(self.parts[0][1]) is Term:
                sb = 1 << (8 * n - 1)
                if m == full ^ sb:
                    t = self.parts[0][1]
                    return Pack([(n, TT.mk('abs', 8 * n, t))])
                if m == sb:
                    return sb if HOOK['sign'](self.parts[0][1]) else 0
        raise Unsupported('Pack & %r' % (m,))
    __rand__ = __and__

    def __xor__(self, m):
        if type(m) is int:
            n = self.nbytes()
            if m == 0:
                return self
            out = []
            pos = 0
            for sz, v in self.parts:
                mm = (m >> (8 * pos)) & ((1 << (8 * sz)) - 1)
                if mm == 0:
                    out.append((sz, v))
                elif type(v) is int:
                    out.append((sz, v ^ mm))
                elif mm == 1 << (8 * sz - 1):
                    out.append((sz, -v if type(v) is float else TT.mk('neg', 8 * sz, v)))
                else:
                    raise Unsupported('Pack ^')
                pos += sz
            return norm(out, n)
        raise Unsupported('Pack ^')
    __rxor__ = __xor__

    def __or__(self, o):
        n = self.nbytes()
        op = o.parts if type(o) is Pack else ((n, o),)
        if type(o) is PackL:
            raise Unsupported('PackL')
        # combine byte ranges where one side is zero
        cuts = set([0])
        for ps in (self.parts, op):
            pos = 0
            for sz, _ in ps:
                pos += sz
                cuts.add(pos)
        cuts = sorted(c for c in cuts if c <= n)
        me = self
        ot = o if type(o) is Pack else Pack(((n, o),))
        out = []

        def grab(p, a, b):
            # may need finer: returns parts
            r = p.slice(a, b - a)
            return r
        # merge over cut points; use the non-zero side
        i = 0
        cl = cuts
        k = 0
        while k < len(cl) - 1:
            # extend until neither side splits a symbolic piece
            j = k + 1
            while True:
                try:
                    x = grab(me, cl[k], cl[j])
                    y = grab(ot, cl[k], cl[j])
                    break
                except Unsupported:
                    j += 1
                    if j >= len(cl):
                        raise
            sz = cl[j] - cl[k]
            if type(x) is int and x == 0:
                out.append((sz, y))
            elif type(y) is int and y == 0:
                out.append((sz, x))
            elif type(x) is int and type(y) is int:
                out.append((sz, x | y))
            elif type(x) is Pack and x.number() is not None and x.number().op == 'abs' and y == 1 << (8 * sz - 1):
                out.append((sz, TT.mk('neg', 8 * sz, x.number())))
            else:
                raise Unsupported('Pack |')
            k = j
        return norm(out, n)
    __ror__ = __or__

    def __eq__(self, o):
        return self.cmp('eq', o)
    __hash__ = None

    def __bool__(self):
        raise Unsupported('bool(Pack)')


HOOK = {}


class SignMask:
    """all bits (all but the topmost for k = 1) equal to the sign of a number"""
    __slots__ = ('t', 'w', 'k')

    def __init__(self, t, w, k=0):
        self.t, self.w, self.k = t, w, k

    def num(self):
        return (1 << (self.w - self.k)) - 1 if HOOK['sign'](self.t) else 0

    def __rshift__(self, n):
        return SignMask(self.t, self.w, self.k + n) if type(n) is int else self.num() >> n

    def __xor__(self, o):
        if self.k == 1 and type(o) is Pack and o.number() is self.t:
            return OrdKey(self.t, self.w)
        return o ^ self.num()
    __rxor__ = __xor__

    def __and__(self, o):
        return o & self.num()
    __rand__ = __and__

    def __or__(self, o):
        return o | self.num()
    __ror__ = __or__

    def __eq__(self, o):
        return self.num() == (o.num() if type(o) is SignMask else o)

    def __ne__(self, o):
        return self.num() != (o.num() if type(o) is SignMask else o)
    __hash__ = None


class OrdKey:
    """the bits of a number arranged so that their order as signed integers is that of the numbers (total_cmp); flip: the
    topmost bit inverted, which makes it the unsigned order"""
    __slots__ = ('t', 'w', 'flip')

    def __init__(self, t, w, flip=False):
        self.t, self.w, self.flip = t, w, flip

    def __xor__(self, m):
        if m == 1 << (self.w - 1):
            return OrdKey(self.t, self.w, not self.flip)
        raise Unsupported('OrdKey ^')
    __rxor__ = __xor__

    def cmp(self, k, o):
        if not self.flip and k not in ('eq', 'ne'):
            raise Unsupported('unsigned comparison of an order key')
        if type(o) is OrdKey and o.flip == self.flip:
            b = o.t
        elif type(o) is int:
            s = 1 << (self.w - 1)
            b = o ^ s if self.flip else o
            b = frombits(b ^ (s - 1) if b & s else b, self.w // 8)
            if b != b:
                raise Unsupported('order key against not-a-number')
        else:
            raise Unsupported('OrdKey comparison')
        return HOOK['cmp'](k, self.t, b)

    def __lt__(self, o):
        return self.cmp('lt', o)

    def __le__(self, o):
        return self.cmp('le', o)

    def __gt__(self, o):
        return self.cmp('gt', o)

    def __ge__(self, o):
        return self.cmp('ge', o)

    def __eq__(self, o):
        return self.cmp('eq', o)

    def __ne__(self, o):
        return self.cmp('ne', o)
    __hash__ = None


class PackL(Pack):
    """result of a left shift before the width mask"""
    __slots__ = ('n',)

    def __init__(self, parts, n):
        self.parts = tuple(parts)
        self.n = n

    def __and__(self, m):
        return Pack(self.parts).slice(0, self.n) if m == (1 << (8 * self.n)) - 1 else self._bad()

    def _bad(self):
        raise Unsupported('PackL & mask')


def fbits(v, sz):
    if sz == 4:
        return struct.unpack('<I', struct.pack('<f', v))[0] if not (math.isinf(v) or v != v) else (
            0x7fc00000 if v != v else (0x7f800000 if v > 0 else 0xff800000))
    return struct.unpack('<Q', struct.pack('<d', v))[0]


def frombits(b, sz):
    if sz == 4:
        return struct.unpack('<f', struct.pack('<I', b))[0]
    return struct.unpack('<d', struct.pack('<Q', b))[0]


def norm(parts, n):
    """canonical: int if every part is concrete, else Pack with nested packs flattened"""
    flat = []
    for sz, v in parts:
        if type(v) is Pack:
            flat.extend(v.parts)
        else:
            flat.append((sz, v))
    if all(type(v) in (int, float) for _, v in flat):
        r = 0
        sh = 0
        for sz, v in flat:
            if type(v) is float:
                v = fbits(v, sz)
            r |= v << sh
            sh += 8 * sz
        return r
    if len(flat) == 1 and type(flat[0][1]) is SymI:
        return flat[0][1]
    if all(type(v) in (int, float, SymI) for _, v in flat):
        e = None
        for sz, v in flat:
            if type(v) is float:
                v = fbits(v, sz)
            x = v.e if type(v) is SymI else z3.BitVecVal(v, 8 * sz)
            e = x if e is None else z3.Concat(x, e)
        return mki(e)
    return Pack(flat)
