"""Symbolic executor for the LLVM IR of the real crate: IR functions are translated to Python code that runs
on concrete/symbolic values; forking is by re-execution with a recorded decision prefix."""
import re, os, sys, math, ctypes, ctypes.util, time
import z3
from . import ir
from .ir import sizeof, storesize, layout, P, tokenize, value, ATTRS
from .sym import (NEG, Term, TT, SymB, SymI, Pack, mki, mkb, rf, fbits, frombits, norm, Unsupported, M64)

sys.setrecursionlimit(20000)
OM = (1 << 40) - 1
S64 = 1 << 63


class RustPanic(Exception):
    def __init__(self, kind, loc=None):
        Exception.__init__(self, kind, loc)
        self.kind = kind
        self.loc = loc


class UB(Exception):
    pass


class StepLimit(Exception):
    pass


class AllocFail(Exception):
    pass


class Infeasible(Exception):
    pass


SWAP = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}


def narrow(e):
    """a bit vector without its leading zero bits"""
    e = z3.simplify(e)
    while z3.is_app_of(e, z3.Z3_OP_CONCAT):
        a = e.children()
        if not (z3.is_bv_value(a[0]) and a[0].as_long() == 0):
            break
        e = a[1] if len(a) == 2 else z3.Concat(*a[1:])
    return e


class Obj:
    __slots__ = ('size', 'cells', 'zero', 'ro', 'name')

    def __init__(self, size, name='', zero=False):
        self.size = size
        self.cells = {}
        self.zero = zero
        self.ro = False
        self.name = name


libm = ctypes.CDLL(ctypes.util.find_library('m') or 'libm.so.6')


def _m(name, n, t):
    f = getattr(libm, name)
    f.restype = t
    f.argtypes = [t] * n
    return f


LM = {}
for _n, _k in (('sin', 1), ('cos', 1), ('tan', 1), ('log', 1), ('log10', 1), ('log2', 1), ('exp', 1), ('exp2', 1), ('pow', 2),
               ('sqrt', 1), ('floor', 1), ('ceil', 1), ('round', 1), ('trunc', 1), ('rint', 1), ('fmod', 2), ('atan2', 2), ('atan', 1),
               ('asin', 1), ('acos', 1), ('sinh', 1), ('cosh', 1), ('tanh', 1), ('hypot', 2), ('cbrt', 1), ('expm1', 1), ('log1p', 1), ('fma', 3), ('fmax', 2), ('fmin', 2),
               ('fabs', 1), ('copysign', 2), ('ldexp', None)):
    if _k:
        LM[_n, 64] = _m(_n, _k, ctypes.c_double)
        LM[_n, 32] = _m(_n + 'f', _k, ctypes.c_float)


class VM:
    sinks = {}          # output of formatters in use
    def __init__(self, lls, cfg=None):
        self.mods = []
        self.mangled = {}
        self.def_of = {}     # public name -> module
        for i, pth in enumerate(lls):
            m = ir.Module(pth, i)
            self.mods.append(m)
            for nm in m.funcs:
                if nm not in m.local and nm not in self.def_of:
                    self.def_of[nm] = m
            for nm in m.aliases:
                if nm not in m.local and nm not in self.def_of:
                    self.def_of[nm] = m
        self.gdef = {}
        for m in self.mods:
            for nm, s in m.globals.items():
                if nm not in m.local and ' external ' not in s[:len(nm) + 60]:
                    self.gdef.setdefault(nm, m)
        self.noreturn = set()
        for m in self.mods:
            nr = set()
            for s in m.lines:
                if s.startswith('attributes #') and ' noreturn' in s:
                    nr.add(s.split()[1])
            for s in m.lines:
                if s.startswith('declare '):
                    a = re.findall(r'#\d+', s)
                    if a and a[-1] in nr:
                        self.noreturn.add(m.GN.search(s).group())
        self.objs = {}
        self.gaddr = {}          # (modid or -1, name) -> address
        self.ginit = []          # mutable globals (obj id, initialiser)
        self.next_g = 1
        self.next_d = 1 << 19
        self.fnaddr = {}
        self.fnobj = {}          # id -> callable name
        self.C = [0, 50_000_000]
        self.covered = {}
        self.stub_used = set()
        self.G = {}
        self.pyname = {}
        self.nfun = 0
        self.env = {}            # environment variables visible to the code
        self.env_symbolic = None
        self.num_cpus = 8
        self.ext = {}            # extra externs: name -> python function
        from .lin import Dom
        self.domcls = Dom
        self.relptr = {}
        self._setup_globals()
        self.reset()

    # ------------------------------------------------------------------ path state
    def float_cmp(self, k, a, b):
        return self.dom.cmp(k, a, b)

    def float_to_int(self, x, w, signed):
        """truncation towards zero, saturating: an integer variable tied to the real value by the solver"""
        if not self.link:
            raise Unsupported('float to int of a symbolic value')
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        M = (1 << w) - 1
        key = (x.id if type(x) is Term else x, w, signed)
        if key not in self.dom.truncs:
            self.dom.truncs[key] = self.float_to_int1(x, w, lo, hi, M)
        return self.dom.truncs[key]

    def float_to_int1(self, x, w, lo, hi, M):
        f = self.dom.of(x)
        if f.lo < lo and self.truth(self.dom.cmp('le', x, float(lo))):
            return lo & M
        if f.hi >= hi and self.truth(self.dom.cmp('ge', x, float(hi))):
            return hi
        f = self.dom.of(x)
        whole = self.dom.isint(x)
        if f.lo <= -1 and f.hi > 0 and self.truth(self.dom.cmp('lt', x, 0.0)) or f.hi <= 0:
            r = self.dom.trunc_var(self.dom.ev_neg(self.dom.of(x)), whole)
            r = (-r & M) if type(r) is int else mki(-z3.ZeroExt(w - r.size(), r))
        else:
            r = self.dom.trunc_var(self.dom.of(x), whole)
            r = r if type(r) is int else SymI(z3.ZeroExt(w - r.size(), r) if w > r.size() else r)
        return r

    def truth(self, b):
        return b if type(b) is bool else self.decide(b)

    def int_to_float(self, x, w, signed, fw):
        """a float term tied to a symbolic integer by the solver; None: enumerate instead"""
        if not self.link:
            return None
        e = narrow(x.e)
        if signed and e.size() == w and self.zcheck(z3.Extract(w - 1, w - 1, e) == 1) != z3.unsat:
            return None
        for i, (d, _, _) in enumerate(self.dom.bvs):
            if d.eq(e):
                break
        else:
            def edge(top):
                """largest (smallest) feasible value"""
                lo, hi = 0, (1 << e.size()) - 1
                while lo < hi:
                    m = (lo + hi + (1 if top else 0)) // 2
                    if self.zcheck(z3.UGE(e, m) if top else z3.ULE(e, m)) == z3.sat:
                        lo, hi = (m, hi) if top else (lo, m)
                    else:
                        lo, hi = (lo, m - 1) if top else (m + 1, hi)
                return lo
            a, b = edge(False), edge(True)
            if b >= 1 << 53:
                return None
            i = len(self.dom.bvs)
            self.dom.bvs.append((e, a, b))
        return TT.mk('i2f', fw, i)

    def env_var(self, ret, key, name):
        raise Unsupported('env var')

    def reset(self, prefix=()):
        for k in [k for k in self.objs if k >= (1 << 19)]:
            del self.objs[k]
        self.next_d = 1 << 19
        for oid, fn in self.ginit:
            fn(self.objs[oid])
        TT.reset()
        self.nfresh = 0
        self.prefix = list(prefix)
        self.decisions = []
        self.pending = []
        self.C[0] = 0
        self.pc = []
        self.solver = None
        self.tls = {}
        self.outs = []
        self.nsym = 0
        self.iinputs = []
        self.time_ctr = 0
        self.env_read = set()
        self.link = False
        self.dom = self.domcls(self)
        SymB.vm = self
        from . import ops
        ops.VMREF[0] = self

    def get_solver(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', 60000)
            for c in self.pc:
                self.solver.add(c)
        return self.solver

    nqueries = 0
    solver_time = 0.0

    def zcheck(self, *c):
        t = time.time()
        r = self.get_solver().check(*c)
        VM.solver_time += time.time() - t
        VM.nqueries += 1
        return r

    def assume(self, e):
        self.pc.append(e)
        if self.solver is not None:
            self.solver.add(e)

    def decide(self, b):
        if b.r is None:
            return self.decide1(b)
        k, (x, y) = b.r[2], b.r[3]
        known = self.dom.decided
        d = known.get((k, x, y))
        if d is None:
            d = self.decide1(b)
            for q, v in ((k, d), (NEG[k], not d)):
                known[q, x, y] = v
                known[SWAP[q], y, x] = v
            self.dom.refine(b.r[0], b.r[1], k if d else NEG[k])
        return d

    def decide1(self, b):
        """fork on a symbolic condition"""
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            if d[1]:
                self.assume(b.t if d[0] else b.f)
            return d[0]
        rt = self.zcheck(b.t)
        if rt == z3.unsat:
            self.decisions.append((False, False))
            return False
        rf_ = self.zcheck(b.f)
        if rf_ == z3.unsat:
            self.decisions.append((True, False))
            return True
        self.pending.append(self.decisions[:] + [(False, True)])
        self.decisions.append((True, True))
        self.assume(b.t)
        return True

    def concretize(self, v):
        """enumerate the feasible values of a symbolic integer by forking"""
        if type(v) is int:
            return v
        if type(v) is not SymI:
            raise Unsupported('concretize %r' % (v,))
        n = 0
        while True:
            i = len(self.decisions)
            if i < len(self.prefix):
                kind, val = self.prefix[i]
                self.decisions.append((kind, val))
                if kind == 'eq':
                    self.assume(v.e == val)
                    return val
                self.assume(v.e != val)
                continue
            r = self.zcheck()
            if r == z3.unsat:
                raise Infeasible()
            if r != z3.sat:
                raise Unsupported('solver unknown')
            val = self.get_solver().model().eval(v.e, model_completion=True).as_long()
            if self.zcheck(v.e != val) == z3.sat:
                self.pending.append(self.decisions[:] + [('ne', val)])
            self.decisions.append(('eq', val))
            self.assume(v.e == val)
            return val

    # ------------------------------------------------------------------ memory
    def alloc(self, size, name='heap', zero=False):
        i = self.next_d
        self.next_d = i + 1
        o = Obj(size, name, zero)
        self.objs[i] = o
        return i << 40

    def _cover(self, o, off):
        """cell covering byte off -> (start,size,val) or None"""
        cells = o.cells
        for k in range(off, off - 8, -1):
            c = cells.get(k)
            if c is not None:
                if k + c[0] > off:
                    return k, c[0], c[1]
                return None
        return None

    def _read(self, o, off, sz):
        """list of (n,value) or (n,None) for uninitialised"""
        out = []
        pos = off
        end = off + sz
        while pos < end:
            c = self._cover(o, pos)
            if c is None:
                out.append((1, 0 if o.zero else None))
                pos += 1
                continue
            st, cs, v = c
            e = min(end, st + cs)
            if st == pos and e == st + cs:
                out.append((cs, v))
            else:
                out.append((e - pos, Pack(((cs, v),)).slice(pos - st, e - pos)))
            pos = e
        return out

    def loadraw(self, p, sz):
        if type(p) is not int:
            p = self.concretize(p)
        o = self.objs.get(p >> 40)
        off = p & OM
        if o is None:
            raise UB('load from invalid address %#x' % p)
        c = o.cells.get(off)
        if c is not None and c[0] == sz:
            return c[1]
        if off + sz > o.size:
            raise UB('out-of-bounds load of %d at %d of object %s size %d' % (sz, off, o.name, o.size))
        parts = self._read(o, off, sz)
        if all(v is None for _, v in parts):
            return None
        return norm([(n, 0 if v is None else v) for n, v in parts], sz)

    def ldi(self, p, sz):
        v = self.loadraw(p, sz)
        t = type(v)
        if t is int or t is SymI or t is Pack:
            return v
        if v is None:
            raise UB('read of uninitialised memory')
        if t is float:
            return fbits(v, sz)
        if t is Term:
            return Pack(((sz, v),))
        raise Unsupported('ldi %r' % (v,))

    def ldu(self, p, sz):
        """integer load that may read undef (no !noundef): undef is taken as 0"""
        v = self.loadraw(p, sz)
        if v is None:
            return 0
        t = type(v)
        if t is float:
            return fbits(v, sz)
        if t is Term:
            return Pack(((sz, v),))
        return v

    def ldf(self, p, sz):
        v = self.loadraw(p, sz)
        t = type(v)
        if t is float or t is Term:
            return v
        if v is None:
            raise UB('read of uninitialised memory (float)')
        if t is int:
            return frombits(v, sz)
        if t is Pack and len(v.parts) == 1:
            return v.parts[0][1]
        raise Unsupported('ldf %r' % (v,))

    def st(self, p, sz, v):
        if type(p) is not int:
            p = self.concretize(p)
        o = self.objs.get(p >> 40)
        off = p & OM
        if o is None:
            raise UB('store to invalid address %#x' % p)
        c = o.cells.get(off)
        if c is None or c[0] != sz:
            if off + sz > o.size:
                raise UB('out-of-bounds store of %d at %d of object %s size %d' % (sz, off, o.name, o.size))
            if o.ro:
                raise UB('store to constant')
            self._clear(o, off, sz)
        if type(v) is Pack:
            pos = off
            for n, x in v.parts:
                o.cells[pos] = (n, x)
                pos += n
            if c is not None and len(v.parts) > 1 and False:
                pass
            return
        if sz > 8:
            if type(v) is int:
                pos = off
                while sz > 0:
                    k = min(8, sz)
                    o.cells[pos] = (k, v & ((1 << (8 * k)) - 1))
                    v >>= 8 * k
                    pos += k
                    sz -= k
                return
            raise Unsupported('wide store')
        o.cells[off] = (sz, v)

    def _clear(self, o, off, sz):
        cells = o.cells
        end = off + sz
        for k in range(off - 7, end):
            c = cells.get(k)
            if c is None or k + c[0] <= off:
                continue
            del cells[k]
            if k < off:
                self._putparts(o, k, Pack(((c[0], c[1]),)).slice(0, off - k), off - k)
            if k + c[0] > end:
                self._putparts(o, end, Pack(((c[0], c[1]),)).slice(end - k, k + c[0] - end), k + c[0] - end)
        if o.zero:
            pass

    def _putparts(self, o, off, v, n):
        if type(v) is Pack:
            for k, x in v.parts:
                o.cells[off] = (k, x)
                off += k
        else:
            o.cells[off] = (n, v)

    def obj_at(self, p, n, what):
        if type(p) is not int:
            p = self.concretize(p)
        o = self.objs.get(p >> 40)
        off = p & OM
        if o is None or off + n > o.size:
            raise UB('%s out of bounds: %d bytes at %#x (%s)' % (what, n, p, o and (o.name, o.size)))
        return o, off

    def memcpy(self, d, s, n, *_):
        n = self.concretize(n)
        if n == 0:
            return
        so, soff = self.obj_at(s, n, 'memcpy src')
        do, doff = self.obj_at(d, n, 'memcpy dst')
        if do.ro:
            raise UB('store to constant')
        if not so.cells and so.zero and n == do.size and doff == 0:
            do.cells.clear()
            do.zero = True
            return
        pieces = []
        pos = soff
        end = soff + n
        cells = so.cells
        while pos < end:
            c = cells.get(pos)
            if c is not None and pos + c[0] <= end:
                pieces.append((pos - soff, c[0], c[1]))
                pos += c[0]
                continue
            c = self._cover(so, pos)
            if c is None:
                if so.zero:
                    pieces.append((pos - soff, 1, 0))
                pos += 1
                continue
            st, cs, v = c
            e = min(end, st + cs)
            pieces.append((pos - soff, e - pos, Pack(((cs, v),)).slice(pos - st, e - pos)))
            pos = e
        # clear the destination range
        dc = do.cells
        self._clear_range(do, doff, n)
        for o, k, v in pieces:
            if type(v) is Pack:
                self._putparts(do, doff + o, v, k)
            else:
                dc[doff + o] = (k, v)

    def _clear_range(self, o, off, n):
        dc = o.cells
        if n <= 64:
            self._clear(o, off, n)
            return
        end = off + n
        # cells straddling the two borders
        for k in range(off - 7, off):
            c = dc.get(k)
            if c is not None and k + c[0] > off:
                self._clear(o, off, min(n, k + c[0] - off))
        for k in range(max(off, end - 7), end):
            c = dc.get(k)
            if c is not None and k + c[0] > end:
                self._clear(o, k, end - k)
        if n < 4 * len(dc):
            for k in range(off, end):
                dc.pop(k, None)
        else:
            for k in [k for k in dc if off <= k < end]:
                del dc[k]

    def memset(self, d, v, n, *_):
        n = self.concretize(n)
        if n == 0:
            return
        o, off = self.obj_at(d, n, 'memset')
        if type(v) is not int:
            v = self.concretize(v)
        self._clear_range(o, off, n)
        pos = off
        end = off + n
        w = v * 0x0101010101010101
        cells = o.cells
        if v == 0 and off == 0 and n == o.size:
            o.zero = True
            return
        while pos + 8 <= end and pos % 8 == 0:
            cells[pos] = (8, w)
            pos += 8
        while pos < end:
            cells[pos] = (1, v)
            pos += 1

    # ------------------------------------------------------------------ globals
    def global_addr(self, mod, name):
        key = (mod.mid, name) if name in mod.local else (-1, name)
        a = self.gaddr.get(key)
        if a is not None:
            return a
        if name in mod.funcs or (name in self.def_of) or name in mod.decls:
            if name not in mod.aliases and not (name in self.def_of and name in self.def_of[name].aliases):
                i = self.next_g
                self.next_g += 1
                self.gaddr[key] = i << 40
                self.fnobj[i] = (mod, name)
                return i << 40
        m = mod
        if name not in mod.local:
            m = self.gdef.get(name, mod)
        s = m.globals.get(name) if name in m.globals else None
        if s is None:
            al = m.aliases.get(name) or (self.def_of.get(name) and self.def_of[name].aliases.get(name))
            if al:
                mm = m if name in m.aliases else self.def_of[name]
                tgt = re.findall(r'@[\w.$-]+', al)[-1]
                a = self.global_addr(mm, tgt)
                self.gaddr[key] = a
                return a
            raise Unsupported('global ' + name)
        p = P(tokenize(s), m)
        p.next()
        p.exp('=')
        const = False
        external = False
        while True:
            k, v = p.peek()
            if k == 'id' and v in ('constant', 'global'):
                const = v == 'constant'
                p.next()
                break
            if v == 'external':
                external = True
            p.next()
            if p.peekv() == '(':
                p.skip_group()
        ty = p.type()
        i = self.next_g
        self.next_g += 1
        o = Obj(sizeof(ty), name)
        self.objs[i] = o
        self.gaddr[key] = i << 40
        if external:
            o.zero = True
            o.size = max(o.size, 64)
            self.ginit.append((i, lambda ob: (ob.cells.clear(), setattr(ob, 'zero', True))))
            self.stub_used.add('extern global ' + name)
            return i << 40
        init = value(p, ty)

        def fill(ob, init=init, ty=ty, m=m):
            ob.cells.clear()
            ob.zero = True
            self.initcell(ob, 0, ty, init, m)
        fill(o)
        if const:
            o.ro = True
        else:
            self.ginit.append((i, fill))
        return i << 40

    def initcell(self, o, off, ty, v, m):
        k = v[0]
        if k in ('zero', 'undef'):
            return
        if k == 'bytes':
            b = v[1]
            n = len(b)
            pos = 0
            while pos + 8 <= n:
                o.cells[off + pos] = (8, int.from_bytes(b[pos:pos + 8], 'little'))
                pos += 8
            while pos < n:
                o.cells[off + pos] = (1, b[pos])
                pos += 1
            return
        if k == 'agg':
            if ty[0] == 's':
                offs = layout(ty)[0]
                for x, t, of in zip(v[1], ty[1], offs):
                    self.initcell(o, off + of, t, x, m)
            else:
                es = sizeof(ty[2])
                for j, x in enumerate(v[1]):
                    self.initcell(o, off + j * es, ty[2], x, m)
            return
        if k == 'cast' and v[1] == 'trunc' and v[3][0] == 'bin' and v[3][1] == 'sub':
            tgt = v[3][3]
            self.relptr[id(o), off] = self.const(tgt, v[3][2], m)
            o.cells[off] = (storesize(ty), 0)
            return
        c = self.const(v, ty, m)
        if type(c) is bool:
            c = int(c)
        sz = storesize(ty)
        if sz > 8:
            for j in range(0, sz, 8):
                kk = min(8, sz - j)
                o.cells[off + j] = (kk, (c >> (8 * j)) & ((1 << (8 * kk)) - 1))
        else:
            o.cells[off] = (sz, c)

    def const(self, v, ty, m):
        """python value of an IR constant"""
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'g':
            return self.global_addr(m, v[1])
        if k == 'undef' or k == 'zero':
            return self.zerov(ty)
        if k == 'agg':
            if ty[0] == 's':
                return tuple(self.const(x, t, m) for x, t in zip(v[1], ty[1]))
            return tuple(self.const(x, ty[2], m) for x in v[1])
        if k == 'bytes':
            return tuple(v[1])
        if k == 'gep':
            return self.constgep(v, m)
        if k == 'cast':
            _, op, t, x, t2 = v
            c = self.const(x, t, m)
            if op == 'trunc':
                return c & ((1 << t2[1]) - 1)
            return c
        if k == 'bin':
            _, op, t, a, b = v
            a = self.const(a, t, m)
            b = self.const(b, t, m)
            M = (1 << t[1]) - 1
            return {'sub': a - b, 'add': a + b, 'xor': a ^ b, 'mul': a * b, 'and': a & b, 'or': a | b,
                    'shl': a << (b & 127), 'lshr': a >> b}[op] & M
        raise Unsupported('const %r' % (v,))

    def constgep(self, v, m):
        _, t, ops = v
        base = self.const(ops[0][1], ops[0][0], m)
        off = 0
        cur = t
        for j, (ot, ov) in enumerate(ops[1:]):
            c = self.const(ov, ot, m)
            c = (c ^ (1 << (ot[1] - 1))) - (1 << (ot[1] - 1))
            if j == 0:
                off += c * sizeof(cur)
            elif cur[0] == 's':
                off += layout(cur)[0][c]
                cur = cur[1][c]
            else:
                off += c * sizeof(cur[2])
                cur = cur[2]
        return (base + off) & M64

    def zerov(self, ty):
        k = ty[0]
        if k == 'i':
            return False if ty[1] == 1 else 0
        if k == 'f':
            return 0.0
        if k == 'p':
            return 0
        if k == 's':
            return tuple(self.zerov(t) for t in ty[1])
        if k in ('a', 'vec'):
            return (self.zerov(ty[2]),) * ty[1]
        return None

    # ------------------------------------------------------------------ functions
    def func(self, mod, name):
        """python-level name (in G) of an IR function; installs a compile-on-first-call trampoline"""
        m = mod
        if name in mod.local and name in mod.funcs:
            key = (mod.mid, name)
        else:
            key = (-1, name)
            m = self.def_of.get(name)
        pn = self.pyname.get(key)
        if pn is not None:
            return pn
        pn = 'F%d' % self.nfun
        self.nfun += 1
        self.pyname[key] = pn
        G = self.G
        bare = name[1:].strip('"')
        stub = self.find_stub(bare, name, m, mod)
        if stub is not None:
            G[pn] = stub
            return pn
        if m is None or (name not in m.funcs and name not in m.aliases):
            def missing(*a):
                raise Unsupported('external function ' + bare)
            G[pn] = missing
            return pn
        if name in m.aliases and name not in m.funcs:
            tgt = re.findall(r'@[\w.$-]+', m.aliases[name])[-1]
            tn = self.func(m, tgt)

            def al(*a):
                return G[tn](*a)
            G[pn] = al
            return pn

        op = libmop(bare) if '4libm4math' in bare else None
        opaque = '8colorous' in bare and bare.endswith('Gradient15eval_continuous')

        def tramp(*a):
            f = self.compile(m, name, pn)
            if opaque:
                f = self.gradient(f)
            if op:
                # an elementary function of the libm crate: executed on concrete values, an operator on symbolic ones
                g = G['m_' + op[0]]
                code = f

                def f(*x):
                    for v in x:
                        if type(v) is Term:
                            return g(op[1], *x)
                    if op[0] == 'fma':
                        return g(op[1], *x)
                    return code(*x)
            G[pn] = f
            return f(*a)
        G[pn] = tramp
        return pn

    def gradient(self, code):
        """a gradient of the colorous crate: executed on numbers, an unknown function of a symbolic intensity (gradients are
        told apart by their values at a few points)"""
        def f(g, t):
            if type(t) is not Term:
                return code(g, t)
            self.stub_used.add('colorous gradients are unknown functions of the intensity')
            q = self.dom.of(t)
            if q.c is None and q.err == 0:
                return code(g, q.k)
            which = tuple(code(g, x) for x in (0.0, 0.31, 0.77, 1.0))
            key = (which, q.k, tuple((i, c) for i, c in enumerate(q.c.tolist()) if c)) if q.c is not None and q.err == 0 else (which, t.id)
            v = self.dom.opaque.get(key)
            if v is None:
                v = self.dom.opaque[key] = SymI(z3.BitVec('g%d' % len(self.dom.opaque), 24))
            return v
        return f

    def call(self, name, *args):
        m = self.def_of['@' + name]
        return self.G[self.func(m, '@' + name)](*args)

    def icall(self, p, *args):
        if type(p) is not int:
            p = self.concretize(p)
        f = self.fnobj.get(p >> 40)
        if f is None or p & OM:
            raise UB('indirect call to %#x' % p)
        return self.G[self.func(*f)](*args)

    def find_stub(self, bare, name, m, mod):
        if bare in self.ext:
            return self.ext[bare]
        for rx, fn in STUBS_ALWAYS:
            if rx.search(bare):
                self.stub_used.add(bare)
                return fn(self, bare)
        if m is not None and (name in m.funcs or name in m.aliases):
            return None
        for rx, fn in STUBS:
            if rx.search(bare):
                self.stub_used.add(bare)
                return fn(self, bare)
        if name in self.noreturn:
            self.stub_used.add(bare)
            return mkpanic(self, bare)
        return None

    def compile(self, m, name, pn):
        f = ir.parse_func(m, name)
        self.covered[name] = m.demangled.get(name, name)
        src = Codegen(self, m, f, pn).gen()
        if os.environ.get('VP_DUMP') and os.environ['VP_DUMP'] in name:
            sys.stderr.write(src + '\n')
        exec(compile(src, name, 'exec'), self.G)
        return self.G[pn]

    def _setup_globals(self):
        from . import ops
        ops.install(self)


def mkpanic(vm, bare):
    def pan(*a):
        loc = None
        for x in a:
            if type(x) is int and vm.objs.get(x >> 40) is not None:
                try:
                    o = vm.objs[x >> 40]
                    if o.size == 24 and x & OM == 0:
                        fp = vm.ldi(x, 8)
                        ln = vm.ldi(x + 8, 8)
                        line = vm.ldi(x + 16, 4)
                        fo = vm.objs[fp >> 40]
                        if ln < 300 and fo.size >= ln:
                            bs = bytes(vm.ldi(fp + i, 1) for i in range(ln))
                            loc = '%s:%d' % (bs.decode(errors='replace'), line)
                except Exception:
                    pass
        raise RustPanic(short(bare), loc)
    return pan


def short(bare):
    for k in ('panic_bounds_check', 'slice_index_fail', 'add_overflow', 'sub_overflow', 'mul_overflow', 'neg_overflow',
              'div_by_zero', 'rem_by_zero', 'div_overflow', 'rem_overflow', 'shl_overflow', 'shr_overflow', 'unwrap_failed', 'expect_failed', 'len_mismatch_fail',
              'assert_failed', 'panic_fmt', 'handle_alloc_error', 'handle_error', 'capacity_overflow',
              'panic_already', 'panic_access', 'unreachable_display', 'panic_display', 'panic_explicit', 'panic_nounwind'):
        if k in bare:
            return k
    return 'panic' if 'panic' in bare else bare[:80]


# ---------------------------------------------------------------------- code generation
class Codegen:
    def __init__(self, vm, mod, f, pn):
        self.vm = vm
        self.mod = mod
        self.f = f
        self.pn = pn
        self.names = {}
        self.allocas = []
        self.out = []

    def nm(self, v):
        n = self.names.get(v)
        if n is None:
            n = self.names[v] = 'v%d' % len(self.names)
        return n

    def val(self, v, ty):
        if v[0] == 'v':
            return self.nm(v[1])
        if v[0] == 'agg' and any(x[0] == 'v' for x in v[1]):
            raise Unsupported('agg of locals')
        c = self.vm.const(v, ty, self.mod)
        return self.lit(c)

    def lit(self, c):
        if type(c) is tuple:
            return '(' + ''.join(self.lit(x) + ',' for x in c) + ')'
        if type(c) is float:
            if c != c:
                return 'NAN'
            if math.isinf(c):
                return 'INF' if c > 0 else 'NINF'
            return repr(c)
        return repr(c)

    def gen(self):
        f = self.f
        self.instrs = {}
        self.term = {}
        self.phis = {}
        preds = {}
        self.succ = {}
        for b in f.order:
            ins = []
            ph = []
            for s in f.blocks[b]:
                toks = tokenize(s)
                p = P(toks, self.mod)
                dst = None
                if toks[0][0] == 'var' and toks[1][1] == '=':
                    dst = toks[0][1]
                    p.i = 2
                op = p.next()[1]
                while op in ('tail', 'musttail', 'notail'):
                    op = p.next()[1]
                if op == 'phi':
                    ph.append((dst, p))
                elif op in ('br', 'ret', 'switch', 'unreachable', 'invoke', 'resume'):
                    self.term[b] = (op, dst, p)
                    break
                else:
                    ins.append((op, dst, p, s))
            self.instrs[b] = ins
            phl = []
            for dst, p in ph:
                while p.peek()[0] == 'id' and p.peekv() in FMF:
                    p.next()
                t = p.type()
                inc = {}
                while True:
                    p.exp('[')
                    v = value(p, t)
                    p.exp(',')
                    l = p.next()[1]
                    p.exp(']')
                    inc[l] = v
                    if not p.acc(','):
                        break
                phl.append((dst, t, inc))
            self.phis[b] = phl
        # terminators
        T = {}
        for b in f.order:
            op, dst, p = self.term[b]
            if op == 'br':
                if p.peekv() == 'label':
                    p.next()
                    T[b] = ('jmp', p.next()[1])
                else:
                    p.type()
                    c = value(p, ir.ity(1))
                    p.exp(',')
                    p.next()
                    t1 = p.next()[1]
                    p.exp(',')
                    p.next()
                    t2 = p.next()[1]
                    T[b] = ('br', c, t1, t2)
            elif op == 'switch':
                t = p.type()
                v = value(p, t)
                p.exp(',')
                p.next()
                d = p.next()[1]
                p.exp('[')
                cases = []
                while not p.acc(']'):
                    ct = p.type()
                    cv = value(p, ct)
                    p.exp(',')
                    p.next()
                    cases.append((cv[1], p.next()[1]))
                T[b] = ('switch', t, v, d, cases)
            elif op == 'ret':
                t = p.type()
                T[b] = ('ret', t, None if t == ir.VOID else value(p, t))
            elif op == 'invoke':
                # treat as call + jmp to the normal destination
                i = p.i
                txt = p.t
                j = next(k for k in range(len(txt)) if txt[k][1] == 'to' and txt[k + 1][1] == 'label' and txt[k + 3][1] == 'unwind')
                dest = txt[j + 2][1]
                q = P(txt[:j], self.mod)
                q.i = i
                self.instrs[b].append(('call', dst, q, ''))
                T[b] = ('jmp', dest)
            else:
                T[b] = (op,)
        self.T = T
        npred = {}
        for b in f.order:
            for s in self.succs(b):
                npred[s] = npred.get(s, 0) + 1
        self.npred = npred
        entry = f.order[0]
        # heads: blocks needing dispatch
        heads = [entry] + [b for b in f.order[1:] if npred.get(b, 0) > 1]
        self.headset = set(heads)
        self.bidx = {}
        bodies = {}
        work = heads[:]
        done = []
        while work:
            h = work.pop(0)
            if h in bodies:
                continue
            self.out = []
            self.extra = []
            self.emit_block(h, 0, 0)
            bodies[h] = self.out
            done.append(h)
            for x in self.extra:
                self.headset.add(x)
                if x not in bodies:
                    work.append(x)
        for i, h in enumerate(done):
            self.bidx[h] = i
        args = ', '.join(self.nm(v) for _, v in f.params)
        L = ['def %s(%s):' % (self.pn, args)]
        L.append('    AL=[]')
        # phi-carried names may be unbound on some edge assignments: fine
        if len(done) == 1 and not any('\0' in l for l in bodies[done[0]]):
            for l in bodies[done[0]]:
                L.append('    ' + l)
        else:
            L.append('    B=0')
            L.append('    while 1:')
            L.append('        if C[0]>C[1]: raise StepLimit()')
            self.tree(L, done, bodies, 0, len(done), 8)
        src = '\n'.join(L)
        src = re.sub('\0([^\0]+)\0', lambda m: str(self.bidx[m.group(1)]), src)
        return src + '\n'

    def tree(self, L, done, bodies, a, b, ind):
        sp = ' ' * ind
        if b - a == 1:
            for l in bodies[done[a]]:
                L.append(sp + l)
            return
        mid = (a + b) // 2
        L.append(sp + ('if B<%d:' % mid))
        self.tree(L, done, bodies, a, mid, ind + 1)
        L.append(sp + 'else:')
        self.tree(L, done, bodies, mid, b, ind + 1)

    def succs(self, b):
        t = self.T[b]
        if t[0] == 'jmp':
            return [t[1]]
        if t[0] == 'br':
            return [t[2], t[3]]
        if t[0] == 'switch':
            return [t[3]] + [x for _, x in t[4]]
        return []

    def edge(self, a, b, ind, depth):
        """emit transfer from block a to block b"""
        sp = ' ' * ind
        ph = self.phis[b]
        if ph:
            l = []
            r = []
            for dst, t, inc in ph:
                v = inc[a]
                if v[0] == 'undef':
                    rv = self.lit(self.vm.zerov(t))
                else:
                    rv = self.val(v, t)
                l.append(self.nm(dst))
                r.append(rv)
            self.out.append(sp + ', '.join(l) + ' = ' + ', '.join(r))
        if b in self.headset or depth > 12:
            if b not in self.headset:
                self.extra.append(b)
                self.headset.add(b)
            self.out.append(sp + 'B=\0%s\0' % b)
            self.out.append(sp + 'continue')
        else:
            self.emit_block(b, ind, depth + 1)

    def emit_block(self, b, ind, depth):
        sp = ' ' * ind
        ins = self.instrs[b]
        self.out.append(sp + 'C[0]+=%d' % (len(ins) + 1))
        dead = False
        for op, dst, p, s in ins:
            try:
                for line in self.instr(op, dst, p):
                    self.out.append(sp + line)
            except Unsupported as e:
                self.out.append(sp + 'raise Unsupported(%r)' % (str(e) + ' in ' + s[:200]))
                dead = True
                break
        if dead:
            return
        t = self.T[b]
        if t[0] == 'jmp':
            self.edge(b, t[1], ind, depth)
        elif t[0] == 'br':
            if t[1][0] == 'undef':
                self.out.append(sp + 'raise UB("branch on poison")')
                return
            self.out.append(sp + 'if %s:' % self.val(t[1], ir.ity(1)))
            self.edge(b, t[2], ind + 1, depth + 1)
            self.out.append(sp + 'else:')
            self.edge(b, t[3], ind + 1, depth + 1)
        elif t[0] == 'switch':
            _, ty, v, d, cases = t
            x = self.val(v, ty)
            groups = {}
            for c, dest in cases:
                groups.setdefault(dest, []).append(c)
            first = True
            for dest, cs in groups.items():
                cond = ' or '.join('%s==%r' % (x, c) for c in cs)
                self.out.append(sp + ('if ' if first else 'elif ') + cond + ':')
                first = False
                self.edge(b, dest, ind + 1, depth + 1)
            if first:
                self.edge(b, d, ind, depth)
            else:
                self.out.append(sp + 'else:')
                self.edge(b, d, ind + 1, depth + 1)
        elif t[0] == 'ret':
            if t[2] is not None:
                self.out.append(sp + 'R=%s' % self.val(t[2], t[1]))
            self.out.append(sp + 'if AL: freeall(AL)')
            self.out.append(sp + 'return' + (' R' if t[2] is not None else ''))
        elif t[0] == 'unreachable':
            self.out.append(sp + 'raise UB("unreachable reached")')
        else:
            self.out.append(sp + 'raise Unsupported(%r)' % t[0])

    # -------------------------------------------------------------- instructions
    def instr(self, op, dst, p):
        D = self.nm(dst) if dst else None
        if op in BIN:
            while p.peek()[0] == 'id' and p.peekv() in ('nuw', 'nsw', 'exact', 'disjoint'):
                p.next()
            t = p.type()
            a = value(p, t)
            p.exp(',')
            b = value(p, t)
            if t[0] == 'vec':
                return ['%s = vbin(%r,%s,%s,%d)' % (D, op, self.val(a, t), self.val(b, t), t[2][1])]
            return ['%s = %s' % (D, self.ibin(op, self.val(a, t), self.val(b, t), t[1], b))]
        if op in FBIN:
            while p.peek()[0] == 'id' and p.peekv() in FMF:
                p.next()
            t = p.type()
            a = value(p, t)
            p.exp(',')
            b = value(p, t)
            if t[0] == 'vec':
                return ['%s = vfbin(%s%d,%s,%s)' % (D, op, t[2][1], self.val(a, t), self.val(b, t))]
            return ['%s = %s%d(%s,%s)' % (D, op, t[1], self.val(a, t), self.val(b, t))]
        if op == 'fneg':
            while p.peek()[0] == 'id' and p.peekv() in FMF:
                p.next()
            t = p.type()
            a = value(p, t)
            if t[0] == 'vec':
                return ['%s = tuple([fneg(x,%d) for x in %s])' % (D, t[2][1], self.val(a, t))]
            return ['%s = fneg(%s,%d)' % (D, self.val(a, t), t[1])]
        if op == 'icmp':
            if p.acc('samesign'):
                pass
            pred = p.next()[1]
            t = p.type()
            a = value(p, t)
            p.exp(',')
            b = value(p, t)
            A = self.val(a, t)
            B = self.val(b, t)
            if t[0] == 'vec':
                return ['%s = vicmp(%r,%s,%s,%d)' % (D, pred, A, B, 64 if t[2][0] == 'p' else t[2][1])]
            w = 64 if t[0] == 'p' else t[1]
            return ['%s = (%s)' % (D, icmp(pred, A, B, w))]
        if op == 'fcmp':
            while p.peek()[0] == 'id' and p.peekv() in FMF:
                p.next()
            pred = p.next()[1]
            t = p.type()
            a = value(p, t)
            p.exp(',')
            b = value(p, t)
            if t[0] == 'vec':
                return ['%s = tuple([fcmp(%r,x,y) for x,y in zip(%s,%s)])' % (D, pred, self.val(a, t), self.val(b, t))]
            return ['%s = fcmp(%r,%s,%s)' % (D, pred, self.val(a, t), self.val(b, t))]
        if op == 'select':
            while p.peek()[0] == 'id' and p.peekv() in FMF:
                p.next()
            ct = p.type()
            c = value(p, ct)
            p.exp(',')
            t = p.type()
            a = value(p, t)
            p.exp(',')
            t2 = p.type()
            b = value(p, t2)
            C_ = self.val(c, ct)
            A = self.val(a, t)
            B = self.val(b, t)
            if ct[0] == 'vec':
                return ['%s = tuple([x if k else y for k,x,y in zip(%s,%s,%s)])' % (D, C_, A, B)]
            if t[0] == 'i':
                return ['%s = (%s if %s else %s) if type(%s) is bool else sel(%s,%s,%s,%d)' % (D, A, C_, B, C_, C_, A, B, t[1])]
            if t[0] not in ('s', 'a', 'vec', 'ptr', 'p'):
                return ['%s = (%s if %s else %s) if type(%s) is bool else fsel(%s,%s,%s)' % (D, A, C_, B, C_, C_, A, B)]
            return ['%s = %s if %s else %s' % (D, A, C_, B)]
        if op == 'load':
            p.acc('atomic')
            p.acc('volatile')
            t = p.type()
            p.exp(',')
            p.type()
            a = value(p, ir.PTR)
            r = self.load(self.val(a, ir.PTR), t)
            if not any('noundef' in str(x[1]) for x in p.t[p.i:]):
                r = r.replace('ldi', 'ldu')
            return ['%s = %s' % (D, r)]
        if op == 'store':
            p.acc('atomic')
            p.acc('volatile')
            t = p.type()
            v = value(p, t)
            p.exp(',')
            p.type()
            a = value(p, ir.PTR)
            if v[0] == 'undef':
                return ['pass']
            return self.store(self.val(a, ir.PTR), t, self.val(v, t))
        if op == 'getelementptr':
            while p.peek()[0] == 'id' and p.peekv() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            t = p.type()
            p.exp(',')
            bt = p.type()
            base = value(p, bt)
            if bt[0] == 'vec':
                raise Unsupported('vector gep')
            ops = []
            while p.acc(','):
                ot = p.type()
                if ot[0] == 'm' or p.peek()[0] == 'meta':
                    break
                ops.append((ot, value(p, ot)))
            const = 0
            terms = []
            cur = t
            for j, (ot, ov) in enumerate(ops):
                if j == 0:
                    st = sizeof(cur)
                elif cur[0] == 's':
                    c = ov[1]
                    const += layout(cur)[0][c]
                    cur = cur[1][c]
                    continue
                else:
                    st = sizeof(cur[2])
                    cur = cur[2]
                if ov[0] == 'c':
                    c = ov[1]
                    c = (c ^ (1 << (ot[1] - 1))) - (1 << (ot[1] - 1))
                    const += c * st
                else:
                    x = self.val(ov, ot)
                    if ot[1] != 64:
                        x = 'sx(%s,%d)' % (x, ot[1])
                    terms.append(x if st == 1 else '%s*%d' % (x, st))
            e = self.val(base, bt)
            if not terms:
                if const == 0:
                    return ['%s = %s' % (D, e)]
                if const > 0:
                    return ['%s = %s+%d' % (D, e, const)]
                return ['%s = %s-%d' % (D, e, -const)]
            if const:
                terms.append(str(const))
            return ['%s = (%s+%s)&%d' % (D, e, '+'.join(terms), M64)]
        if op == 'alloca':
            p.acc('inalloca')
            t = p.type()
            n = '1'
            if p.acc(',') and p.peekv() != 'align':
                nt = p.type()
                n = self.val(value(p, nt), nt)
            return ['%s = alloca(%d*%s,AL)' % (D, sizeof(t), n)]
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'inttoptr', 'ptrtoint', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext',
                  'fptrunc', 'ptrtoaddr', 'addrspacecast'):
            while p.peek()[0] == 'id' and p.peekv() in ('nneg', 'nuw', 'nsw') or p.peekv() in FMF:
                p.next()
            t = p.type()
            v = value(p, t)
            p.exp('to')
            t2 = p.type()
            return ['%s = %s' % (D, self.cast(op, t, self.val(v, t), t2))]
        if op == 'extractvalue':
            t = p.type()
            v = value(p, t)
            e = self.val(v, t)
            while p.acc(','):
                if p.peek()[0] == 'meta':
                    break
                e += '[%s]' % p.next()[1]
            return ['%s = %s' % (D, e)]
        if op == 'insertvalue':
            t = p.type()
            v = value(p, t)
            p.exp(',')
            t2 = p.type()
            x = value(p, t2)
            idx = []
            while p.acc(','):
                if p.peek()[0] == 'meta':
                    break
                idx.append(int(p.next()[1]))
            return ['%s = insv(%s,%s,%r)' % (D, self.val(v, t), self.val(x, t2), tuple(idx))]
        if op == 'extractelement':
            t = p.type()
            v = value(p, t)
            p.exp(',')
            t2 = p.type()
            i = value(p, t2)
            return ['%s = %s[%s]' % (D, self.val(v, t), self.val(i, t2))]
        if op == 'insertelement':
            t = p.type()
            v = value(p, t)
            p.exp(',')
            t1 = p.type()
            x = value(p, t1)
            p.exp(',')
            t2 = p.type()
            i = value(p, t2)
            return ['%s = insv(%s,%s,(%s,))' % (D, self.val(v, t), self.val(x, t1), self.val(i, t2))]
        if op == 'shufflevector':
            t = p.type()
            a = value(p, t)
            p.exp(',')
            t1 = p.type()
            b = value(p, t1)
            p.exp(',')
            t2 = p.type()
            m = value(p, t2)
            n = t[1]
            z = self.lit(self.vm.zerov(t[2]))
            if m[0] in ('zero', 'undef'):
                idx = [0] * t2[1]
            else:
                idx = [x[1] if x[0] == 'c' else None for x in m[1]]
            A = self.val(a, t)
            B = self.val(b, t1)
            return ['%s = (%s)' % (D, ''.join((z if i is None else '%s[%d]' % (A, i) if i < n else '%s[%d]' % (B, i - n)) + ',' for i in idx))]
        if op == 'call':
            return self.call(D, p)
        if op == 'fence':
            return ['pass']
        if op == 'freeze':
            t = p.type()
            return ['%s = %s' % (D, self.val(value(p, t), t))]
        if op == 'atomicrmw':
            p.acc('volatile')
            o = p.next()[1]
            pt = p.type()
            a = value(p, pt)
            p.exp(',')
            t = p.type()
            v = value(p, t)
            A = self.val(a, pt)
            r = D or 'R'
            w = 64 if t[0] == 'p' else t[1]
            return ['%s = %s' % (r, self.load(A, t)),
                    'st(%s,%d,rmw(%r,%s,%s,%d))' % (A, storesize(t), o, r, self.val(v, t), w)]
        if op == 'cmpxchg':
            p.acc('weak')
            p.acc('volatile')
            pt = p.type()
            a = value(p, pt)
            p.exp(',')
            t = p.type()
            c = value(p, t)
            p.exp(',')
            t2 = p.type()
            n = value(p, t2)
            A = self.val(a, pt)
            return ['%s = cmpx(%s,%d,%s,%s)' % (D or 'R', A, storesize(t), self.val(c, t), self.val(n, t))]
        raise Unsupported('instruction ' + op)

    def ibin(self, op, a, b, w, bv):
        if w == 1:
            if op in ('and', 'or', 'xor'):
                return '%s %s %s' % (a, {'and': '&', 'or': '|', 'xor': '^'}[op], b)
            if op in ('add', 'sub'):
                return '%s ^ %s' % (a, b)
            if op == 'mul':
                return '%s & %s' % (a, b)
            raise Unsupported('i1 ' + op)
        M = (1 << w) - 1
        if op == 'add':
            return '(%s+%s)&%d' % (a, b, M)
        if op == 'sub':
            return '(%s-%s)&%d' % (a, b, M)
        if op == 'mul':
            return '(%s*%s)&%d' % (a, b, M)
        if op == 'and':
            return '%s&%s' % (a, b)
        if op == 'or':
            return '%s|%s' % (a, b)
        if op == 'xor':
            return '%s^%s' % (a, b)
        if op == 'lshr':
            return '%s>>%s' % (a, b)
        if op == 'shl':
            if bv[0] == 'c':
                return '(%s<<%s)&%d' % (a, b, M)
            return 'shl(%s,%s,%d)' % (a, b, w)
        if op == 'udiv':
            return 'udiv(%s,%s)' % (a, b)
        if op == 'urem':
            return 'urem(%s,%s)' % (a, b)
        return '%s(%s,%s,%d)' % (op, a, b, w)

    def load(self, a, t):
        k = t[0]
        if k == 'i':
            if t[1] == 1:
                return 'tob(ldi(%s,1))' % a
            if t[1] % 8:
                return 'ldi(%s,%d)&%d' % (a, storesize(t), (1 << t[1]) - 1)
            return 'ldi(%s,%d)' % (a, t[1] // 8)
        if k == 'f':
            return 'ldf(%s,%d)' % (a, t[1] // 8)
        if k == 'p':
            return 'ldi(%s,8)' % a
        if k == 'vec':
            if t[2] == ('i', 1):
                raise Unsupported('load of i1 vector')
            es = sizeof(t[2])
            fn = 'ldf' if t[2][0] == 'f' else 'ldi'
            return 'ldvec(%s,%s,%d,%d)' % (fn, a, es, t[1])
        if k == 'a':
            es = sizeof(t[2])
            return '(%s)' % ''.join(self.load('(%s+%d)' % (a, i * es), t[2]) + ',' for i in range(t[1]))
        if k == 's':
            offs = layout(t)[0]
            return '(%s)' % ''.join(self.load('(%s+%d)' % (a, o), x) + ',' for o, x in zip(offs, t[1]))
        raise Unsupported('load type')

    def store(self, a, t, v):
        k = t[0]
        if k == 'i' and t[1] == 1:
            return ['st(%s,1,zxb(%s,8))' % (a, v)]
        if k in ('i', 'f', 'p'):
            return ['st(%s,%d,%s)' % (a, storesize(t), v)]
        if k == 'vec' or k == 'a':
            es = sizeof(t[2])
            if t[2] == ('i', 1):
                raise Unsupported('store of i1 vector')
            r = ['R=%s' % v]
            for i in range(t[1]):
                r += self.store('(%s+%d)' % (a, i * es), t[2], 'R[%d]' % i)
            return r
        if k == 's':
            offs = layout(t)[0]
            r = ['R_=%s' % v]
            for i, (o, x) in enumerate(zip(offs, t[1])):
                r += self.store('(%s+%d)' % (a, o), x, 'R_[%d]' % i)
            return r
        raise Unsupported('store type')

    def cast(self, op, t, v, t2):
        if op in ('inttoptr', 'ptrtoint', 'ptrtoaddr', 'addrspacecast'):
            if t[0] == 'i' and t[1] < 64:
                return v
            if t2[0] == 'i' and t2[1] < 64:
                return '%s&%d' % (v, (1 << t2[1]) - 1)
            return v
        if t[0] == 'vec' and op != 'bitcast':
            inner = self.cast(op, t[2], 'x', t2[2])
            return 'tuple([%s for x in %s])' % (inner, v)
        if op == 'zext':
            if t[1] == 1:
                return '(int(%s) if type(%s) is bool else zxb(%s,%d))' % (v, v, v, t2[1])
            return '(%s if type(%s) is int else zx(%s,%d,%d))' % (v, v, v, t[1], t2[1])
        if op == 'sext':
            if t[1] == 1:
                return '(%d if %s else 0)' % ((1 << t2[1]) - 1, v)
            return 'sext(%s,%d,%d)' % (v, t[1], t2[1])
        if op == 'trunc':
            if t2[1] == 1:
                return 'tob(%s)' % v
            return '(%s&%d if type(%s) is int else tr(%s,%d,%d))' % (v, (1 << t2[1]) - 1, v, v, t[1], t2[1])
        if op == 'uitofp':
            return 'uitofp(%s,%d,%d)' % (v, t[1], t2[1])
        if op == 'sitofp':
            return 'sitofp(%s,%d,%d)' % (v, t[1], t2[1])
        if op in ('fptoui', 'fptosi'):
            return 'fptoi(%s,%d,%d,%r)' % (v, t[1], t2[1], op == 'fptosi')
        if op == 'fpext':
            return 'fpext(%s)' % v
        if op == 'fptrunc':
            return 'fptrunc(%s)' % v
        if op == 'bitcast':
            return 'bitcast(%s,%r,%r)' % (v, t, t2)
        raise Unsupported(op)

    def call(self, D, p):
        # call [fmf] [cc] [ret attrs] <ty> <fn>(<args>) [attrs]
        while True:
            k, v = p.peek()
            if k == 'id' and (v in ATTRS or v in ir.FKW or v in FMF):
                p.next()
                if p.peekv() == '(':
                    p.skip_group()
                elif v == 'align' and p.peek()[0] == 'int':
                    p.next()
                continue
            break
        rt = p.type()
        k, v = p.peek()
        if v == '(':      # function type with varargs
            p.skip_group()
            k, v = p.peek()
        if v == 'asm':
            return self.asm(D, p, rt)
        fn = value(p, ir.PTR)
        p.exp('(')
        args = []
        if not p.acc(')'):
            while True:
                t = p.type()
                if t[0] == 'm':
                    d = 0
                    while True:
                        kk, vv = p.peek()
                        if d == 0 and vv in (',', ')'):
                            break
                        if vv in ('(', '{'):
                            d += 1
                        if vv in (')', '}'):
                            d -= 1
                        p.next()
                    args.append((t, ('c', 0)))
                else:
                    p.skip_attrs()
                    args.append((t, value(p, t)))
                if p.acc(')'):
                    break
                p.exp(',')
        pre = '%s = ' % D if D else ''
        if fn[0] == 'g' and fn[1].startswith('@llvm.'):
            return self.intrinsic(D, fn[1][6:], rt, args)
        A = ','.join(self.val(a, t) for t, a in args)
        if fn[0] == 'v':
            return ['%sicall(%s%s)' % (pre, self.val(fn, ir.PTR), ',' + A if A else '')]
        if fn[0] == 'g':
            return ['%s%s(%s)' % (pre, self.vm.func(self.mod, fn[1]), A)]
        raise Unsupported('callee %r' % (fn,))

    def asm(self, D, p, rt):
        """the only inline assembly in reach: the square root instruction used by libm"""
        txt = []
        while True:
            k, v = p.next()
            if v == '(':
                break
            txt.append(v)
        s = ' '.join(map(str, txt))
        t = p.type()
        p.skip_attrs()
        a = value(p, t)
        p.exp(')')
        if re.search(r'\bsqrts[sd] \$\{0:x\}, \$\{0:x\}"', s) and t == rt and t[0] == 'f' and D:
            return ['%s = m_sqrt(%d,%s)' % (D, t[1], self.val(a, t))]
        raise Unsupported('inline asm ' + s)

    def intrinsic(self, D, name, rt, args):
        A = [self.val(a, t) for t, a in args]
        base = name.split('.')[0]
        pre = '%s = ' % D if D else ''
        if name.startswith(('lifetime', 'experimental.noalias', 'dbg', 'invariant', 'prefetch', 'donothing', 'sideeffect')):
            return ['pass']
        if base == 'assume':
            return ['pass']
        if name.startswith('memcpy'):
            return ['memcpy(%s)' % ','.join(A[:3])]
        if name.startswith('memmove'):
            return ['memcpy(%s)' % ','.join(A[:3])]
        if name.startswith('memset'):
            return ['memset(%s)' % ','.join(A[:3])]
        if base in ('trap', 'ubsantrap'):
            return ['raise RustPanic("trap")']
        if name.startswith('expect'):
            return [pre + A[0]]
        if name.startswith('threadlocal.address') or name.startswith('ptr.annotation') or name.startswith('launder') or name.startswith('strip'):
            return [pre + A[0]]
        if name.startswith('load.relative'):
            return [pre + 'loadrel(%s,%s)' % (A[0], A[1])]
        if name.startswith('is.fpclass'):
            return [pre + 'fpclass(%s,%s)' % (A[0], A[1])]
        if name.startswith('ptrmask'):
            return [pre + '%s & %s' % (A[0], A[1])]
        if rt[0] == 'vec' and base in VECI:
            es = rt[2]
            n = rt[1]
            k = [a if t[0] == 'vec' else '(%s,)*%d' % (a, n) for (t, _), a in zip(args, A)]
            vs = ['x%d' % i for i in range(len(k))]
            inner = self.scalar_intr(base, name, es, vs, [t[2] if t[0] == 'vec' else t for t, _ in args])
            if len(k) == 1:
                return [pre + 'tuple([%s for x0 in %s])' % (inner, k[0])]
            return [pre + 'tuple([%s for %s in zip(%s)])' % (inner, ','.join(vs), ','.join(k))]
        if name.startswith('vector.reduce'):
            return [pre + 'vreduce(%r,%s)' % (name, ','.join(A))]
        return [pre + self.scalar_intr(base, name, rt, A, [t for t, _ in args])]

    def scalar_intr(self, base, name, rt, A, tys):
        a = ','.join(A)
        parts = name.split('.')
        if base in ('umin', 'umax', 'smin', 'smax', 'ctpop', 'ctlz', 'cttz', 'bswap', 'bitreverse', 'fshl', 'fshr', 'abs'):
            return 'i_%s(%s,%d)' % (base, a, rt[1])
        if base in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul', 'sshl', 'ushl'):
            if parts[1] == 'with':
                return 'i_%s_ov(%s,%d)' % (base, a, rt[1][0][1])
            return 'i_%s_sat(%s,%d)' % (base, a, rt[1])
        if base in ('ucmp', 'scmp'):
            return 'i_%s(%s,%d,%d)' % (base, a, tys[0][1], rt[1])
        if base in ('fptoui', 'fptosi'):
            return 'fptoi_sat(%s,%d,%d,%r)' % (A[0], tys[0][1], rt[1], base == 'fptosi')
        if base in FINTR:
            return 'm_%s(%d,%s)' % (base, rt[1], a)
        if base == 'x86':
            raise Unsupported('x86 intrinsic ' + name)
        raise Unsupported('intrinsic ' + name)


FINTR = set('''sin cos tan log log10 log2 exp exp2 pow powi sqrt floor ceil round trunc rint nearbyint roundeven fma fmuladd fabs copysign
maxnum minnum maximumnum minimumnum maximum minimum sincos'''.split())
VECI = FINTR | set('umin umax smin smax ctpop ctlz cttz abs fptoui fptosi uadd usub sadd ssub fshl fshr bswap'.split())
FMF = set('fast nnan ninf nsz arcp contract afn reassoc'.split())
BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor'.split())
FBIN = set('fadd fsub fmul fdiv frem'.split())


LIBMOP = {}
for _n in 'sin cos sincos tan log log10 log2 exp exp2 pow sqrt floor ceil round trunc rint fma fabs'.split():
    LIBMOP[_n] = (_n, 64)
    LIBMOP[_n + 'f'] = (_n, 32)


def libmop(s):
    for k, v in LIBMOP.items():
        e = '%d%s' % (len(k), k)
        if s.endswith(e) and not s[:-len(e)][-1].isdigit():
            return v
    return None


def icmp(pred, A, B, w):
    if w == 1:
        if pred == 'eq':
            return '%s==%s' % (A, B)
        if pred == 'ne':
            return '%s!=%s' % (A, B)
        if pred == 'ult':
            return '(%s^True)&%s' % (A, B)
        if pred == 'ugt':
            return '(%s^True)&%s' % (B, A)
        if pred == 'ule':
            return '(%s^True)|%s' % (A, B)
        if pred == 'uge':
            return '(%s^True)|%s' % (B, A)
        raise Unsupported('i1 icmp ' + pred)
    o = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>=', 'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>='}[pred]
    if pred[0] == 's':
        s = 1 << (w - 1)
        return '(%s^%d)%s(%s^%d)' % (A, s, o, B, s)
    return '%s%s%s' % (A, o, B)


from .stubs import STUBS, STUBS_ALWAYS  # noqa
from . import stubs_more  # noqa
from . import stubs_fs  # noqa
from . import stubs_fmt  # noqa
from . import stubs_cmd  # noqa
