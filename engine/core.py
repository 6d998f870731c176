"""Exploration of harness cases, solver queries, native replay and evidence."""
import os, sys, json, time, math, random, struct, subprocess, traceback, multiprocessing, signal
from fractions import Fraction
import numpy as np
import z3
from . import build as B
from .sym import Term, TT, SymB, SymI, Unsupported, rf, fbits, frombits
from . import stubs_fs
from .vm import VM, RustPanic, UB, StepLimit, AllocFail, Infeasible
from .lin import Form, rv

VERIF = B.VERIF
ERRS = {0: 'Ok', 1: 'EmptyInput', 2: 'NonPowerOfTwoNoStd', 3: 'MismatchedLengths', 4: 'InvalidStride', 5: 'InvalidHopSize', 6: 'InvalidValue'}


class Job:
    """One harness case with fixed integer parameters, explored over all values of its symbolic inputs."""

    def __init__(self, cfg, case, args=(), spec=None, box=(-1.0, 1.0), ints=(), key=None, max_paths=3000, steps=60_000_000,
                 env=None, info=None, weight=1.0, validate=True, may_panic=False, ncpu=8, noise=False, fork=False, link=False, sched=True, absmul=False):
        self.cfg = cfg
        self.case = case
        self.args = (list(args) + [0, 0, 0, 0])[:4]
        self.spec = spec
        self.box = box
        self.ints = list(ints)
        self.max_paths = max_paths
        self.steps = steps
        self.env = env or {}
        self.info = info or {}
        self.key = key or '%s(%s)@%s' % (case, ','.join(map(str, self.args)), cfg)
        self.weight = weight
        self.validate = validate
        self.may_panic = may_panic
        self.absmul = absmul              # see ops.i_umul_ov
        self.sched = sched                # explore the orders of parallel work items
        self.ncpu = ncpu
        self.noise = noise
        self.link = link
        self.fork = fork     # integer inputs are split into their values as soon as they are read

    def boxof(self, i):
        b = self.box
        if callable(b):
            b = b(i)
        return b


class SymRun:
    def __init__(self, vm, job):
        self.vm = vm
        self.job = job
        self.ins = []        # (prec, Term | float)
        self.uins = []       # SymI | int
        self.scheds = []
        self.outs = []       # (kind, value)
        self.marks = []

    def f(self, prec):
        b = self.job.boxof(len(self.ins))
        if type(b) is tuple and b[0] != b[1]:
            v = TT.var(prec, float(b[0]), float(b[1]))
        else:
            v = float(b[0] if type(b) is tuple else b)
            if prec == 32:
                v = rf(v)
        self.ins.append((prec, v))
        return v

    def u(self):
        i = len(self.uins)
        lo, hi = self.job.ints[i] if i < len(self.job.ints) else (0, 0)
        if lo == hi:
            v = lo
        else:
            e = z3.BitVec('u%d' % i, 64)
            self.vm.assume(z3.And(z3.UGE(e, lo), z3.ULE(e, hi)))
            v = self.vm.concretize(SymI(e)) if self.job.fork else SymI(e)
        self.uins.append(v)
        return v

    def sched(self, n):
        n = self.vm.concretize(n)
        i = len(self.scheds)
        if not self.job.sched:
            self.scheds.append(0)
            return 0
        e = z3.BitVec('s%d' % i, 64)
        self.vm.assume(z3.ULT(e, n))
        k = self.vm.concretize(SymI(e))
        self.scheds.append(k)
        return k


class ConcRun:
    def __init__(self, vm, job, ins, uins, scheds):
        self.vm = vm
        self.job = job
        self.given = list(ins)
        self.guins = list(uins)
        self.gs = list(scheds)
        self.ins = []
        self.uins = []
        self.scheds = []
        self.outs = []
        self.marks = []

    def f(self, prec):
        i = len(self.ins)
        v = self.given[i] if i < len(self.given) else 0.0
        if prec == 32:
            v = rf(v)
        self.ins.append((prec, v))
        return v

    def u(self):
        i = len(self.uins)
        v = self.guins[i] if i < len(self.guins) else 0
        self.uins.append(v)
        return v

    def sched(self, n):
        i = len(self.scheds)
        v = self.gs[i] if i < len(self.gs) else 0
        if v >= n:
            v = 0
        self.scheds.append(v)
        return v


class RandRun(ConcRun):
    """random inputs inside the job's boxes (translator validation)"""

    def __init__(self, vm, job, rng):
        ConcRun.__init__(self, vm, job, [], [], [])
        self.rng = rng

    def f(self, prec):
        b = self.job.boxof(len(self.ins))
        v = self.rng.uniform(b[0], b[1]) if type(b) is tuple else float(b)
        if prec == 32:
            v = rf(v)
            if type(b) is tuple:
                v = min(max(v, rf(b[0])), rf(b[1]))
        self.ins.append((prec, v))
        return v

    def u(self):
        i = len(self.uins)
        lo, hi = self.job.ints[i] if i < len(self.job.ints) else (0, 0)
        v = self.rng.randint(lo, min(hi, lo + 1000))
        self.uins.append(v)
        return v

    def sched(self, n):
        v = self.rng.randrange(n)
        self.scheds.append(v)
        return v


def install(vm):
    vm.run = None
    stubs_fs.install(vm)
    vm.ext['vp_f32'] = lambda: vm.run.f(32)
    vm.ext['vp_f64'] = lambda: vm.run.f(64)
    vm.ext['vp_u'] = lambda: vm.run.u()
    vm.ext['vp_sched'] = lambda n: vm.run.sched(n)
    vm.ext['vp_mark'] = lambda n: vm.run.outs.append(('m', n))
    vm.ext['vp_o32'] = lambda v: vm.run.outs.append(('f', v))
    vm.ext['vp_o64'] = lambda v: vm.run.outs.append(('d', v))
    vm.ext['vp_ou'] = lambda v: vm.run.outs.append(('u', v))


def execute(vm, job):
    """outcome of one run from the current reset state"""
    try:
        vm.C[1] = job.steps
        vm.env = job.env
        vm.num_cpus = job.ncpu
        vm.dom.noise = job.noise
        vm.link = job.link
        vm.absmul = job.absmul
        vm.call(job.case, *job.args)
        return 'ok', None
    except RustPanic as e:
        return 'panic', '%s at %s' % (e.kind, e.loc)
    except UB as e:
        if os.environ.get('VP_TB'): traceback.print_exc()
        return 'ub', str(e)
    except StepLimit:
        return 'steps', 'more than %d instructions executed' % job.steps
    except AllocFail as e:
        return 'alloc', str(e)
    except Infeasible:
        return 'infeasible', None


# ------------------------------------------------------------------------------------------------ expectations
class Stop(Exception):
    pass


class PathView:
    """What a specification sees: the outputs of one path. In symbolic mode every expectation becomes a solver query
    over all inputs of the path; in concrete mode (native replay) it is evaluated on the returned numbers."""

    def __init__(self, job, sym, outs, outcome, detail, nin, vm=None, ins=None, uins=None, scheds=()):
        self.job = job
        self.sym = sym
        self.outs = [o for o in outs if o[0] != 'm']
        self.marks = [o[1] for o in outs if o[0] == 'm']
        self.outcome = outcome
        self.detail = detail
        self.nin = nin
        self.vm = vm
        self.ins = ins            # concrete values
        self.uins = uins
        self.scheds = scheds
        self.pos = 0
        self.fail = []            # (what, witness or None)
        self.undecided = []
        self.queries = 0
        self.worst = 0.0          # largest (|deviation|+rounding)/tol seen
        self.maxfail = 3

    # -- reading outputs in order
    def take(self):
        if self.pos >= len(self.outs):
            self.bad('only %d values returned' % len(self.outs))
            raise Stop()
        self.pos += 1
        return self.pos - 1

    def int(self):
        """next output, which must be an integer; returns it (concretised)"""
        i = self.take()
        k, v = self.outs[i]
        if k != 'u':
            raise Unsupported('expected an integer output at %d' % i)
        if type(v) is SymI:
            v = self.vm.concretize(v)
        return v

    def rawint(self):
        i = self.take()
        k, v = self.outs[i]
        if k != 'u':
            raise Unsupported('expected an integer output at %d' % i)
        return v

    def bad(self, what):
        self.fail.append((what, None))
        if self.sym and len(self.fail) <= self.maxfail:
            self.fail[-1] = (what, self.witness())

    def expect(self, cond, what):
        if not cond:
            self.bad(what)

    def expect_int(self, v, what):
        got = self.rawint()
        self.expect_eqi(got, v, what)

    def expect_eqi(self, got, v, what):
        if type(got) is SymI or type(v) is SymI:
            e = (got.e if type(got) is SymI else z3.BitVecVal(got, 64)) != (v.e if type(v) is SymI else z3.BitVecVal(v, 64))
            self.query_bool(e, '%s: expected %s' % (what, v))
        elif got != v:
            self.bad('%s: got %s, expected %s' % (what, got, v))

    def ubv(self, i):
        """integer input i as a 64-bit vector"""
        v = self.uins[i]
        return v.e if type(v) is SymI else z3.BitVecVal(v, 64)

    def must(self, e, what):
        """e (over integer inputs) holds for every value on this path"""
        if type(e) is bool:
            self.expect(e, what)
        elif not self.sym:
            if not z3.is_true(z3.simplify(e)):
                self.bad(what)
        else:
            self.query_bool(z3.Not(e), what)

    def query_bool(self, e, what):
        r = self.vm.zcheck(e)
        self.queries += 1
        if r == z3.sat:
            m = self.vm.get_solver().model()
            self.fail.append((what, self.from_model(m)))
        elif r != z3.unsat:
            self.undecided.append(what + ': solver unknown')

    def ok(self, what='result'):
        c = self.int()
        if c != 0:
            self.bad('%s: returned error %s' % (what, ERRS.get(c, c)))
            return False
        return True

    def lin(self, coefs, k=0.0, tol=1e-5, what=''):
        """next float output must equal k + coefs . inputs within tol. coefs: array over inputs or dict."""
        i = self.take()
        self.check_lin(i, coefs, k, tol, what)

    def lins(self, rows, tol, what='', ks=None):
        for j, r in enumerate(rows):
            self.lin(r, 0.0 if ks is None else ks[j], tol, '%s[%d]' % (what, j))

    def val(self, i):
        return self.outs[i][1]

    def check_lin(self, i, coefs, k, tol, what):
        kind, v = self.outs[i]
        if kind not in 'fd':
            raise Unsupported('expected a float output at %d' % i)
        if not self.sym:
            if type(coefs) is dict:
                ref = k + math.fsum(c * self.ins[j] for j, c in coefs.items())
            elif coefs is None:
                ref = k
            else:
                ref = k + math.fsum(float(c) * self.ins[j] for j, c in enumerate(coefs) if c)
            if not (abs(v - ref) <= tol):
                self.fail.append(('%s: returned %r, expected %r +- %g' % (what, v, ref, tol), None))
            return
        f = self.form(v)
        dom = self.vm.dom
        n = 0
        d = None
        if f is None:
            self.bad('%s: not a number' % what)
            return
        if type(coefs) is dict:
            pairs = list(coefs.items())
        elif coefs is None:
            pairs = []
        else:
            pairs = [(j, float(c)) for j, c in enumerate(coefs) if c]
        dom.sync_inputs()
        vm_ = [(self.var_of(j), c) for j, c in pairs]
        const = k
        n = max([len(f.c) if f.c is not None else 0] + [x[0] + 1 for x in vm_ if x[0] is not None])
        d = np.zeros(n)
        if f.c is not None:
            d[:len(f.c)] = f.c
        slack = 0.0
        for j, c in vm_:
            if j is None:
                continue
            d[j] -= c
        for (j, c), (x, _) in zip(pairs, vm_):
            if x is None:
                const += c * self.rawin(j)
        self.check_form(Form(f.k - const, d, f.err, 0, 0), tol, what)

    def var_of(self, j):
        """Dom variable of input j (None when that input is a constant)"""
        p, t = self.vm.run.ins[j]
        if type(t) is float:
            return None
        return self.vm.dom.inp[t.args[0]]

    def rawin(self, j):
        return self.vm.run.ins[j][1]

    def form(self, v):
        if type(v) is float:
            if v != v or math.isinf(v):
                return None
            return self.vm.dom.const(v)
        return self.vm.dom.of(v)

    def same(self, i, j, tol, what):
        """outputs i and j agree within tol"""
        if not self.sym:
            a, b = self.outs[i][1], self.outs[j][1]
            if not (abs(a - b) <= tol or (a == b)):
                self.fail.append(('%s: %r differs from %r by more than %g' % (what, a, b, tol), None))
            return
        a, b = self.outs[i][1], self.outs[j][1]
        if a is b or (type(a) is float and type(b) is float and a == b):
            self.queries += 1
            self.vm.trivial += 1
            return
        fa, fb = self.form(a), self.form(b)
        if fa is None or fb is None:
            self.bad('%s: not a number' % what)
            return
        self.check_form(self.vm.dom.add(fa, fb, -1, True, 64), tol, what)

    def poly(self, ref, tol, what=''):
        """next float output equals the expression ref(x) within tol, where x are the inputs (as exact expressions)"""
        i = self.take()
        self.check_poly(i, ref, tol, what)

    def check_poly(self, i, ref, tol, what, square=False, rel=0.0):
        v = self.outs[i][1]
        if not self.sym:
            r = ref(self.ins)
            vv = v * v if square else v
            t = tol + rel * abs(r)
            if not (abs(vv - r) <= t) or (square and not v >= -1e-30):
                self.fail.append(('%s: returned %r, expected %s%r +- %g' % (what, v, 'square ' if square else '', r, t), None))
            return
        f = self.form(v)
        if f is None:
            self.bad('%s: not a number' % what)
            return
        xs = [X(t) for p, t in self.vm.run.ins]
        r = ref(xs)
        r = r.t if type(r) is X else float(r)
        g = self.vm.dom.of(r)
        if square:
            if type(v) is Term and v.op == 'sqrt':
                w = v.args[0]
                fw = self.form(w)
                u = 2.0 ** -22 if v.prec == 32 else 2.0 ** -50
                f = Form(fw.k, fw.c, fw.err + u * max(abs(fw.lo), abs(fw.hi)), fw.lo, fw.hi)
            else:
                f = self.vm.dom.mul(f, f, True, 64)
        self.check_form(self.vm.dom.add(f, g, -1, True, 64), tol, what)

    def xs(self):
        """the inputs as exact expressions (numbers in a native replay)"""
        return [X(t) for p, t in self.vm.run.ins] if self.sym else list(self.ins)

    def xout(self, i):
        """output i as an expression"""
        return X(self.outs[i][1]) if self.sym else self.outs[i][1]

    def iout(self, i):
        """integer output i as an expression"""
        v = self.outs[i][1]
        if not self.sym:
            return v
        if type(v) is SymI:
            t = self.vm.int_to_float(v, v.e.size(), False, 64)
            if t is None:
                raise Unsupported('integer output with a large value')
            return X(t)
        return X(float(v))

    def iin(self, i):
        """integer input i as an expression"""
        v = self.uins[i]
        if not self.sym:
            return v
        return X(self.vm.int_to_float(v, 64, False, 64)) if type(v) is SymI else X(float(v))

    def same_x(self, a, b, tol, what):
        """expressions a and b agree within tol"""
        if not self.sym:
            if not abs(float(a) - float(b)) <= tol:
                self.fail.append(('%s: %r, expected %r +- %g' % (what, a, b, tol), None))
            return
        fa, fb = self.form(X.c(a)), self.form(X.c(b))
        if fa is None or fb is None:
            self.bad('%s: not a number' % what)
            return
        self.check_form(self.vm.dom.add(fa, fb, -1, True, 64), tol, what)

    def le_x(self, a, b, tol, what):
        """expression a <= b + tol"""
        if not self.sym:
            if not float(a) <= float(b) + tol:
                self.fail.append(('%s: %r exceeds %r' % (what, a, b), None))
            return
        fa, fb = self.form(X.c(a)), self.form(X.c(b))
        if fa is None or fb is None:
            self.bad('%s: not a number' % what)
            return
        d = self.vm.dom.collapse(self.vm.dom.add(fa, fb, -1, True, 64))
        if len(self.fail) >= self.maxfail:
            return
        self.queries += 1
        if fa.hi <= fb.lo + tol:
            self.vm.trivial += 1
            return
        e = self.vm.dom.zexpr(d)
        if self.vm.zcheck(e + rv(d.err) > rv(tol)) == z3.unsat:
            return
        for m in (1000, 100, 10, 1):
            self.queries += 1
            if self.vm.zcheck(e > rv(tol + m * d.err)) == z3.sat:
                self.fail.append((what, self.from_model(self.vm.get_solver().model())))
                return
        self.undecided.append(what + ': only up to accumulated rounding')

    def fact(self, a):
        """a mathematical truth about the reference expressions (such as a sum of squares being >= 0)"""
        if self.sym:
            d = self.vm.dom.collapse(self.form(X.c(a)))
            self.vm.assume(self.vm.dom.zexpr(d) >= -rv(d.err))

    def one_of(self, i, js, tol, what, extra=()):
        """output i agrees with one of the outputs js, or of the numbers extra, within tol"""
        if not self.sym:
            v = self.outs[i][1]
            if not any(abs(v - w) <= tol for w in [self.outs[j][1] for j in js] + list(extra)):
                self.fail.append(('%s: %r is none of them' % (what, v), None))
            return
        a = self.outs[i][1]
        cand = [self.outs[j][1] for j in js] + list(extra)
        if any(a is b or (type(a) is float and type(b) is float and a == b) for b in cand):
            self.queries += 1
            self.vm.trivial += 1
            return
        fa = self.form(a)
        if fa is None:
            return self.bad('%s: not a number' % what)
        es = []
        for b in cand:
            d = self.vm.dom.collapse(self.vm.dom.add(fa, self.form(b), -1, True, 64))
            e = self.vm.dom.zexpr(d)
            es.append(z3.Or(e > rv(tol - d.err), e < rv(d.err - tol)))
        self.query_bool(z3.And(*es), what)

    def given(self, a):
        """a precondition of what follows: the expression is not negative; False when the inputs do not meet it"""
        if not self.sym:
            return float(a) >= 0
        d = self.vm.dom.collapse(self.form(X.c(a)))
        self.vm.assume(self.vm.dom.zexpr(d) >= -rv(d.err))
        return self.vm.zcheck() != z3.unsat

    def check_risks(self):
        """operations whose result would not be a number"""
        vm = self.vm
        for what, f, kind in vm.dom.risks[:50]:
            f = vm.dom.collapse(f)
            e = vm.dom.zexpr(f)
            E = rv(f.err)
            self.queries += 1
            r = vm.zcheck(e - E < 0 if kind == 'ge' else e - E <= 0)
            if r == z3.unsat:
                continue
            for m in (100, 3, 1, 0):
                if vm.zcheck(e < rv(-f.err * m) if kind == 'ge' or m else e <= 0) == z3.sat:
                    self.fail.append((what, self.from_model(vm.get_solver().model())))
                    break
            else:
                self.undecided.append(what + ': only up to accumulated rounding')
            if len(self.fail) >= self.maxfail:
                return

    def check_form(self, d, tol, what):
        """query: is there an input in the box (and rounding within err) with |d| > tol?"""
        vm = self.vm
        dom = vm.dom
        d = dom.collapse(d)
        bound = abs(d.k) + (float(np.abs(d.c) @ np.maximum(np.abs(dom.bounds(len(d.c))[0]), np.abs(dom.bounds(len(d.c))[1]))) if d.c is not None else 0.0) + d.err
        if len(self.fail) >= self.maxfail:
            return
        e, extra = self.quantised(d, tol)
        eps = z3.Real('eps')
        E = rv(d.err + extra)
        s = vm.get_solver()
        T = rv(tol)
        self.queries += 1
        s.push()
        s.add(eps <= E, eps >= -E)
        r = vm.zcheck(z3.Or(e + eps > T, e + eps < -T))
        s.pop()
        if r == z3.unsat:
            self.worst = max(self.worst, min(bound / tol, 1.0) if tol > 0 else 0.0)
            return
        # a deviation that does not rest on rounding, as large as possible
        for mult in (1e4, 300, 30, 8, 2, 1.2, 1):
            if bound - d.err <= tol * mult:
                continue
            self.queries += 1
            TM = rv(tol * mult)
            r2 = vm.zcheck(z3.Or(e > TM, e < -TM))
            if r2 == z3.sat:
                m = vm.get_solver().model()
                self.fail.append(('%s: deviates by more than %g' % (what, tol), self.from_model(m)))
                return
        self.undecided.append('%s: within %g only up to accumulated rounding (bound %g)' % (what, tol, bound))

    def quantised(self, d, tol):
        """the linear expression with its coefficients rounded to a grid far below the tolerance (the rounding is
        returned as extra error); keeps the numbers the solver works with small"""
        dom = self.vm.dom
        if not tol > 0:
            return dom.zexpr(d), 0.0
        q = 2.0 ** (math.floor(math.log2(tol)) - 16)
        kk = round(d.k / q) * q if abs(d.k / q) < 2 ** 50 else d.k
        extra = abs(d.k - kk)
        e = rv(kk)
        if d.c is not None and len(d.c):
            lo, hi = dom.bounds(len(d.c))
            m = np.maximum(np.abs(lo), np.abs(hi))
            qs = q / np.maximum(1.0, 2.0 ** np.ceil(np.log2(np.maximum(m, 1e-300)))) / max(1, 2 ** math.ceil(math.log2(len(d.c))))
            cc = np.where(np.abs(d.c) / qs < 2.0 ** 50, np.round(d.c / qs) * qs, d.c)
            extra += float(np.abs(d.c - cc) @ m)
            extra *= 1 + 1e-9
            terms = [rv(float(cc[i])) * dom.zvar(int(i)) for i in np.nonzero(cc)[0]]
            if terms:
                e = e + z3.Sum(terms)
        return e, extra

    # -- witnesses
    def witness(self):
        if self.vm.zcheck() != z3.sat:
            return None
        return self.from_model(self.vm.get_solver().model())

    def from_model(self, m):
        run = self.vm.run
        dom = self.vm.dom
        dom.sync_inputs()
        ins = []
        for p, t in run.ins:
            if type(t) is float:
                ins.append((p, t))
                continue
            v = dom.inp[t.args[0]]
            lo, hi = t.args[1], t.args[2]
            z = dom.z[v]
            x = lo + (hi - lo) * 0.71
            if z is not None:
                q = m.eval(z, model_completion=False)
                if z3.is_rational_value(q):
                    x = float(Fraction(q.numerator_as_long(), q.denominator_as_long()))
                elif z3.is_algebraic_value(q):
                    q = q.approx(20)
                    x = float(Fraction(q.numerator_as_long(), q.denominator_as_long()))
            x = min(max(x, lo), hi)
            if p == 32:
                x = rf(x)
            ins.append((p, x))
        us = []
        for v in run.uins:
            us.append(v if type(v) is int else m.eval(v.e, model_completion=True).as_long())
        return {'ins': ins, 'uins': us, 'scheds': list(run.scheds)}


class X:
    """exact reference expressions over the inputs"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @staticmethod
    def c(o):
        return o.t if type(o) is X else float(o)

    def op(self, k, a, b):
        if type(a) is float and type(b) is float:
            return X({'+': a + b, '-': a - b, '*': a * b}[k])
        if k == '*' and ((type(a) is float and a == 0.0) or (type(b) is float and b == 0.0)):
            return X(0.0)
        return X(TT.mk(k, 0, a, b))

    def __add__(self, o):
        return self.op('+', self.t, X.c(o))
    __radd__ = __add__

    def __sub__(self, o):
        return self.op('-', self.t, X.c(o))

    def __rsub__(self, o):
        return self.op('-', X.c(o), self.t)

    def __mul__(self, o):
        return self.op('*', self.t, X.c(o))
    __rmul__ = __mul__

    def __neg__(self):
        return self.op('*', self.t, -1.0)

    def __truediv__(self, o):
        if type(o) is X:
            return X(TT.mk('/', 0, self.t, o.t))
        return self * (1.0 / o)

    def __rtruediv__(self, o):
        return X(TT.mk('/', 0, float(o), self.t))

    def fn(self, name):
        return X(TT.mk(name, 0, self.t))


def fn(name, x):
    """reference functions on expressions (symbolic run) and numbers (native replay)"""
    if type(x) is X and type(x.t) is not float:
        return x.fn(name)
    v = x.t if type(x) is X else float(x)
    r = {'sqrt': math.sqrt, 'log': math.log, 'log10': math.log10, 'log2': math.log2, 'abs': abs, 'floor': math.floor, 'cos': math.cos, 'sin': math.sin}[name](v)
    return X(float(r)) if type(x) is X else float(r)


def fmax(a, b):
    if type(a) is X or type(b) is X:
        return X(TT.mk('max', 0, X.c(a), X.c(b)))
    return max(a, b)


def fmin(a, b):
    if type(a) is X or type(b) is X:
        return X(TT.mk('min', 0, X.c(a), X.c(b)))
    return min(a, b)


def run_spec(P):
    """default outcome handling, then the job's specification"""
    try:
        if P.outcome != 'ok' and not P.job.may_panic:
            P.bad({'panic': 'panicked (%s)', 'ub': 'undefined behaviour (%s)', 'steps': 'does not terminate (%s)',
                   'alloc': 'allocation failure (%s)', 'crash': 'crashed (%s)'}.get(P.outcome, P.outcome + ' %s') % P.detail)
            return
        if P.job.spec:
            P.job.spec(P)
        if P.sym:
            P.check_risks()
    except Stop:
        pass
    except (Unsupported, LookupError, TypeError, ValueError):
        if not P.fail:      # after a mismatch the rest of the outputs need not have the expected shape
            raise


# ------------------------------------------------------------------------------------------------ exploration
VMS = {}
JOBS = []
SEED = 1


def explore(idx):
    job = JOBS[idx]
    t0 = time.time()
    res = {'idx': idx, 'key': job.key, 'paths': 0, 'instr': 0, 'queries': 0, 'ztime': 0.0, 'fails': [], 'undecided': [], 'err': None,
           'outcomes': {}, 'val': None, 'worst': 0.0, 'covered': [], 'forms': 0, 'stubs': []}
    vm = VMS[job.cfg]
    c0 = set(vm.covered)
    q0, z0 = VM.nqueries, VM.solver_time
    vm.trivial = 0
    try:
        work = [()]
        single = None
        while work:
            if res['paths'] >= job.max_paths:
                res['err'] = 'more than %d paths' % job.max_paths
                break
            prefix = work.pop()
            run = vm.run = None
            vm.reset(prefix)
            run = vm.run = SymRun(vm, job)
            outcome, detail = execute(vm, job)
            res['instr'] += vm.C[0]
            if outcome == 'infeasible':
                work += vm.pending
                continue
            res['paths'] += 1
            res['outcomes'][outcome] = res['outcomes'].get(outcome, 0) + 1
            P = PathView(job, True, run.outs, outcome, detail, len(run.ins), vm, None, run.uins, run.scheds)
            run_spec(P)
            res['queries'] += P.queries
            res['worst'] = max(res['worst'], P.worst)
            for w, wit in P.fail:
                res['fails'].append((w, wit))
            res['undecided'] += P.undecided[:3]
            work += vm.pending
            single = run if res['paths'] == 1 and not vm.pending else None
            if len(res['fails']) >= 4:
                break
        # translator validation: one random concrete run, and the forms against it
        if job.validate and not res['err']:
            rng = random.Random('%s/%s' % (SEED, job.key))
            if single is not None and outcome == 'ok':
                forms = []
                for k, v in single.outs:
                    if k in 'fd' and type(v) is Term:
                        try:
                            forms.append(vm.dom.of(v))
                        except Unsupported:
                            forms.append(None)
                    else:
                        forms.append(None)
                dom = vm.dom
                inpmap = dict(dom.inp)
            else:
                forms = None
            vm.reset()
            cr = vm.run = RandRun(vm, job, rng)
            oc, de = execute(vm, job)
            res['instr'] += vm.C[0]
            if forms is not None and oc == 'ok' and any(f is not None for f in forms):
                symins = [i for i, (p, t) in enumerate(single.ins) if type(t) is Term]
                x = np.zeros(len(dom.vlo))
                for n, i in enumerate(symins):
                    x[inpmap[n] if n in inpmap else n] = cr.ins[i][1]
                simple = all(d[0] == 'x' for d in dom.vdef)
                if len(cr.outs) == len(forms) and simple:
                    for f, (k, v) in zip(forms, cr.outs):
                        if f is None or k not in 'fd':
                            continue
                        pv = f.k + (float(f.c @ x[:len(f.c)]) if f.c is not None else 0.0)
                        res['forms'] += 1
                        if not abs(pv - v) <= f.err * (1 + 1e-6) + 1e-300:
                            res['err'] = 'rounding bound broken: form %r concrete %r err %r' % (pv, v, f.err)
            res['val'] = {'ins': cr.ins, 'uins': cr.uins, 'scheds': cr.scheds, 'outcome': oc, 'detail': de, 'outs': cr.outs}
    except Unsupported as e:
        res['err'] = 'unsupported: %s' % (e,)
        if os.environ.get('VP_TB'):
            traceback.print_exc()
    except RecursionError:
        res['err'] = 'recursion limit'
    except Exception as e:
        res['err'] = 'internal: %r' % (e,)
        if os.environ.get('VP_TB'):
            traceback.print_exc()
    res['smt'] = VM.nqueries - q0
    res['ztime'] = VM.solver_time - z0
    res['covered'] = [vm.covered[k] for k in vm.covered if k not in c0]
    res['stubs'] = sorted(vm.stub_used)
    res['time'] = time.time() - t0
    return res


def fmt_in(p, x):
    return ('f %08x' % fbits(x, 4)) if p == 32 else ('d %016x' % fbits(x, 8))


def script(job, ins, uins, scheds, case_line=True):
    L = []
    if case_line:
        L.append('case %s %s' % (job.case, ' '.join(map(str, job.args))))
    L += [fmt_in(p, x) for p, x in ins]
    L += ['u %d' % u for u in uins]
    L += ['s %d' % s for s in scheds]
    L.append('run')
    return '\n'.join(L) + '\n'


def parse_out(s):
    outs = []
    for l in s.splitlines():
        p = l.split(None, 1)
        if not p:
            continue
        if p[0] == 'f':
            outs.append(('f', frombits(int(p[1], 16), 4)))
        elif p[0] == 'd':
            outs.append(('d', frombits(int(p[1], 16), 8)))
        elif p[0] == 'u':
            outs.append(('u', int(p[1])))
        elif p[0] == 'm':
            outs.append(('m', int(p[1])))
        elif p[0] == 'panic':
            outs.append(('P', p[1] if len(p) > 1 else ''))
        elif p[0] == 'end':
            outs.append(('E', None))
    return outs


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def native(binary, text, env=None, timeout=60, wrap=()):
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(list(wrap) + [binary], input=text, capture_output=True, text=True, timeout=timeout, env=e, preexec_fn=limit if not wrap else None)
    except subprocess.TimeoutExpired:
        return 'steps', 'no answer within %d s' % timeout, []
    outs = parse_out(r.stdout)
    for k, v in outs:
        if k == 'P':
            return 'panic', v, [o for o in outs if o[0] not in 'PE']
    if r.returncode != 0:
        return 'crash', 'exit status %d %s' % (r.returncode, r.stderr[-300:]), [o for o in outs if o[0] not in 'PE']
    return 'ok', None, [o for o in outs if o[0] not in 'PE']


def same_bits(a, b):
    if a[0] != b[0]:
        return False
    if a[0] in 'fd':
        n = 4 if a[0] == 'f' else 8
        x, y = a[1], b[1]
        if x != x and y != y:
            return True
        return fbits(x, n) == fbits(y, n)
    return a[1] == b[1]


class Check:
    def __init__(self, pid, mods, tier=None):
        self.pid = pid
        self.mods = mods
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.jobs = []
        self.bounds = []
        self.assumptions = []
        self.t0 = time.time()
        self.extra_obl = []       # filled by custom steps: (name, ok/None, detail)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def add(self, *a, **k):
        self.jobs.append(Job(*a, **k))

    def known(self):
        out = {}
        p = os.path.join(VERIF, 'known_findings.jsonl')
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if not l:
                    continue
                d = json.loads(l)
                if d.get('status') == 'known' and d['property'] == self.pid:
                    for k in d['keys']:
                        out[k] = d
        return out

    def run(self):
        global JOBS, SEED, VMS
        SEED = self.seed
        only = os.environ.get('VP_ONLY')
        if only:
            self.jobs = [j for j in self.jobs if only in j.key]
        cfgs = []
        for j in self.jobs:
            if j.cfg not in cfgs:
                cfgs.append(j.cfg)
        from concurrent.futures import ThreadPoolExecutor
        try:
            with ThreadPoolExecutor(len(cfgs)) as ex:
                built = dict(zip(cfgs, ex.map(lambda c: B.build(self.mods, c), cfgs)))
        except (B.BuildError, subprocess.TimeoutExpired) as e:
            print(e)
            print('ERROR property=%s build failed' % self.pid)
            self.evidence([], 0, 0, 'build failed', {}, [])
            return 2
        tb = time.time() - self.t0
        VMS = {}
        for c in cfgs:
            VMS[c] = VM(built[c][0])
            install(VMS[c])
        self.bins = {c: built[c][1] for c in cfgs}
        JOBS = self.jobs
        order = sorted(range(len(JOBS)), key=lambda i: -JOBS[i].weight)
        results = []
        nproc = min(8, max(1, len(JOBS)))
        budget = float(os.environ.get('VP_BUDGET', '780' if not self.thorough else '7200'))
        if os.environ.get('VP_SERIAL'):
            for i in order:
                results.append(explore(i))
        else:
            ctx = multiprocessing.get_context('fork')
            with ctx.Pool(nproc) as pool:
                it = pool.imap_unordered(explore, order, chunksize=1)
                try:
                    for _ in order:
                        left = budget - (time.time() - self.t0)
                        results.append(it.next(timeout=max(1, left)))
                except multiprocessing.TimeoutError:
                    pool.terminate()
                    done = {r['idx'] for r in results}
                    for i in order:
                        if i not in done:
                            results.append({'idx': i, 'key': JOBS[i].key, 'err': 'time budget exhausted', 'paths': 0, 'instr': 0, 'queries': 0, 'smt': 0, 'ztime': 0,
                                            'fails': [], 'undecided': [], 'outcomes': {}, 'val': None, 'worst': 0, 'covered': [], 'forms': 0, 'stubs': [], 'time': 0})
        if os.environ.get('VP_V'):
            for r in sorted(results, key=lambda r: r['time'])[-int(os.environ['VP_V']):]:
                print('  job %-50s %6.2fs paths %d smt %d ztime %.2f worst %.3g %s' % (r['key'], r['time'], r['paths'], r['smt'], r['ztime'], r['worst'], r['err'] or ''))
        if os.environ.get('VP_ALL'):
            for r in results:
                if r['fails']:
                    print('  fail %s: %s' % (r['key'], r['fails'][0][0]))
        nval, mism = self.validate(results)
        viol, known, unrepro = self.confirm(results)
        errs = [(r['key'], r['err']) for r in results if r['err']]
        und = [(r['key'], u) for r in results for u in r['undecided']]
        for k, e in errs[:10]:
            print('ERROR job %s: %s' % (k, e))
        for k, e in und[:10]:
            print('UNDECIDED job %s: %s' % (k, e))
        for m in mism[:5]:
            print('ERROR translator mismatch: %s' % (m,))
        for k, w in unrepro[:5]:
            print('ERROR counterexample of %s not reproduced natively: %s' % (k, w))
        self.evidence(results, nval, len(viol), None, built, known, tb, len(und))
        for k, what in known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
        for k, what, path in viol:
            print('%s: %s' % (k, what))
        for k, what, path in viol:
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        if viol:
            return 1
        if errs or mism or und or unrepro:
            return 2
        tot = sum(r['smt'] for r in results)
        print('property %s held: %d jobs, %d paths, %d solver queries (%.1fs), %d validated native traces, %.1fs' % (
            self.pid, len(results), sum(r['paths'] for r in results), tot, sum(r['ztime'] for r in results), nval, time.time() - self.t0))
        return 0

    def validate(self, results):
        """bit-exact comparison of the executor with the native build on concrete inputs"""
        by = {}
        for r in results:
            if r['val'] is not None and r['val']['outcome'] == 'ok':
                j = self.jobs[r['idx']]
                by.setdefault((j.cfg, tuple(sorted(j.env.items()))), []).append((j, r['val']))
        n = 0
        mism = []
        for (cfg, env), L in by.items():
            for a in range(0, len(L), 200):
                part = L[a:a + 200]
                text = ''.join(script(j, v['ins'], v['uins'], v['scheds']) for j, v in part)
                e = dict(os.environ)
                e.update(dict(env))
                try:
                    r = subprocess.run([self.bins[cfg]], input=text, capture_output=True, text=True, timeout=300, env=e)
                except subprocess.TimeoutExpired:
                    mism.append('native batch timed out')
                    continue
                blocks = []
                cur = []
                for o in parse_out(r.stdout):
                    if o[0] == 'E':
                        blocks.append(cur)
                        cur = []
                    else:
                        cur.append(o)
                for (j, v), b in zip(part, blocks):
                    if len(b) != len(v['outs']) or not all(same_bits(x, y) for x, y in zip(b, v['outs'])):
                        k = next((i for i, (x, y) in enumerate(zip(b, v['outs'])) if not same_bits(x, y)), -1)
                        mism.append('%s: output %d native %r executor %r' % (j.key, k, b[k:k + 1], v['outs'][k:k + 1]))
                    else:
                        n += 1
                if len(blocks) < len(part):
                    mism.append('%s: native run ended early: %s' % (part[len(blocks)][0].key, (r.stdout[-200:] + r.stderr[-200:])))
        return n, mism

    def confirm(self, results):
        known_keys = self.known()
        viol, known, unrepro = [], [], []
        rel = {}
        seen_known = set()
        n = more = 0
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        for r in sorted(results, key=lambda r: r['idx']):
            job = self.jobs[r['idx']]
            if not r['fails']:
                continue
            if n >= 12 and job.key not in known_keys:
                more += 1          # enough confirmed violations; the rest is not replayed
                continue
            confirmed = None
            tried = 0
            for what, wit in r['fails']:
                if wit is None:
                    continue
                tried += 1
                text = script(job, wit['ins'], wit['uins'], wit['scheds'])
                bins = [('dev', self.bins[job.cfg])]
                oc, de, outs = native(bins[0][1], text, job.env, timeout=10)
                P = PathView(job, False, outs, oc, de, len(wit['ins']), None, [x for _, x in wit['ins']], wit['uins'], wit['scheds'])
                run_spec(P)
                if not P.fail and 'undefined behaviour' in what:
                    oc2, de2, _ = native(bins[0][1], text, job.env, timeout=120, wrap=('valgrind', '-q', '--error-exitcode=9'))
                    if oc2 == 'crash' and 'status 9' in de2:
                        P.fail.append(('valgrind: ' + de2, None))
                if P.fail:
                    confirmed = (what, wit, P.fail, oc, de, outs, text)
                    break
            if confirmed is None and tried:
                # the solver abstracts non-polynomial functions: look for concrete inputs near its counterexample
                what, wit = next(x for x in r['fails'] if x[1] is not None)
                rng = random.Random(r['key'])
                for _ in range(60):
                    ins = []
                    for i, (p, x) in enumerate(wit['ins']):
                        b = job.boxof(i)
                        if type(b) is tuple and b[0] != b[1]:
                            x = rng.choice((x, rng.uniform(b[0], b[1]), rng.uniform(b[0], b[1])))
                            x = rf(x) if p == 32 else x
                        ins.append((p, x))
                    text = script(job, ins, wit['uins'], wit['scheds'])
                    oc, de, outs = native(self.bins[job.cfg], text, job.env, timeout=10)
                    P = PathView(job, False, outs, oc, de, len(ins), None, [x for _, x in ins], wit['uins'], wit['scheds'])
                    run_spec(P)
                    if P.fail:
                        confirmed = (what, dict(wit, ins=ins), P.fail, oc, de, outs, text)
                        break
            if confirmed is None:
                unrepro.append((r['key'], r['fails'][0][0]))
                continue
            if job.key in known_keys:
                d = known_keys[job.key]
                if d['what'] not in seen_known:
                    seen_known.add(d['what'])
                    known.append((job.key, d['what']))
                continue
            n += 1
            what, wit, fails, oc, de, outs, text = confirmed
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, '%s-%d.json' % (self.pid, n))
            json.dump({'property': self.pid, 'job': job.key, 'config': job.cfg, 'features': B.CONFIGS[job.cfg][0], 'case': job.case, 'args': job.args,
                       'found_by_solver': what, 'native_result': [f[0] for f in fails[:5]], 'outcome': oc, 'detail': de,
                       'inputs': [x for _, x in wit['ins']], 'ints': wit['uins'], 'schedule': wit['scheds'], 'env': job.env,
                       'returned': [list(o) for o in outs[:200]],
                       'how_to_replay': 'printf %%b %r | %s' % (text.replace('\n', '\\n'), os.path.relpath(self.bins[job.cfg], VERIF))}, open(path, 'w'), indent=1)
            viol.append((job.key, '%s | native: %s' % (what, fails[0][0]), path))
        if more:
            print('%d further failing jobs not replayed' % more)
        return viol, known, unrepro

    def evidence(self, results, nval, nviol, note, built, known, tb=0.0, nund=0):
        cov = set()
        for r in results:
            cov.update(r['covered'])
        kof = sorted(x for x in cov if 'kofft' in x)
        samples = []
        for r in results[:6]:
            j = self.jobs[r['idx']]
            samples.append({'job': j.key, 'case': j.case, 'args': j.args, 'paths': r['paths'], 'outcomes': r['outcomes'], 'queries': r['smt'],
                            'largest_deviation_over_tolerance': round(r['worst'], 4)})
        d = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
             'coverage': {'states': sum(r['paths'] for r in results), 'transitions': sum(r['instr'] for r in results),
                          'traces_validated_against_impl': nval, 'samples': samples or [{'note': note}],
                          'states_are': 'symbolic paths, each standing for every input value of its region; transitions: IR instructions executed symbolically',
                          'jobs': len(results), 'solver_queries': sum(r['smt'] for r in results), 'assertions_decided': sum(r['queries'] for r in results),
                          'undecided': nund,
                          'solver': 'z3 %s' % z3.get_version_string(), 'solver_time_s': round(sum(r['ztime'] for r in results), 2),
                          'rounding_forms_checked_against_native_values': sum(r['forms'] for r in results),
                          'configurations': sorted({self.jobs[r['idx']].cfg + ': ' + ' '.join(B.CONFIGS[self.jobs[r['idx']].cfg][0]) for r in results}),
                          'functions_encoded': kof, 'functions_encoded_total': len(cov),
                          'models_used_for_precompiled_code': sorted({s for r in results for s in r['stubs']}),
                          'bounds': self.bounds, 'build_s': round(tb, 1),
                          'known_findings_seen': [k for k, _ in known]},
             'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': nviol}
        if note:
            d['coverage']['note'] = note
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(d, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
