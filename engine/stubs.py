"""Models of the precompiled standard-library functions (no IR available) and of the environment."""
import re
from .sym import Unsupported, Term, TT, SymI, SymB, mkb
import z3

STUBS = []
STUBS_ALWAYS = []


def stub(rx, always=False):
    def d(f):
        (STUBS_ALWAYS if always else STUBS).append((re.compile(rx), f))
        return f
    return d


@stub(r'___rust_alloc$|___rust_alloc_zeroed$')
def _alloc(vm, name):
    zero = 'zeroed' in name

    def f(size, align=1):
        from .vm import AllocFail
        size = vm.concretize(size)
        if size > 1 << 33:
            raise AllocFail('allocation of %d bytes' % size)
        return vm.alloc(size, 'heap', zero)
    return f


@stub(r'___rust_dealloc$')
def _dealloc(vm, name):
    def f(p, size, align=1):
        from .vm import UB
        p = vm.concretize(p)
        o = vm.objs.get(p >> 40)
        if o is None or p & ((1 << 40) - 1):
            raise UB('invalid free of %#x' % p)
        del vm.objs[p >> 40]
    return f


@stub(r'___rust_realloc$')
def _realloc(vm, name):
    def f(p, old, align, new):
        from .vm import AllocFail
        new = vm.concretize(new)
        old = vm.concretize(old)
        if new > 1 << 33:
            raise AllocFail('allocation of %d bytes' % new)
        q = vm.alloc(new, 'heap')
        vm.memcpy(q, p, min(old, new))
        del vm.objs[p >> 40]
        return q
    return f


@stub(r'no_alloc_shim')
def _noop(vm, name):
    return lambda *a: None


@stub(r'hashmap_random_keys')
def _hrk(vm, name):
    return lambda *a: (1, 2)


@stub(r'get_num_cpus|num_cpus\d*3get', always=True)
def _ncpu(vm, name):
    return lambda *a: vm.num_cpus


@stub(r'std_detect6detect5cache21detect_and_initialize')
def _detect(vm, name):
    return lambda *a: 0


@stub(r'^(bcmp|memcmp)$')
def _bcmp(vm, name):
    def f(a, b, n):
        n = vm.concretize(n)
        for i in range(n):
            x = vm.ldi(a + i, 1)
            y = vm.ldi(b + i, 1)
            if type(x) is SymI or type(y) is SymI:
                if name == 'bcmp':
                    # one question about the rest
                    ex = lambda v: v.e if type(v) is SymI else z3.BitVecVal(v, 8)
                    ds = [ex(vm.ldi(a + j, 1)) != ex(vm.ldi(b + j, 1)) for j in range(i, n)]
                    return 1 if vm.truth(mkb(z3.Or(*ds))) else 0
                x, y = vm.concretize(x), vm.concretize(y)
            if x != y:
                if name == 'bcmp':
                    return 1
                return 1 if x > y else 0xffffffff
        return 0
    return f


@stub(r'arcinner_layout_for_value_layout|rcbox_layout_for_value_layout|rc_inner_layout_for_value_layout')
def _arclay(vm, name):
    def f(align, size):
        off = (16 + align - 1) // align * align
        a = max(8, align)
        return (a, (off + size + a - 1) // a * a)
    return f


@stub(r'RawVecNtNt.*6string6String\w*8grow_one')
def _grow_string(vm, name):
    def f(v):
        from .vm import AllocFail
        cap, ptr = vm.ldi(v, 8), vm.ldi(v + 8, 8)
        new = max(4, 2 * cap)
        q = vm.alloc(24 * new, 'heap')
        if cap:
            vm.memcpy(q, ptr, 24 * cap)
            del vm.objs[ptr >> 40]
        vm.st(v, 8, new)
        vm.st(v + 8, 8, q)
    return f
