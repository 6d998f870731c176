"""Models for environment access, one-time initialisation and similar precompiled std pieces."""
from .stubs import stub


@stub(r'once5futex.*4Once4call$')
def _once(vm, name):
    def f(self_ptr, ignore, data, vtable, *loc):
        st = vm.ldi(self_ptr, 4)
        if st == 0:          # COMPLETE
            return
        s = vm.alloc(16, 'OnceState')
        vm.memset(s, 0, 16)
        vm.icall(vm.ldi(vtable + 32, 8), data, s)
        vm.st(self_ptr, 4, 0)
    return f


@stub(r'env3var5inner$')
def _envvar(vm, name):
    def f(ret, kp, kn):
        key = bytes(vm.ldi(kp + i, 1) for i in range(kn)).decode()
        v = vm.env.get(key)
        vm.env_read.add(key)
        if v is None:
            vm.st(ret, 8, 1)
            vm.st(ret + 8, 8, (1 << 64) - 1)     # niche of VarError::NotPresent
            return
        b = v.encode()
        p = vm.alloc(max(1, len(b)), 'env')
        for i, x in enumerate(b):
            vm.st(p + i, 1, x)
        vm.st(ret, 8, 0)
        vm.st(ret + 8, 8, max(1, len(b)))
        vm.st(ret + 16, 8, p)
        vm.st(ret + 24, 8, len(b))
    return f


@stub(r'time.*Instant3now$')
def _now(vm, name):
    return lambda *a: (1000, 0)


@stub(r'time.*Instant7elapsed$')
def _elapsed(vm, name):
    return lambda *a: (0, 1000)


@stub(r'time.*Instant14duration_since$')
def _since(vm, name):
    return lambda *a: (0, 1000)
