"""Text formatting (format!, write!, to_string) of strings, characters and integers; the template encoding of fmt::Arguments."""
import re
from .stubs import stub
import z3
from .sym import Unsupported, mki


def bytes_of(vm, p, n):
    n = vm.concretize(n)
    return [vm.ldi(p + i, 1) for i in range(n)]


def string(vm, ret, data):
    n = len(data)
    q = vm.alloc(n, 'heap') if n else 1
    for i, b in enumerate(data):
        vm.st(q + i, 1, b)
    vm.st(ret, 8, n)
    vm.st(ret + 8, 8, q)
    vm.st(ret + 16, 8, n)


def render(vm, tpl, args):
    """the bytes of fmt::Arguments { template, args }"""
    out = []
    if args & 1:
        return bytes_of(vm, tpl, args >> 1)
    k = 0
    while 1:
        n = vm.ldi(tpl, 1)
        tpl += 1
        if n == 0:
            return out
        if n <= 0x80:
            if n == 0x80:
                n = vm.ldi(tpl, 2)
                tpl += 2
            out += bytes_of(vm, tpl, n)
            tpl += n
        elif n == 0xC0:
            fm = vm.alloc(24, 'formatter')
            vm.sinks[fm >> 40] = out
            vm.icall(vm.ldi(args + 16 * k + 8, 8), vm.ldi(args + 16 * k, 8), fm)
            del vm.sinks[fm >> 40]
            k += 1
        else:
            raise Unsupported('formatting with options')


def sink(vm, fm):
    s = vm.sinks.get(fm >> 40)
    if s is None:
        raise Unsupported('formatter of the standard library')
    return s


@stub(r'5alloc3fmt6format12format_inner$')
def _format(vm, name):
    return lambda ret, tpl, args: string(vm, ret, render(vm, tpl, args))


@stub(r'4core3fmt5write$')
def _write(vm, name):
    def f(data, vtable, tpl, args):
        out = render(vm, tpl, args)
        q = vm.alloc(max(1, len(out)), 'text')
        for i, b in enumerate(out):
            vm.st(q + i, 1, b)
        return vm.icall(vm.ldi(vtable + 24, 8), data, q, len(out))
    return f


@stub(r'4core3fmteNt\w*7Display3fmt$')
def _str(vm, name):
    def f(p, n, fm):
        sink(vm, fm).extend(bytes_of(vm, p, n))
        return 0
    return f


@stub(r'4core3fmt\w*9Formatter(3pad|\w*9write_str)$')
def _wstr(vm, name):
    def f(fm, p, n):
        sink(vm, fm).extend(bytes_of(vm, p, n))
        return 0
    return f


@stub(r'5alloc6string\w*6String\w*7Display3fmt$')
def _string(vm, name):
    def f(s, fm):
        sink(vm, fm).extend(bytes_of(vm, vm.ldi(s + 8, 8), vm.ldi(s + 16, 8)))
        return 0
    return f


@stub(r'4core3fmtcNt\w*7Display3fmt$')
def _char(vm, name):
    def f(p, fm):
        c = vm.concretize(vm.ldi(p, 4))
        sink(vm, fm).extend(chr(c).encode())
        return 0
    return f


@stub(r'4core3fmt3num3imp[jymthixlsa]Nt\w*7Display3fmt$')
def _int(vm, name):
    t = re.search(r'3num3imp([jymthixlsa])Nt', name).group(1)
    sz = {'j': 8, 'y': 8, 'm': 4, 't': 2, 'h': 1, 'i': 8, 'x': 8, 'l': 4, 's': 2, 'a': 1}[t]

    def f(p, fm):
        v = vm.concretize(vm.ldi(p, sz))
        if t in 'ixlsa' and v >> (8 * sz - 1):
            v -= 1 << (8 * sz)
        sink(vm, fm).extend(str(v).encode())
        return 0
    return f


@stub(r'5alloc6string\w*6String\w*5clone5Clone5clone$')
def _clone(vm, name):
    return lambda ret, s: string(vm, ret, bytes_of(vm, vm.ldi(s + 8, 8), vm.ldi(s + 16, 8)))


def ascii(vm, data, what):
    for b in data:
        if type(b) is not int:
            if vm.truth(b & 0x80 != 0):
                raise Unsupported(what + ' of text beyond ASCII')
        elif b & 0x80:
            raise Unsupported(what + ' of text beyond ASCII')


@stub(r'5alloc3str\w*12to_(low|upp)ercase$|5alloc3str\w*18to_ascii_(low|upp)ercase$')
def _case(vm, name):
    lo = 'lowercase' in name
    a, z, d = (65, 90, 32) if lo else (97, 122, -32)

    def f(ret, p, n):
        out = []
        for b in bytes_of(vm, p, n):
            if type(b) is int:
                if b & 0x80 and 'ascii' not in name:
                    raise Unsupported('case of text beyond ASCII')
                out.append(b + d if a <= b <= z else b)
            else:
                if 'ascii' not in name:
                    ascii(vm, [b], 'case')
                e = b.e
                out.append(mki(z3.If(z3.And(z3.UGE(e, a), z3.ULE(e, z)), e + d, e)))
        string(vm, ret, out)
    return f


@stub(r'7raw_vecINt\w*6RawVech\w*8grow_one')
def _grow_byte(vm, name):
    def f(v, *a):
        cap, ptr = vm.ldi(v, 8), vm.ldi(v + 8, 8)
        new = max(8, 2 * cap)
        q = vm.alloc(new, 'heap')
        if cap:
            vm.memcpy(q, ptr, cap)
            del vm.objs[ptr >> 40]
        vm.st(v, 8, new)
        vm.st(v + 8, 8, q)
    return f


@stub(r'^hypotf?$')
def _hypot(vm, name):
    G = vm.G
    if name == 'hypot':
        return lambda a, b: G['m_sqrt'](64, G['fadd64'](G['fmul64'](a, a), G['fmul64'](b, b)))

    def f(a, b):
        a, b = G['fpext'](a), G['fpext'](b)
        return G['fptrunc'](G['m_sqrt'](64, G['fadd64'](G['fmul64'](a, a), G['fmul64'](b, b))))
    return f
