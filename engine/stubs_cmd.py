"""std::process::Command recorded instead of executed: program, arguments and environment as given by the code."""
from .stubs import stub
from .sym import Unsupported
from .stubs_fmt import bytes_of

MAGIC = 0x4b0ff7 << 40
CMDS = []


def rec(vm, p, n):
    """the record a (possibly moved) Command, or an iterator over it, belongs to"""
    for o in range(0, n, 8):
        v = vm.ldi(p + o, 8)
        if type(v) is int and v >> 40 == MAGIC >> 40:
            return CMDS[v & 0xffffffff]
    raise Unsupported('Command not seen before')


def keep(vm, p, n):
    b = bytes_of(vm, p, n)
    q = vm.alloc(max(1, n), 'text')
    for i, x in enumerate(b):
        vm.st(q + i, 1, x)
    return (q, n)


@stub(r'3sys7process4unix\w*7Command3new$')
def _new(vm, name):
    def f(ret, p, n):
        CMDS.append({'prog': keep(vm, p, n), 'args': [], 'env': {}, 'it': 0, 'ei': 0, 'dir': (0, 0)})
        for o in range(0, 200, 8):
            vm.st(ret + o, 8, MAGIC | (len(CMDS) - 1))
    return f


@stub(r'3sys7process4unix\w*7Command3arg$')
def _arg(vm, name):
    return lambda c, p, n: rec(vm, c, 200)['args'].append(keep(vm, p, n))


@stub(r'3sys7process4unix\w*7Command3cwd$')
def _cwd(vm, name):
    return lambda c, p, n: rec(vm, c, 200).__setitem__('dir', keep(vm, p, n))


def envop(what):
    def make(vm, name):
        def f(c, kp, kn, vp=0, vn=0):
            k = bytes_of(vm, kp, kn)
            if any(type(b) is not int for b in k):
                raise Unsupported('name of an environment variable')
            rec(vm, c, 32)['env'][bytes(k)] = (keep(vm, kp, kn), keep(vm, vp, vn) if what else (0, 0))
        return f
    return make


stub(r'3sys7process3env\w*10CommandEnv3set$')(envop(True))
stub(r'3sys7process3env\w*10CommandEnv6remove$')(envop(False))


@stub(r'3std7process\w*7Command11get_program$')
def _prog(vm, name):
    return lambda c: rec(vm, c, 200)['prog']


@stub(r'3std7process\w*7Command15get_current_dir$')
def _dir(vm, name):
    return lambda c: rec(vm, c, 200)['dir']


@stub(r'3std7process\w*7Command8get_args$')
def _args(vm, name):
    def f(c):
        rec(vm, c, 200)['it'] = 0
        return (vm.ldi(c, 8), 0)
    return f


@stub(r'3std7process\w*11CommandArgs\w*8Iterator4next$')
def _anext(vm, name):
    def f(it):
        r = rec(vm, it, 16)
        r['it'] += 1
        return r['args'][r['it'] - 1] if r['it'] <= len(r['args']) else (0, 0)
    return f


@stub(r'3std7process\w*11Command(Args|Envs)\w*8Iterator9size_hint$')
def _hint(vm, name):
    return lambda ret, it: [vm.st(ret + o, 8, 0) for o in (0, 8, 16)]


@stub(r'3std7process\w*11CommandEnvs\w*8Iterator4next$')
def _enext(vm, name):
    def f(ret, it):
        r = rec(vm, it, 32)
        es = [r['env'][k] for k in sorted(r['env'])]
        i = r['ei']
        r['ei'] += 1
        k, v = es[i] if i < len(es) else ((0, 0), (0, 0))
        for o, x in enumerate(k + v):
            vm.st(ret + 8 * o, 8, x)
    return f
