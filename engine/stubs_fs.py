"""A virtual file system, path parsing and BLAKE3 as an injective function of the content."""
import hashlib
import z3
from .sym import SymI, mkb, Unsupported
from .stubs import stub

OSERR = lambda code: (code << 32) | 2
U64 = (1 << 64) - 1


def rd(vm, p, n):
    return bytes(vm.concretize(b) if type(b) is SymI else b for b in (vm.ldi(p + i, 1) for i in range(n)))


def rdl(vm, p, n):
    """the bytes at p, symbolic ones as they are"""
    o, off = vm.obj_at(p, n, 'read') if n else (None, 0)
    out, k = [], 0
    while k < n:
        c = o.cells.get(off + k)
        if c is not None and c[0] <= n - k and type(c[1]) is int:
            out += (c[1] & ((1 << (8 * c[0])) - 1)).to_bytes(c[0], 'little')
            k += c[0]
        else:
            out.append(vm.ldi(p + k, 1))
            k += 1
    return tuple(out)


def reset(vm):
    vm.fs, vm.fds, vm.hashers, vm.digests = {}, {}, [()], []


def install(vm):
    def write(p, n, pad, d, dn):
        vm.fs[rd(vm, p, n)] = (pad, [vm.ldi(d + i, 1) for i in range(dn)])

    def gone(p, n):
        vm.fs.pop(rd(vm, p, n), None)

    def isdir(p, n):
        vm.fs[rd(vm, p, n)] = None
    vm.ext['vp_fs'] = lambda: reset(vm)
    vm.ext['vp_write'] = write
    vm.ext['vp_gone'] = gone
    vm.ext['vp_dir'] = isdir
    vm.ext['close'] = lambda fd: 0


@stub(r'OpenOptions5__open$')
def _open(vm, name):
    def f(ret, opts, p, n):
        path = rd(vm, p, n)
        if path not in vm.fs:
            vm.st(ret, 4, 1)
            vm.st(ret + 8, 8, OSERR(2))
            return
        fd = 3 + len(vm.fds)
        vm.fds[fd] = [vm.fs[path], 0]
        vm.st(ret, 4, 0)
        vm.st(ret + 4, 4, fd)
    return f


def take(vm, file, buf, n):
    """bytes delivered by one read of up to n bytes, or None for an error"""
    fd = vm.fds[vm.ldi(file, 4)]
    if fd[0] is None:
        return None
    (pad, data), pos = fd
    k = min(n, pad + len(data) - pos)
    z = max(0, min(k, pad - pos))
    if z:
        vm.memset(buf, 0, z)
    for i in range(z, k):
        vm.st(buf + i, 1, data[pos + i - pad])
    fd[1] += k
    return k


@stub(r'2fs\w*4File\w*4Read4read$')
def _read(vm, name):
    def f(file, buf, n):
        k = take(vm, file, buf, n)
        return (1, OSERR(21)) if k is None else (0, k)
    return f


@stub(r'2fs\w*4File\w*4Read8read_buf$')
def _readbuf(vm, name):
    def f(file, b):
        p, cap, filled = vm.ldi(b, 8), vm.ldi(b + 8, 8), vm.ldi(b + 16, 8)
        k = take(vm, file, p + filled, cap - filled)
        if k is None:
            return OSERR(21)
        vm.st(b + 16, 8, filled + k)
        return 0
    return f


@stub(r'6blake3\w*6Hasher3new$')
def _hnew(vm, name):
    return lambda ret: vm.st(ret, 8, 0)


@stub(r'6blake3\w*6Hasher5reset$')
def _hreset(vm, name):
    def f(h):
        vm.st(h, 8, 0)
        return h
    return f


@stub(r'6blake3\w*6Hasher6update$')
def _hupdate(vm, name):
    def f(h, p, n):
        vm.hashers.append(vm.hashers[vm.ldi(h, 8)] + rdl(vm, p, n))
        vm.st(h, 8, len(vm.hashers) - 1)
        return h
    return f


def digest(vm, data):
    k = None
    for i, d in enumerate(vm.digests):
        if len(d) != len(data):
            continue
        c, same = [], True
        for a, b in zip(d, data):
            if type(a) is not SymI and type(b) is not SymI:
                if a != b:
                    same = False
                    break
            elif a is not b:
                ex = lambda v: (v.e if v.e.size() == 8 else z3.Extract(7, 0, v.e)) if type(v) is SymI else z3.BitVecVal(v, 8)
                c.append(ex(a) == ex(b))
        if same and (not c or vm.truth(mkb(z3.And(*c)))):
            k = i
            break
    if k is None:
        k = len(vm.digests)
        vm.digests.append(data)
    return hashlib.sha256(b'content %d' % k).digest()


@stub(r'6blake3\w*6Hasher8finalize$')
def _hfinal(vm, name):
    def f(ret, h):
        for i, b in enumerate(digest(vm, vm.hashers[vm.ldi(h, 8)])):
            vm.st(ret + i, 1, b)
    return f


@stub(r'6blake34hash$')
def _hash(vm, name):
    def f(ret, p, n):
        for i, b in enumerate(digest(vm, rdl(vm, p, n))):
            vm.st(ret + i, 1, b)
    return f


# ---------------------------------------------------------------------------------------------- paths
def parse(b):
    """components of a path as (kind, start, end): kinds 6 root, 7 '.', 8 '..', 9 name"""
    out, i = [], 0
    if b[:1] == b'/':
        out.append((6, 0, 1))
    while i < len(b):
        if b[i:i + 1] == b'/':
            i += 1
            continue
        j = b.find(b'/', i)
        j = len(b) if j < 0 else j
        w = b[i:j]
        if w == b'..':
            out.append((8, i, j))
        elif w == b'.':
            if not out:
                out.append((7, i, j))
        else:
            out.append((9, i, j))
        i = j
    return out


@stub(r'4path\w*4Path9file_name$')
def _fname(vm, name):
    def f(p, n):
        c = parse(rd(vm, p, n))
        return (p + c[-1][1], c[-1][2] - c[-1][1]) if c and c[-1][0] == 9 else (0, 0)
    return f


@stub(r'4path\w*4Path9file_stem$')
def _fstem(vm, name):
    def f(p, n):
        b = rd(vm, p, n)
        c = parse(b)
        if not c or c[-1][0] != 9:
            return (0, 0)
        s, e = c[-1][1:]
        d = b.rfind(b'.', s, e)
        return (p + s, (e if d <= s else d) - s)
    return f


@stub(r'4path\w*4Path6parent$')
def _fparent(vm, name):
    def f(p, n):
        c = parse(rd(vm, p, n))
        if not c or c[-1][0] == 6:
            return (0, 0)
        return (p, c[-2][2] if len(c) > 1 else 0)
    return f


@stub(r'4path\w*4Path11to_path_buf$')
def _topb(vm, name):
    def f(ret, p, n):
        q = vm.alloc(max(1, n), 'heap') if n else 1
        if n:
            vm.memcpy(q, p, n)
        vm.st(ret, 8, n)
        vm.st(ret + 8, 8, q)
        vm.st(ret + 16, 8, n)
    return f


@stub(r'4path\w*4Path10components$')
def _comps(vm, name):
    def f(ret, p, n):
        vm.memset(ret, 0, 64)
        vm.st(ret, 8, p)
        vm.st(ret + 8, 8, n)
        vm.st(ret + 16, 1, 255)
        vm.st(ret + 56, 1, 1)
        vm.st(ret + 57, 1, 2)
        vm.st(ret + 58, 1, 1 if n and rd(vm, p, 1) == b'/' else 0)
    return f


def comp(front):
    def make(vm, name):
        def f(ret, it):
            p, n = vm.ldi(it, 8), vm.ldi(it + 8, 8)
            c = parse(rd(vm, p, n))
            vm.memset(ret, 0, 56)
            if not c:
                vm.st(ret, 1, 255)
                return
            if front:
                raise Unsupported('iteration over the components of a path')
            k, s, e = c[-1]
            vm.st(ret, 1, k)
            vm.st(ret + 8, 8, p + s)
            vm.st(ret + 16, 8, e - s)
            vm.st(it + 8, 8, c[-2][2] if len(c) > 1 else 0)
        return f
    return make


stub(r'4path\w*10Components\w*9next_back$')(comp(False))
stub(r'4path\w*10Components\w*8Iterator4next$')(comp(True))


@stub(r'3str8converts9from_utf8$')
def _utf8(vm, name):
    def f(ret, p, n):
        b = rd(vm, p, n)
        try:
            b.decode()
        except UnicodeDecodeError as e:
            vm.st(ret, 8, 1)
            vm.st(ret + 8, 8, e.start)
            vm.st(ret + 16, 8, 0)
            return
        vm.st(ret, 8, 0)
        vm.st(ret + 8, 8, p)
        vm.st(ret + 16, 8, n)
    return f


def vec(vm, ret, data):
    n = len(data)
    q = vm.alloc(n, 'heap') if n else 1
    for i, b in enumerate(data):
        vm.st(q + i, 1, b)
    vm.st(ret, 8, n)
    vm.st(ret + 8, 8, q)
    vm.st(ret + 16, 8, n)


@stub(r'6String15from_utf8_lossy$')
def _lossy(vm, name):
    def f(ret, p, n):
        b = rd(vm, p, n)
        t = b.decode(errors='replace').encode()
        if t == b:
            vm.st(ret, 8, U64)
            vm.st(ret + 8, 8, p)
            vm.st(ret + 16, 8, n)
        else:
            vec(vm, ret, t)
    return f


@stub(r'2fs4read5inner$')
def _fsread(vm, name):
    def f(ret, p, n):
        path = rd(vm, p, n)
        if vm.fs.get(path) is None:
            vm.st(ret, 8, U64)
            vm.st(ret + 8, 8, OSERR(21 if path in vm.fs else 2))
            return
        pad, data = vm.fs[path]
        vec(vm, ret, [0] * pad + data)
    return f


@stub(r'2fs\w*4File\w*4Read11read_to_end$')
def _readend(vm, name):
    def f(file, v):
        fd = vm.fds[vm.ldi(file, 4)]
        if fd[0] is None:
            return (1, OSERR(21))
        (pad, data), pos = fd
        new = ([0] * pad + data)[pos:]
        fd[1] = pad + len(data)
        n = vm.ldi(v + 16, 8)
        old = list(rdl(vm, vm.ldi(v + 8, 8), n))
        if new:
            vec(vm, v, old + new)
        return (0, len(new))
    return f
