import itertools
from checks.realspec import *

KINDS = {1: 'index', 2: 'identify', 3: 'rewrite', 4: 'remove', 5: 'directory'}
PATHS = [('d', 'a'), ('e', 'a'), ('d', 'b'), ('d', None), ('e', None), ('e', None)]    # None: a name that is not UTF-8


def spec(np, base, hist, lens, pads):
    """replays the documented lookup rules on the solver's files"""
    def f(P):
        pos = [0]

        def content(i):
            n = lens[i % 2]
            c = (pads[i % 2], [z3.Extract(7, 0, P.ubv(pos[0] + k)) for k in range(n)])
            pos[0] += n
            return c

        def same(a, b):
            a, b = [[0] * p + t for p, t in (a, b)]
            if len(a) != len(b):
                return z3.BoolVal(False)
            d = [(x, y) for x, y in zip(a, b) if type(x) is not int or type(y) is not int]
            return z3.And(*[x == y for x, y in d]) if d else z3.BoolVal(True)
        files = [content(i) for i in range(np)]
        names, hashes = [], []             # (condition, key, id), later entries win
        for step, k in enumerate(hist):
            i = P.ubv(pos[0])
            if P.sym:
                s = [j for j in range(np) if P.vm.zcheck(i == j) == z3.sat]
                P.queries += np
                if len(s) != 1:
                    raise Unsupported('the file of a step is open')
                i = s[0]
            else:
                i = P.uins[pos[0]]
            pos[0] += 1
            if k == 3:
                files[i] = content(i)
            elif k == 4:
                files[i] = None
            elif k == 5:
                files[i] = 'dir'
            else:
                got = P.rawint()
                got = got.e if type(got) is SymI else z3.BitVecVal(got, 64)
                num = lambda v: z3.BitVecVal(v, 64)
                myid = num(1 | 2 << i)
                name = PATHS[base + i][1]
                bad = not isinstance(files[i], tuple)
                new = num(0) if bad else myid
                known = z3.BoolVal(False)
                if k == 2:
                    if not bad:
                        for c, key, v in hashes:
                            new = z3.If(z3.And(c, same(key, files[i])), v, new)
                            known = z3.Or(known, z3.And(c, same(key, files[i])))
                    for c, key, v in names:
                        if name is not None and key == name:
                            new = z3.If(c, v, new)
                            known = z3.Or(known, c)
                P.must(got == new, 'song found by step %d (%s)' % (step + 1, KINDS[k]))
                if not bad:
                    if name is not None:
                        names.append((z3.Not(known), name, myid))
                    hashes.append((z3.Not(known), files[i], myid))
    return f


def many_spec(m):
    def f(P):
        for i in range(m):
            P.expect_int(1 | 2 << i, 'song %d of %d when added' % (i, m))
        for i in range(m):
            P.expect_int(1 | 2 << i, 'a file with the content of song %d of %d' % (i, m))
        b = P.ubv(0)
        got = P.rawint()
        got = got.e if type(got) is SymI else z3.BitVecVal(got, 64)
        ref = z3.BitVecVal(1, 64)
        for i in range(m):
            ref = z3.If(z3.Extract(7, 0, b) == i, z3.BitVecVal(1 | 2 << i, 64), ref)
        P.must(got == ref, 'a file with any content among %d songs' % m)
        for i in range(m):
            P.expect_int(1 | 2 << i, 'song %d of %d by its name' % (i, m))
    return f


def build(ck):
    for m in (1, 5, 16, 40) if not ck.thorough else (1, 2, 5, 9, 16, 33, 40, 60):
        for how in (0, 1, 2):
            ck.add('def', 'imany', (m, how), many_spec(m), ints=[(0, 255)], weight=m * 5, key='%d songs, %s' % (m, ('indexed', 'identified', 'both')[how]))
    ck.bounds.append('indexes of up to 40 songs with fixed distinct contents, all asked for by content and by name, and a further file with any first byte')
    top = ck.thorough

    def job(np, hist, base=0, lens=(1, 1), pads=(0, 0), what=''):
        code = sum(k * 8 ** i for i, k in enumerate(hist))
        ints = [(0, 255)] * sum(lens[i % 2] for i in range(np))
        for k in hist:
            ints.append((0, np - 1))
            if k == 3:
                if lens[0] != lens[1]:
                    raise ValueError('rewriting needs equal lengths')
                ints += [(0, 255)] * lens[0]
        ck.add('def', 'index', (np + 8 * base, code, lens[0] + 8 * lens[1], pads[0] + 65536 * pads[1]), spec(np, base, hist, lens, pads), ints=ints, max_paths=60000,
               weight=3.0 ** len(hist) * np, key='%s over %d files%s' % (', '.join(KINDS[k] for k in hist), np, what))
    K = (1, 2, 3, 4, 5)
    for n in (1, 2, 3):
        for h in itertools.product(*[K] * (n - 1) + [(1, 2)]):
            if not set(h[:-1]) & {1, 2} and n > 2:
                continue
            job(3, h)
    for h in itertools.product(*[K if top else (1, 2)] + [K if top else (2, 3)] + [(1, 2, 3) if top else (1, 2)] + [(1, 2) if top else (2,)]):
        if set(h[:-1]) & {1, 2}:
            job(3, h)
    if top:
        for h in itertools.product((1, 2), (1, 2, 3), (2, 3, 4), (1, 3), (2,)):
            job(2, h)
    for h in [(1, 2), (2, 2)] + list(itertools.product((1, 2), (1, 2), (2,))):
        job(3, h, base=3, what=' whose names are not UTF-8')
        if len(h) < 3:
            job(3, h, base=2, what=', two whose names are not UTF-8')
        if top:
            job(5, h, what=' of all kinds')
    for h in ((1, 2), (2, 2), (1, 2, 2)):
        job(2, h, lens=(0, 0), what=', both empty')
        job(2, h, lens=(0, 1), what=', one empty', base=1)
        for lens, pads in (((1, 2), (1, 0)), ((3, 3), (8190, 8190)), ((1, 1), (8192, 8192)), ((1, 2), (8192, 8191)), ((0, 1), (8192, 8191)), ((0, 0), (8192, 16384)), ((1, 1), (16384, 16384)), ((2, 2), (24575, 24575)), ((2, 2), (8191, 16383)), ((1, 1), (65000, 65000)), ((1, 1), (4096, 4096)), ((7, 7), (0, 0))):
            job(2, h, base=1, lens=lens, pads=pads, what=' of %s free bytes after %s zeros' % (lens, pads))
    ck.bounds.append('histories of up to 4 steps (index, identify, rewrite, remove, replace by a directory) over up to 3 files chosen by the solver (same and different names, names that are not UTF-8), every content of 1 byte; every content with up to 7 free bytes before, at and after the 8192-byte read boundaries, and different lengths, for shorter histories over two files')
    ck.assumptions.append('BLAKE3 has no collisions; reads return full blocks (short reads are not replayable on a real file system); concurrent changes of a file during one call are outside')


if __name__ == '__main__':
    ck = Check('C34', ['idx'])
    build(ck)
    sys.exit(ck.run())
