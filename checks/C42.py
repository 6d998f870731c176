from checks.realspec import *

ANY = (9, 126)


def byte(P, i):
    v = P.uins[i]
    return P.ubv(i)


def has(P, lo, n, word):
    """the text of n bytes starting at integer input lo contains the word"""
    return z3.Or(*[z3.And(*[P.ubv(lo + i + j) == ord(c) for j, c in enumerate(word)]) for i in range(n - len(word) + 1)]) if n >= len(word) else z3.BoolVal(False)


def space(P, i):
    b = P.ubv(i)
    return z3.Or(b == 32, z3.And(z3.UGE(b, 9), z3.ULE(b, 13)))


def settle(P, e):
    """the truth of e on this path (the code has to have looked at it)"""
    if not P.sym:
        return z3.is_true(z3.simplify(e))
    e = z3.simplify(e)
    if z3.is_true(e) or z3.is_false(e):
        return z3.is_true(e)
    t, f = P.vm.zcheck(e), P.vm.zcheck(z3.Not(e))
    P.queries += 2
    if t == z3.sat and f == z3.unsat:
        return True
    if f == z3.sat and t == z3.unsat:
        return False
    return None


def same_text(P, got, want):
    """got: integer outputs, want: bit-vector expressions or characters"""
    if len(got) != len(want):
        return z3.BoolVal(False)
    ex = lambda v: v.e if type(v) is SymI else z3.BitVecVal(v, 64)
    return z3.And(*[ex(g) == (z3.BitVecVal(ord(w), 64) if type(w) is str else w) for g, w in zip(got, want)]) if got else z3.BoolVal(True)


def texts(P):
    n = P.int()
    return [P.rawint() for _ in range(n)]


def cfg_spec(la, lf, le):
    def f(P):
        got = [texts(P) for _ in range(P.int())]
        flags = texts(P)
        example = texts(P)
        x = has(P, 0, la, 'x86_64')
        arm = z3.Or(has(P, 0, la, 'aarch64'), has(P, 0, la, 'arm64'))
        a5, a2, ss = [has(P, la, lf, w) for w in ('avx512f', 'avx2', 'sse4_1')]
        n = P.ubv(la + lf + le)
        toks, cur = [], []
        for i in range(la + lf, la + lf + le):
            w = settle(P, space(P, i))
            if w is None:
                raise Unsupported('the code does not distinguish blanks')
            if w:
                toks += [cur] if cur else []
                cur = []
            else:
                cur.append(P.ubv(i))
        toks += [cur] if cur else []
        par = z3.Or(z3.UGT(n, 1), *[same_sym(t, 'parallel') for t in toks])
        for many in (False, True):
            for names, rf, when in ((['x86_64', 'avx512'], '-C target-feature=+avx512f,+fma', z3.And(x, a5)),
                                    (['x86_64', 'avx2'], '-C target-feature=+avx2,+fma', z3.And(x, z3.Not(a5), a2)),
                                    (['x86_64', 'sse'], '', z3.And(x, z3.Not(a5), z3.Not(a2), ss)),
                                    (['x86_64'], '', z3.And(x, z3.Not(a5), z3.Not(a2), z3.Not(ss))),
                                    (['aarch64'], '', z3.And(z3.Not(x), arm)), ([], '', z3.And(z3.Not(x), z3.Not(arm)))):
                want = [list(s) for s in names + (['parallel'] if many else [])] + toks
                ok = z3.And(same_text(P, flags, list(rf)), *([same_text(P, g, w) for g, w in zip(got, want)] if len(got) == len(want) else [z3.BoolVal(False)]))
                P.must(z3.Implies(z3.And(when, z3.UGT(n, 1) if many else z3.ULE(n, 1)), ok), 'features and flags of a host with %s%s' % (names, ', several cores' if many else ''))
        P.must(same_text(P, example, list('parallel_benchmark')) == par, 'example of a parallel configuration')
        P.must(same_text(P, example, list('benchmark')) == z3.Not(par), 'example of a sequential configuration')
    return f


def same_sym(t, word):
    return z3.And(*[b == ord(c) for b, c in zip(t, word)]) if len(t) == len(word) else z3.BoolVal(False)


def arg_spec(ns):
    def f(P):
        k = [n - 1 for n in ns if n]
        if not k:
            P.expect_int(999, 'argument of an empty list')
            return
        want, i = [], 0
        for j, n in enumerate(k):
            want += [' '] if j else []
            want += [P.ubv(i + q) for q in range(n)]
            i += n
        P.must(same_text(P, texts(P), want), 'joined features')
    return f


def lit(s):
    return [(ord(c), ord(c)) for c in s]


def build(ck):
    M = (0, (1 << 64) - 1)
    top = ck.thorough
    jobs = []
    for n in range(0, 11 if top else 10):
        jobs.append(([ANY] * n, lit(''), lit(''), 'any architecture of %d characters' % n))
    for a in ('x86_64', 'amd x86_64', 'aarch64', 'arm64', 'riscv64', 'x86', 'X86_64', ''):
        jobs.append((lit(a), lit(''), lit(''), a))
        for n in (4, 6, 7, 8) + ((9, 10) if top else ()):
            jobs.append((lit(a), [ANY] * n, lit(''), '%s, any flags of %d characters' % (a, n)))
        for fl in ('fpu sse4_1 avx ', 'avx512f avx', 'sse avx2 ', 'avx512 '):
            jobs.append((lit(a), lit(fl) + [ANY] * 3, lit(''), '%s, flags %s and 3 more' % (a, fl)))
            jobs.append((lit(a), [ANY] * 3 + lit(' ' + fl)[:12], lit(''), '%s, 3 characters and flags %s' % (a, fl)))
        jobs.append((lit(a), [ANY] * 2 + lit('x512') + [ANY] * 2 + lit('vx2'), lit(''), '%s, flags ??x512??vx2' % a))
    for a in ('x86_64', 'arm64', ''):
        for n in range(1, 6 if top else 5 if a == 'arm64' else 4):
            jobs.append((lit(a), lit(''), [(9, 122)] * n, '%s, any extra features of %d characters' % (a, n)))
        for e in ('parallel', 'para?lel', '?parallel', 'parallel?', 'simd?soa', 'simd??', '?slow ', 'parallel?x', 'a parallel', ' ?parallel', 'p?ra?lel'):
            jobs.append((lit(a), lit(''), [(9, 126) if c == '?' else (ord(c), ord(c)) for c in e], '%s, extra features "%s"' % (a, e)))
    for a, fl, e, what in jobs:
        ck.add('def', 'xcfg', (len(a), len(fl), len(e)), cfg_spec(len(a), len(fl), len(e)), ints=a + fl + e + [M], max_paths=20000, weight=1 + 3 ** len(e), key='configuration of %s, any number of cores' % what)
    for ns in ((0,), (1,), (2,), (4,), (3, 2), (1, 1), (4, 1, 3), (2, 2, 2, 2), (6, 5)):
        ck.add('def', 'xarg', tuple(list(ns) + [0] * (4 - len(ns))), arg_spec(ns), ints=[ANY] * (sum(ns)), key='features argument of lengths %s' % (ns,))
    ck.bounds.append('architecture strings of up to 9 characters, flag strings of up to 8 free characters or with 3 free ones next to real flag words, extra features of up to 4 free characters or with free characters inside real names; ASCII from tab to tilde; every number of cores')


if __name__ == '__main__':
    ck = Check('C42', ['xt'])
    build(ck)
    sys.exit(ck.run())
