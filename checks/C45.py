from checks.realspec import *
from checks.C42 import texts, same_text, same_sym
from itertools import product

LOW = (33, 126)
# subcommand, flags that have to be there, options with their values (None: the configured example)
TASKS = [('build', 'build', [], {}, False), ('test', 'test', [], {}, False),
         ('benchmark', 'run', ['--release'], {'--example': None}, True),
         ('bench-libs', 'bench', [], {'--manifest-path': 'kofft-bench/Cargo.toml'}, True),
         ('update-bench-readme', 'run', ['--release'], {'--manifest-path': 'kofft-bench/Cargo.toml', '--example': 'update_bench_readme'}, True),
         ('clippy', 'clippy', ['--all-targets', '--all-features'], {}, False), ('fmt', 'fmt', ['--all'], {}, False)]


def word(t):
    """the text if it is free of symbolic characters"""
    return ''.join(map(chr, t)) if all(type(c) is int for c in t) else None


def command(P):
    prog = texts(P)
    args = [texts(P) for _ in range(P.int())]
    envs = []
    for _ in range(P.int()):
        k = texts(P)
        n = P.int()
        envs.append((k, None if n == 9999 else [P.rawint() for _ in range(n)]))
    cwd = P.int()
    return prog, args, envs, cwd


def cmd_spec(which, feats, nrf, nex):
    name, sub, flags, opts, env = TASKS[which]

    def f(P):
        i = 0
        joined = []
        for n in feats:
            joined += ([' '] if joined or n == 0 and i else []) + [P.ubv(i + j) for j in range(n)]
            i += n
        rf = [P.ubv(i + j) for j in range(nrf or 0)]
        i += nrf or 0
        ex = [P.ubv(i + j) for j in range(nex)]
        prog, args, envs, cwd = command(P)
        P.must(word(prog) == 'cargo', 'program')
        P.must(cwd == 0, 'the directory is the current one')
        P.must(bool(args) and word(args[0]) == sub, 'subcommand')
        seen, k = {}, 1
        want = dict(opts)
        if feats and which < 5:
            want['--features'] = joined
        while k < len(args):
            for o in want:
                if word(args[k][:len(o) + 1]) == o + '=':
                    args[k:k + 1] = [[ord(c) for c in o], args[k][len(o) + 1:]]
            w = word(args[k])
            if w in want and w not in seen and k + 1 < len(args):
                v = want[w]
                P.must(same_text(P, args[k + 1], ex if v is None else v if type(v) is list else list(v)), 'value of ' + w)
                seen[w] = 1
                k += 2
            elif w in flags or w == '-r' and '--release' in flags:
                seen['--release' if w == '-r' else w] = 1
                k += 1
            else:
                P.must(False, 'unexpected argument %r' % (w,))
                return
        for w in list(want) + flags:
            P.must(w in seen, 'argument %s is there' % w)
        if nrf is None or not env:
            P.must(not envs if env or which > 4 else all(word(k) == 'RUSTFLAGS' and nrf is not None for k, _ in envs), 'environment')
        else:
            P.must(len(envs) == 1 and word(envs[0][0]) == 'RUSTFLAGS' and envs[0][1] is not None, 'RUSTFLAGS is set')
        for k, v in envs:
            P.must(same_text(P, v or [], rf), 'value of RUSTFLAGS')
    return f


def san_spec(a, b):
    def f(P):
        prog, args, envs, cwd = command(P)
        P.must(word(prog) == 'cargo' and not envs and not cwd, 'program and environment')
        P.must(len(args) >= 3 and word(args[-3]) == '--', 'separator before the arguments of the tool')
        P.must(word(args[0]) == 'run', 'subcommand')
        head = [word(t) for t in args[1:-3]]
        P.must(sorted('--release' if w == '-r' else '--package' if w == '-p' else w for w in head) == ['--package', '--release', 'sanity-check'], 'sanity-check is run optimised')
        P.must(same_text(P, args[-2], [P.ubv(i) for i in range(a)]), 'input path')
        P.must(same_text(P, args[-1], [P.ubv(a + i) for i in range(b)]), 'output path')
    return f


def build(ck):
    fs = [(), (1,), (3,), (2, 3), (1, 2, 1), (8,)] + ([(4, 4), (2, 2, 2, 2), (7, 1)] if ck.thorough else [])
    for w, ft, rf, ex in product(range(5), fs, (None, 1, 6), (2, 5)):
        key = '%s command with features of lengths %s, flags of length %s and an example of length %d' % (TASKS[w][0], ft, rf, ex)
        code = 0
        for n in reversed(ft):
            code = code * 10 + n + 1
        n = sum(ft) + (rf or 0) + ex
        ck.add('def', 'xcmd', (w, code, 0 if rf is None else rf + 1, ex), cmd_spec(w, ft, rf, ex), ints=[LOW] * n, key=key)
    for w in (5, 6):
        ck.add('def', 'xcmd', (w, 43, 3, 2), cmd_spec(w, (2, 3), 2, 2), ints=[LOW] * 9, key='%s command' % TASKS[w][0])
    for a, b in product((0, 1, 3, 8), repeat=2):
        ck.add('def', 'xsan', (a, b), san_spec(a, b), ints=[(9, 126)] * (a + b), key='sanity command with paths of lengths %d and %d' % (a, b))
    ck.bounds.append('lists of up to three features of up to 8 characters, flags of up to 6, example names of up to 5, paths of up to 8 characters: every printable ASCII text')
    ck.assumptions.append('std::process::Command is modelled by a recorder of program, arguments and environment (nothing is executed); its accessors are trusted to return what was given')


if __name__ == '__main__':
    ck = Check('C45', ['xt'])
    build(ck)
    sys.exit(ck.run())
