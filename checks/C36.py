import z3
from checks.stftspec import *
from checks.realspec import cint

M64 = (1 << 64) - 1
KEYS = ('THRESHOLD', 'CACHE_BYTES', 'PER_CORE_WORK', 'THREADS', 'BLOCK_SIZE')
NAMES = ('threshold', 'L1 cache', 'per-core work', 'threads', 'block size')
DEFAULT = (0, 32768, None, None, 1024)


def bv(v):
    return z3.BitVecVal(v, 64)


def env_of(vals):
    return {'KOFFT_PAR_FFT_' + k: v for k, v in vals.items()}


def parsed(vals, k):
    """the value of an environment setting: decimal digits with an optional plus sign that fit 64 bits"""
    v = vals.get(k)
    if v is None:
        return None
    d = v[1:] if v[:1] == '+' else v
    return int(d) if d.isascii() and d.isdigit() and int(d) <= M64 else None


def umax(a, b):
    return z3.If(z3.UGE(a, b), a, b)


def rule(P, n, mask, vals):
    """the documented choice as a formula over the settings: settings made at run time win over the environment, which wins
    over the defaults; None where a default that depends on the machine decides"""
    w, ov = 0, []
    for i in range(5):
        if mask >> i & 1:
            ov.append(P.ubv(w))
            w += 1
        else:
            ov.append(bv(0))
    base = []
    for i, k in enumerate(KEYS):
        v = parsed(vals, k)
        base.append(DEFAULT[i] if v is None else v)
    if base[2] is None:
        base[2] = 1 << 40                   # measured, far above every length checked here
    if base[3] is None:
        base[3] = 1                         # number of cores: only used where it does not matter
    cache, work, threads, block = [z3.If(ov[i] != 0, ov[i], bv(base[i])) for i in range(1, 5)]
    per = umax(z3.LShR(cache, bv(3)), umax(work, block))
    enough = z3.Or(per == 0, threads == 0, *[z3.And(threads == t, z3.ULE(per, bv(n // t))) for t in range(1, n + 1)])
    thr = z3.If(ov[0] != 0, ov[0], bv(base[0]))
    return z3.If(thr != 0, z3.ULE(thr, bv(n)), enough)


def inv_spec(n, mask, vals, exact=True):
    def f(P):
        P.ok('ifft')
        rows = dft_rows(n, True, range(n))
        if bin(mask).count('1') <= 3:
            P.lins(rows, 1e-5 * max(n, 4) if n & (n - 1) == 0 else 1e-4 * n, 'inverse transform')
        if exact:
            want = rule(P, n, mask, vals)
            P.must(want if P.marks else z3.Not(want), 'the transform of %d points is %s against the settings' % (n, 'parallel' if P.marks else 'sequential'))
    return f


def fwd_spec(n):
    def f(P):
        P.ok('fft')
        P.lins(dft_rows(n, False, range(n)), 1e-5 * max(n, 4) if n & (n - 1) == 0 else 1e-4 * n, 'transform')
    return f


def value_spec(vals):
    def f(P):
        t = parsed(vals, 'THRESHOLD')
        if not t:
            base = [DEFAULT[i] if parsed(vals, k) is None else parsed(vals, k) for i, k in enumerate(KEYS)]
            per = max(base[1] // 8, base[2], base[4])
            t = min(per * base[3], M64)
        P.expect_int(t, 'threshold from the environment')
    return f


def default_spec(P):
    v = P.int()
    P.expect(1024 <= v <= 16384, 'the default threshold of one core is %d, documented as roughly 4096 points' % v)


FIX = {'THREADS': '1', 'PER_CORE_WORK': '1', 'CACHE_BYTES': '8', 'BLOCK_SIZE': '1'}


def build(ck):
    full = (0, M64)
    ns = (2, 3, 8, 16) if not ck.thorough else (2, 3, 4, 5, 7, 8, 16, 20)
    masks = [m for m in range(1, 32)]
    envs = [({}, 'empty environment'), (FIX, 'environment 1/8/1/1'), (dict(FIX, THREADS='3'), 'environment, 3 threads'), (dict(FIX, THRESHOLD='8'), 'environment, threshold 8'),
            (dict(FIX, THRESHOLD='0', PER_CORE_WORK='4'), 'environment, work 4'), (dict(FIX, BLOCK_SIZE='7', CACHE_BYTES='100'), 'environment, block 7, cache 100'),
            (dict(FIX, THRESHOLD='', PER_CORE_WORK='2', BLOCK_SIZE='1e3'), 'environment, malformed'), (dict(FIX, THREADS='18446744073709551615', PER_CORE_WORK='2'), 'environment, huge threads'),
            (dict(FIX, THRESHOLD='18446744073709551616', PER_CORE_WORK='+5'), 'environment, threshold too large')]
    for cfg in ('all', 'par'):
        for n in ns if cfg == 'all' or ck.thorough else (2, 8):
            for vals, en in envs if cfg == 'all' or ck.thorough else envs[:4]:
                for mask in masks:
                    if not vals and not (mask & 1 or mask & 8 and mask & 4):
                        continue            # a machine-dependent default would decide
                    if n != 8 and vals and mask not in (1, 2, 4, 8, 16, 30, 31):
                        continue
                    if not vals and mask & 1 and not (mask & 8 and mask & 4):
                        # the threshold at 0 falls back to machine-dependent defaults: keep it positive
                        rng = [(1, M64)] + [full] * (bin(mask).count('1') - 1)
                    elif not vals:
                        rng = [full if i not in (2, 3) else (1, M64) for i in range(5) if mask >> i & 1]
                    else:
                        rng = [full] * bin(mask).count('1')
                    if n > 8 and bin(mask).count('1') > 2:
                        continue
                    if n > 8 and mask & 8 and bin(mask).count('1') > 1:
                        rng[bin(mask & 7).count('1')] = (rng[bin(mask & 7).count('1')][0], 40)
                    ck.add(cfg, 'pth', (n, mask, (n + mask) % 2), inv_spec(n, mask, vals), ints=rng, env=env_of(vals), weight=n * n * bin(mask).count('1'), sched=False, absmul=True,
                           key='ifft of %d points, %s free, %s @%s' % (n, ', '.join(NAMES[i] for i in range(5) if mask >> i & 1), en, cfg))
                if vals:
                    ck.add(cfg, 'pth', (n, 0, n % 2), inv_spec(n, 0, vals), sched=False, absmul=True, env=env_of(vals), key='ifft of %d points, %s @%s' % (n, en, cfg))
                    ck.add(cfg, 'pthz', (n, 31), inv_spec(n, 0, vals), ints=[full] * 5, sched=False, absmul=True, env=env_of(vals), key='ifft of %d points, settings reset, %s @%s' % (n, en, cfg))
                    ck.add(cfg, 'pthf', (n, 31, n & 1), fwd_spec(n), ints=[full] * 5, sched=False, absmul=True, env=env_of(vals), key='fft of %d points, all settings free, %s @%s' % (n, en, cfg))
    ck.add('par', 'pthv', (), default_spec, env=env_of({'THREADS': '1'}), validate=False, key='default threshold of one core @par')
    pick = {'THRESHOLD': ('0', '1', '17', str(M64), str(M64 + 1), '', '-1', 'x', ' 5', '+7', '1_000', None),
            'CACHE_BYTES': ('1', '0', str(M64), '-', None), 'PER_CORE_WORK': ('1', '1000000', str(M64)),
            'THREADS': ('1', '6', str(M64)), 'BLOCK_SIZE': ('1', '0', '5000', str(M64), '0x10', None)}
    for t in pick['THRESHOLD']:
        for c in pick['CACHE_BYTES']:
            for w in pick['PER_CORE_WORK']:
                for th in pick['THREADS']:
                    for b in pick['BLOCK_SIZE']:
                        if t not in ('0', None, 'x') and (c, w, th, b) not in ((None, '1', '1', None), ('1', str(M64), str(M64), '1')):
                            continue
                        if not ck.thorough and t == 'x' and (c, b) not in ((None, None), ('1', '5000')):
                            continue
                        vals = {k: v for k, v in zip(KEYS, (t, c, w, th, b)) if v is not None}
                        ck.add('par', 'pthv', (), value_spec(vals), env=env_of(vals), key='threshold under %s @par' % ' '.join('%s=%s' % kv for kv in vals.items()))
    ck.bounds.append('inverse and forward transforms of %s points; every value 0 to 2^64-1 of every subset of the five run-time settings; the listed environments; the number of cores and the measured copy rate only where they do not decide' % (ns,))


if __name__ == '__main__':
    ck = Check('C36', ['par'])
    build(ck)
    sys.exit(ck.run())
