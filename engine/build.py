"""Builds the harness against the current /repo working tree and returns the LLVM IR files and the replay binary."""
import os, re, sys, glob, time, shutil, hashlib, subprocess, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
HARN = os.path.join(VERIF, 'harness')
ALL = 'std parallel x86_64 sse avx2 avx512 slow compile-time-rfft simd soa precomputed-twiddles'.split()
CONFIGS = {
    'all': (ALL, ''),
    'sse': (['std', 'sse'], ''),
    'std': (['std', 'simd'], ''),
    'pre': (['std', 'precomputed-twiddles'], ''),
    'x86': (['std', 'x86_64', 'compile-time-rfft'], ''),
    'nostd': ([], ''),
    'par': (['std', 'parallel', 'internal-tests'], ''),
    'def': (['std'], ''),
    'soa': (['std', 'soa'], ''),
    'a2': (['std', 'avx2'], ''),
    'a512': (['std', 'avx512'], ''),
    'slow': (['std', 'slow'], ''),
    'ctr': (['std', 'compile-time-rfft'], ''),
    'x64': (['std', 'x86_64'], ''),
    'xpre': (['std', 'x86_64', 'simd', 'precomputed-twiddles', 'compile-time-rfft'], ''),
    'nsimd': (['simd', 'soa'], ''),
    'nctr': (['compile-time-rfft', 'x86_64', 'sse'], ''),
    'avx': (['std', 'x86_64'], ' -C target-feature=+avx'),
    'npar': (['parallel', 'soa'], ''),
    'nfma': ([], ' -C target-feature=+fma,+avx2,+avx'),
    'fma': (['std', 'simd'], ' -C target-feature=+fma,+avx2,+avx'),
}
TGT = 'x86_64-unknown-linux-gnu'


class BuildError(Exception):
    pass


def env(extra=''):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0',
             RUSTFLAGS='--emit=llvm-ir,link -C no-vectorize-loops -C no-vectorize-slp' + extra, RUSTC_WRAPPER='',
             CARGO_TERM_COLOR='never', HOME=os.environ.get('HOME', '/root'))
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    return e


def tree_hash(mods, cfg):
    h = hashlib.sha256()
    h.update(repr((mods, cfg, CONFIGS[cfg], REPO)).encode())
    files = []
    for root in [os.path.join(REPO, 'src'), HARN] + ([os.path.join(REPO, 'xtask/src')] if 'xt' in mods else []):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, x) for x in fs]
    files += [os.path.join(REPO, x) for x in ('Cargo.toml', 'build.rs', 'Cargo.lock')]
    files.append(os.path.abspath(__file__))
    for f in sorted(files):
        try:
            b = open(f, 'rb').read()
        except OSError:
            b = b''
        h.update(f.encode() + b'\0' + str(len(b)).encode() + b'\0' + b)
    return h.hexdigest()


LIBM_VER = None


def libm_src():
    ds = glob.glob(os.path.join(os.environ.get('CARGO_HOME') or os.path.expanduser('~/.cargo'), 'registry/src/*/libm-%s' % LIBM_VER))
    return ds[0] if LIBM_VER and ds else None


def copy_libm(pkg):
    """a copy of the libm crate whose functions are not inlined into their callers, so that calls to them can be seen in the IR"""
    d = os.path.join(pkg, 'libm')
    shutil.copytree(libm_src(), d)
    for f in glob.glob(os.path.join(d, 'src/math/*.rs')):
        s = open(f).read()
        t = re.sub(r'^(?=pub fn (?:sin|cos|tan|sincos|log|log10|log2|exp|exp2|pow|sqrt|floor|ceil|round|trunc|rint|fma)f?\()', '#[inline(never)]\n', s, flags=re.M)
        if t != s:
            open(f, 'w').write(t)


def lock_without_rayon():
    s = open(os.path.join(REPO, 'Cargo.lock')).read()
    ps = s.split('\n[[package]]\n')
    ver = '1.12.0'
    out = [ps[0]]
    for p in ps[1:]:
        m = re.match(r'name = "(.*?)"\nversion = "(.*?)"', p)
        if m and m.group(1) == 'rayon':
            ver = m.group(2)
        if m and m.group(1) == 'libm':
            global LIBM_VER
            LIBM_VER = m.group(2)
            if libm_src():
                p = re.sub(r'\n(source|checksum) = .*', '', p)
        if m and m.group(1) in ('rayon', 'rayon-core', 'kofft', 'kofft-bench', 'sanity-check', 'xtask', 'web-spectrogram'):
            continue
        out.append(p)
    return '\n[[package]]\n'.join(out), ver


def build(mods, cfg, release=False, profile=None):
    """returns (list of .ll files, replay binary, seconds)"""
    feats, extra = CONFIGS[cfg]
    name = cfg + '-' + hashlib.sha256(' '.join(mods).encode()).hexdigest()[:8]
    base = os.path.join(VERIF, 'build', name)
    os.makedirs(base, exist_ok=True)
    lk = open(os.path.join(base, 'lock'), 'w')
    fcntl.flock(lk, fcntl.LOCK_EX)
    t0 = time.time()
    st = os.path.join(base, 'stamp')
    hsh = tree_hash(mods, cfg)
    tdir = os.path.join(base, 'target', TGT, 'debug')

    def result():
        lls = sorted(glob.glob(os.path.join(tdir, 'deps', '*.ll')))
        pick = []
        for f in lls:
            b = os.path.basename(f)
            if re.match(r'(vph|kofft|hashbrown|libm|rayon|colorous|num_cpus)-', b):
                pick.append(f)
        return pick, os.path.join(tdir, 'replay'), time.time() - t0

    if os.path.exists(st) and open(st).read() == hsh:
        return result()
    pkg = os.path.join(base, 'pkg')
    shutil.rmtree(os.path.join(base, 'target'), ignore_errors=True)
    shutil.rmtree(pkg, ignore_errors=True)
    os.makedirs(os.path.join(pkg, 'src'))
    shutil.copytree(os.path.join(HARN, 'rayon-stub'), os.path.join(pkg, 'rayon-stub'))
    lock, ver = lock_without_rayon()
    if libm_src():
        copy_libm(pkg)
    open(os.path.join(pkg, 'Cargo.lock'), 'w').write(lock)
    p = os.path.join(pkg, 'rayon-stub', 'Cargo.toml')
    s = open(p).read()
    open(p, 'w').write(re.sub(r'version = ".*?"', 'version = "%s"' % ver, s, count=1))
    s = open(os.path.join(HARN, 'Cargo.toml')).read().replace('@REPO@', REPO).replace('@HERE@', pkg)
    if libm_src():
        s = s.replace('[patch.crates-io]\n', '[patch.crates-io]\nlibm = { path = "%s/libm" }\n' % pkg)
    open(os.path.join(pkg, 'Cargo.toml'), 'w').write(s)
    s = open(os.path.join(HARN, 'src', 'lib.rs')).read()
    s = s.replace('@MODS@', '\n'.join('pub mod c_%s;' % m for m in mods)).replace('@TABLES@', ', '.join('&c_%s::CASES[..]' % m for m in mods))
    open(os.path.join(pkg, 'src', 'lib.rs'), 'w').write(s)
    shutil.copy(os.path.join(HARN, 'src', 'main.rs'), os.path.join(pkg, 'src', 'main.rs'))
    for f in glob.glob(os.path.join(HARN, 'src', 'c_*.rs')):
        t = open(f).read().replace('@REPO@', REPO)
        open(os.path.join(pkg, 'src', os.path.basename(f)), 'w').write(t)
    cmd = ['cargo', 'build', '--offline', '--target', TGT, '--features', ','.join(feats), '--target-dir', os.path.join(base, 'target')]
    r = subprocess.run(cmd, cwd=pkg, env=env(extra), capture_output=True, text=True, timeout=800)
    if r.returncode:
        raise BuildError('cargo build failed (%s)\n%s' % (cfg, r.stderr[-6000:]))
    open(st, 'w').write(hsh)
    return result()


def build_release(mods, cfg):
    """the replay binary of an optimised build without overflow checks (used only to confirm violations)"""
    feats, extra = CONFIGS[cfg]
    name = cfg + '-' + hashlib.sha256(' '.join(mods).encode()).hexdigest()[:8]
    base = os.path.join(VERIF, 'build', name)
    pkg = os.path.join(base, 'pkg')
    e = env(extra)
    e['RUSTFLAGS'] = extra
    cmd = ['cargo', 'build', '--release', '--offline', '--target', TGT, '--features', ','.join(feats), '--target-dir', os.path.join(base, 'target')]
    r = subprocess.run(cmd, cwd=pkg, env=e, capture_output=True, text=True, timeout=800)
    if r.returncode:
        raise BuildError('cargo build --release failed (%s)\n%s' % (cfg, r.stderr[-4000:]))
    return os.path.join(base, 'target', TGT, 'release', 'replay')


if __name__ == '__main__':
    print(build(sys.argv[2:], sys.argv[1]))
