from checks.stftspec import *


def need(n, hop):
    return -(-n // hop)


def err_spec(kind, cfg, hop, k):
    def f(P):
        n, wl, l = (cint(P, i) for i in range(3))
        what = 'n=%d window=%d hop=%d k=%d l=%d' % (n, wl, hop, k, l)
        fc = fftcode(wl, cfg)

        def want(*cs):
            c = P.int()
            P.expect(c in cs, '%s: result %s instead of %s' % (what, ERRS.get(c, c), ' or '.join(str(ERRS.get(x, x)) for x in cs)))
            return c

        if kind in (0, 1):
            if hop == 0:
                want(5)
            elif k < need(n, hop):
                want(3)
            else:
                want(fc if k else 0)
        elif kind == 2:
            want(3 if l != wl else fc)
        elif kind == 3:
            if hop == 0:
                return want(5)
            pos = 0
            for _ in range(k + 1):
                if l != wl:
                    want(3)
                elif pos >= n:
                    want(20)
                elif fc:
                    want(fc)
                else:
                    want(21)
                    pos += hop
        elif kind in (4, 5):
            if hop == 0:
                return want(5)
            es = [3 if (l if j < k - 1 else wl) != wl else fc for j in range(k)]
            bad = [e for e in es if e]
            if kind == 4:
                want(bad[0] if bad else 0)
            else:
                want(*(bad or [0]))
        elif kind == 6:
            want(3 if l != wl else fc)
        elif kind == 7:
            if hop == 0:
                return want(5)
            if wl != n:
                return want(3)
            want(0)
            e = 3 if l != n else fc
            for _ in range(k):
                want(e or 20 + hop)
            want(max(0, n - hop) if k and not e else 0)
            want(e or 20 + hop)
            P.take()
        else:
            if hop == 0:
                want(5)
            elif l != n:
                want(3)
            else:
                want(fc if k else 0)
    return f


KINDS = ['stft', 'parallel stft', 'frame', 'stream', 'istft with frames of other lengths', 'parallel istft', 'inverse frame', 'inverse stream', 'istft scratch']


def build(ck):
    for cfg in ('all', 'nostd'):
        T = 1 if ck.thorough else 0
        for kind in range(9):
            a = (0, 5 + 2 * T) if kind < 4 else (0, 4 + T)
            for hop in range(0, 4 + T):
                for k in range(0, 4 + T):
                    ck.add(cfg, 'serr', (kind, hop, k), err_spec(kind, cfg, hop, k), ints=[a, (0, 4 + T), (0, 4 + T)], max_paths=40000, fork=True, weight=hop * k * (50 if kind in (1, 5) else 1), key='%s arguments, hop %d, %d frames or calls @%s' % (KINDS[kind], hop, k, cfg))
    ck.bounds.append('signal or output lengths 0..%d, window lengths, frame and scratch lengths 0..4, hops 0..3, 0..3 frames or calls, all combinations (lengths are symbolic integers); values beyond the address space (hop times frame number overflowing usize) are outside the bounds' % 5)


if __name__ == '__main__':
    ck = Check('C29', ['stft'])
    build(ck)
    sys.exit(ck.run())
