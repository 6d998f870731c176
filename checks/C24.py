from checks.stftspec import *


def one_spec(name, wl, n, start):
    def f(P):
        c = P.int()
        P.expect(c == 0, 'result %s' % ERRS.get(c, c))
        if c == 0:
            frame_vals(P, name, wl, n, start, 'frame')
    return f


def build(ck):
    for cfg in ('all', 'std', 'nostd'):
        wls = (1, 2, 4, 8, 16) if cfg == 'nostd' else (1, 2, 3, 4, 5, 6, 8, 12, 16)
        if ck.thorough:
            wls += (32,)
        for wl in wls:
            for n, hop, ex in ((0, 1, 1), (1, 1, 0), (5, 1, 0), (8, 2, 2), (9, 4, 0), (11, 3, 1), (13, 7, 0), (20, 8, 0), (8, 9, 1), (17, 5, 0), (24, 12, 0), (7, 2, -1), (12, 4, -1), (9, 2, -2)):
                fr = -(-n // hop) + ex
                for name in ('hann', 'ramp', 'signed', 'gap') if cfg == 'all' else ('ramp',):
                    ck.add(cfg, 'stf', (n, wl, hop, fr), batch_spec(name, wl, n, hop, fr), box=wbox(name, wl), weight=n * wl, key='stft(n=%d, window %s(%d), hop %d, %d frames) @%s' % (n, name, wl, hop, fr, cfg))
                if wl <= 8 and n <= 12 and cfg == 'all':
                    ck.add(cfg, 'stf', (n, wl, hop, fr), batch_spec('sym', wl, n, hop, fr), box=wbox('sym', wl), weight=n * wl * 4, key='stft(n=%d, any window of %d, hop %d, %d frames) @%s' % (n, wl, hop, fr, cfg))
            for n, st in ((0, 0), (1, 0), (6, 0), (6, 3), (6, 5), (6, 6), (6, 50), (20, 2), (20, 13)):
                for name in ('ramp', 'signed', 'sym'):
                    if name == 'sym' and wl > 8:
                        continue
                    ck.add(cfg, 'sfr', (n, wl, st), one_spec(name, wl, n, st), box=wbox(name, wl), weight=wl, key='frame(n=%d, window %s(%d), start %d) @%s' % (n, name, wl, st, cfg))
        if cfg != 'std':
            for wl, n, hop in LONG:
                if cfg == 'nostd' and wl & (wl - 1):
                    continue
                pos = spreads(n, 4)
                fr = -(-n // hop)
                ck.add(cfg, 'stf', (n, wl, hop, fr), batch_spec('ramp', wl, n, hop, fr, pos), box=sbox('ramp', wl, pos), weight=n * wl, key='stft(n=%d, window ramp(%d), hop %d), 4 free samples @%s' % (n, wl, hop, cfg))
    ck.bounds.append(LONGTEXT)
    ck.bounds.append('window lengths up to %d, signals up to 24 samples, hops 1 to 12 (smaller, equal to and larger than the window), 0 to 13 frames, more and fewer frames than needed, frame buffers with leftovers; windows: four fixed shapes, and windows of up to 8 samples with every sample symbolic in [0.25, 1]; signal samples in [-1, 1]' % (32 if ck.thorough else 16))


if __name__ == '__main__':
    ck = Check('C24', ['stft'])
    build(ck)
    sys.exit(ck.run())
