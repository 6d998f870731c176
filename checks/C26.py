from checks.stftspec import *


def stream_spec(name, wl, n, hop, pos=None):
    def f(P):
        P.expect_int(0, 'stream created')
        start = 0
        t = 0
        while start < n:
            P.expect_int(1, 'frame %d is delivered' % t)
            frame_vals(P, name, wl, n, start, 'frame %d' % t, pos)
            start += hop
            t += 1
        P.expect_int(0, 'end after the last frame')
        P.expect_int(0, 'still at the end')
    return f


def build(ck):
    for cfg in ('all', 'std', 'nostd'):
        wls = (1, 2, 4, 8, 16) if cfg == 'nostd' else (1, 2, 3, 4, 5, 6, 8, 12, 16)
        names = ('hann', 'ramp', 'signed', 'gap') if cfg == 'all' else ('ramp',)
        for wl in wls:
            for n, hop in ((0, 1), (1, 1), (1, 5), (5, 1), (6, 2), (7, 2), (8, 3), (12, 4), (13, 5), (16, 8), (20, 7), (9, 20)) + (((40, 9), (64, 16)) if ck.thorough else ()):
                for name in names:
                    ck.add(cfg, 'sstream', (n, wl, hop), stream_spec(name, wl, n, hop), box=wbox(name, wl), weight=n * wl, key='stream(n=%d, window %s(%d), hop %d) @%s' % (n, name, wl, hop, cfg))
                if wl <= 8 and n <= 13 and cfg == 'all':
                    ck.add(cfg, 'sstream', (n, wl, hop), stream_spec('sym', wl, n, hop), box=wbox('sym', wl), weight=n * wl * 4, key='stream(n=%d, any window of %d, hop %d) @%s' % (n, wl, hop, cfg))
            for n, hop in ((0, 1), (1, 2), (6, 2), (7, 3), (5, 5), (5, 9)):
                if wl in (2, 3, 4) and (cfg != 'nostd' or wl != 3):
                    ck.add(cfg, 'smix', (n, wl, hop, 0), mix_spec(wl, n, hop), box=wbox('ramp', wl), weight=n * wl, key='stream with other uses of the engine between frames(n=%d, window of %d, hop %d) @%s' % (n, wl, hop, cfg))
        for wl, n, hop in LONG:
            if cfg == 'nostd' and wl & (wl - 1):
                continue
            pos = spreads(n, 4)
            ck.add(cfg, 'sstream', (n, wl, hop), stream_spec('ramp', wl, n, hop, pos), box=sbox('ramp', wl, pos), weight=n * wl, key='stream(n=%d, window ramp(%d), hop %d), 4 free samples @%s' % (n, wl, hop, cfg))
    ck.bounds.append(LONGTEXT)
    ck.bounds.append('window lengths up to 16, signals up to 20 samples, hops 1 to 20, calls until two past the end with one frame buffer; windows: four fixed shapes, and windows of up to 8 samples with every sample symbolic in [0.25, 1]; signal samples in [-1, 1]')


def mix_spec(wl, n, hop):
    def f(P):
        start = 0
        t = 0
        while start < n:
            P.expect_int(3, 'a wrong buffer is rejected without advancing')
            P.expect_int(1, 'frame %d is delivered' % t)
            frame_vals(P, 'ramp', wl, n, start, 'frame %d' % t)
            start += hop
            t += 1
        P.expect_int(3, 'a wrong buffer is rejected')
        P.expect_int(0, 'end after the last frame')
    return f


if __name__ == '__main__':
    ck = Check('C26', ['stft'])
    build(ck)
    sys.exit(ck.run())
