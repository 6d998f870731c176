from checks.stftspec import *
from checks.C25 import rts, rt_bigs


def istream_spec(name, wl, hop, frames, push_after=False):
    def f(P):
        P.expect_int(0, 'stream created')
        tail = max(0, wl - hop) if frames else 0
        ref = ola(name, wl, hop, frames, hop * frames + tail, wl, P)
        for t in range(frames):
            P.expect_int(hop, 'samples after frame %d' % t)
            for i in range(hop):
                ola_check(P, name, wl, ref[t * hop + i], 'sample %d' % (t * hop + i))
        P.expect_int(tail, 'samples of the flush')
        for i in range(tail):
            ola_check(P, name, wl, ref[frames * hop + i], 'sample %d (flush)' % (frames * hop + i))
        P.expect_int(0, 'second flush')
    return f


def build(ck):
    for cfg in ('all', 'std', 'nostd'):
        wls = (1, 2, 4, 8, 16) if cfg == 'nostd' else (1, 2, 3, 4, 6, 8, 16)
        names = ('hann', 'ramp', 'signed', 'gap') if cfg == 'all' else ('ramp',)
        for wl in wls:
            for fr in (0, 1, 2, 3, 5) + ((8, 12) if ck.thorough else ()):
                for hop in (1, 2, 3, 4, 5, 7, 8, 11, 16, 17, 40):
                    if fr * hop > 90:
                        continue
                    for name in names:
                        ck.add(cfg, 'sistream', (fr, wl, hop), istream_spec(name, wl, hop, fr), box=wbox(name, wl), weight=fr * wl * wl, key='inverse stream(%d frames, window %s(%d), hop %d) @%s' % (fr, name, wl, hop, cfg))
                    if wl <= 4 and fr <= 3 and cfg == 'all':
                        ck.add(cfg, 'sistream', (fr, wl, hop), istream_spec('sym', wl, hop, fr), box=wbox('sym', wl), weight=fr * wl * 20, key='inverse stream(%d frames, any window of %d, hop %d) @%s' % (fr, wl, hop, cfg))
        rt_bigs(ck, cfg, (2,))
        rts(ck, cfg, (2,), wls, names + ('sym',) if cfg == 'all' else names)
    ck.bounds.append('window lengths up to 16, up to 5 frames, hops 1 to 40 (smaller, equal to and larger than the window); windows: four fixed shapes (one with zero, one with negative samples), and windows of up to 4 samples with every sample symbolic in [0.25, 1]; spectra and samples in [-1, 1]')


if __name__ == '__main__':
    ck = Check('C27', ['stft'])
    build(ck)
    sys.exit(ck.run())
