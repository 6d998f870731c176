"""Self-test of the engine on common standard-library idioms: each is executed symbolically and every path is replayed natively.
Usage: PYTHONPATH=. python3-vt tools/probe.py"""
from checks.realspec import *
def spec(P): pass
import os
ck = Check('probe', ['probe'])
A = [('p_sort', (4,)), ('p_sortu', (4,)), ('p_rot', (5, 2)), ('p_copyw', (5, 2)), ('p_chunks', (7, 3)), ('p_split', (6, 3)), ('p_drain', (5, 2)), ('p_concat', (3,)), ('p_scan', (3,)), ('p_min', (3,)), ('p_maps', (5,)), ('p_hash', (5,)), ('p_deque', (5,)), ('p_rc', (3,)), ('p_dyn', (3,)), ('p_float', ()), ('p_trig', ()), ('p_array', ()), ('p_alias', (4,)), ('p_sort', (25,)), ('p_sortu', (25,))]
for n, a in A:
    ck.add('all', n, a, spec, box=((0.3, 0.9) if n in ('p_float', 'p_trig') else (-1.0, 1.0)) if len(a) == 0 or a[0] < 20 else (lambda i: (float(i * 7 % 25), i * 7 % 25 + 0.5)), key=n + repr(a), max_paths=3000)
ck.add('all', 'p_int', (), spec, ints=[(6, 20)], key='int', max_paths=3000)
ck.add('all', 'p_bytes', (), spec, ints=[(0, 70000)], key='bytes', max_paths=3000)
for n in (0, 2, 3):
    ck.add('all', 'p_str', (n,), spec, ints=[(44, 122)] * n, key='str%d' % n, max_paths=3000)
sys.exit(ck.run())
