from checks.trigspec import *


def build(ck):
    sizes = tuple(range(0, 25)) + (31, 32, 40) + ((48, 64) if ck.thorough else ())
    for cfg in ('all', 'nostd'):
        for form in (0, 1, 2):
            for n in sizes:
                if form and n > 9:
                    continue
                ck.add(cfg, 'dht', (form, n), plain_spec(cas_matrix, n, form), weight=n * n)
        for n in list(range(1, 17)) + [20]:
            ck.add(cfg, 'dht2', (n,), scaled_identity(n, float(n), 4e-6 * n ** 3 + 1e-5), weight=n * n)
    for cfg in ('all', 'nostd'):
        large(ck, cfg, 'dht', lambda n: (0, n), lambda n: lambda k, i: unit(k * i, n).real - unit(k * i, n).imag, LARGE, lambda n: 5e-6 * n + 1e-5, 'dht')
    ck.bounds.append('lengths %s with three free samples, the others zero' % (LARGE,))
    ck.bounds.append('lengths %s; twice applied up to 20' % (sizes,))


if __name__ == '__main__':
    ck = Check('C15', ['trig'])
    build(ck)
    sys.exit(ck.run())
