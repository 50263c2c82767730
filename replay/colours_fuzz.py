"""Falsifier for C11 on the real colours.py."""
import sys
import lib
from lib import fail
import colours as c

R = lib.rnd()


def rol(x, k):
    k %= 4
    return ((x << k) | (x >> (4 - k))) & 15


def main(models):
    for x in range(16):
        for n in list(range(0, 40)) + [97, 1002]:
            if c.rol(x, n) != rol(x, n):
                fail("rol(%d, %d) = %d, expected %d" % (x, n, c.rol(x, n), rol(x, n)))
            if c.ror(x, n) != rol(x, -n % 4):
                fail("ror(%d, %d) = %d, expected %d" % (x, n, c.ror(x, n), rol(x, -n % 4)))
    for cls in (c.HGRColours, c.DHGRColours):
        if sorted(m.value for m in cls) != list(range(16)) or len(cls.__members__) != 16:
            fail("%s does not name the sixteen patterns" % cls.__name__)
    work = []
    for m in models:
        v = m["vars"]
        for p in range(4):
            for n in {int(v.get("num_bits", 10)) % 4000, int(v.get("k", 0)) % 4000 + 1, 10, 18}:
                work.append((n, int(v.get("dots", 0)), p))
    for n in range(0, 70):
        for p in range(4):
            work.append((n, R.getrandbits(max(n + 3, 1)), p))
            work.append((n, R.getrandbits(8 * n + 8), p))
    for v in range(1 << 13):
        work.append((10, v, v % 4))
    for v in range(0, 1 << 21, 97):
        work.append((18, v, 1 + 2 * (v % 2)))
    for _ in range(20):
        work.append((R.randrange(100, 400), R.getrandbits(420), R.randrange(4)))
    for n, d, p in work:
        for cls in (c.HGRColours, c.DHGRColours):
            want = [rol((d >> i) & 15, (p + i) % 4) for i in range(n)]
            got = c.dots_to_nominal_colour_pixels(n, d, cls, p)
            if [g.value for g in got] != want or any(type(g) is not cls for g in got):
                fail("colours of %d dots 0x%x phase %d (%s) differ from their windows" % (n, d, p, cls.__name__),
                     got=[str(g) for g in got], want=want)
            got = c.dots_to_nominal_colour_pixel_values(n, d, cls, p)
            if list(got) != want:
                fail("colour values of %d dots 0x%x phase %d (%s): %r, expected %r" % (n, d, p, cls.__name__, got, want))
    for d in range(1 << 13):
        if tuple(c.dots_to_nominal_colour_pixel_values(10, d, c.DHGRColours)) != tuple(
                rol((d >> i) & 15, (1 + i) % 4) for i in range(10)):
            fail("default phase: dots 0x%x" % d)


main(lib.model_inputs())
print("no failing input found")
