"""Values and trees away from the ordinary, shared by the layout checks: pixel
amounts around powers of two, powers of ten, common screen sizes and below one
pixel; trees that are wide, tall or both."""

SMALL = [0.015625, 0.03125, 0.078125, 0.25, 0.5, 0.75, 0.984375]
WHOLE = [1, 2, 3, 4, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 149, 150, 151, 199, 200, 201,
         255, 256, 257, 299, 300, 301, 319, 320, 321, 479, 480, 481, 500, 511, 512, 513, 639, 640, 641, 767, 768, 769, 999, 1000, 1001,
         1023, 1024, 1025, 1500, 1919, 1920, 1921, 2000, 2047, 2048, 2049, 2500, 3000, 4095, 4096, 4097, 4320, 5000, 8191, 8192, 9999,
         10000, 10001, 12000, 16383, 16384, 16385, 20000, 32767, 32768, 40000, 65535, 65536, 99999, 100000, 1000000, 1000001, 2**31, 2**32 + 1]
MIXED = [1.5, 2.25, 10.5, 33.328125, 64.5, 99.984375, 100.25, 333.5, 1000.5, 1023.984375, 5000.25, 40000.5, 1234567.875]
# one of each magnitude, for products
FEW = [0.015625, 0.5, 1, 1.5, 64, 100, 150, 256, 300.25, 512, 1001, 2049, 4097, 5000.25, 10001, 16385, 33000, 70000.5, 1000001]
PIXELS = SMALL + WHOLE + MIXED


def fan(n):
    """A root with n leaves."""
    return ((),) * n


def chain(n):
    """n nodes, each the only child of the one before."""
    t = ()
    for _ in range(n - 1):
        t = (t,)
    return t


def comb(n):
    """A chain of n nodes, each but the last with a leaf before and after the next one."""
    t = ()
    for _ in range(n - 1):
        t = ((), t, ())
    return t


LARGE = {"fan6": fan(6), "fan9": fan(9), "fan12": fan(12), "chain6": chain(6), "chain9": chain(9), "comb4": comb(4),
         "late": fan(5) + (chain(4),), "early": (chain(4),) + fan(5), "grid": (fan(3),) * 3}
