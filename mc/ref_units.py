"""Reference semantics of lengths (CSS 2.1 4.3.2, CSS values 3), exact arithmetic."""
import re
from fractions import Fraction as F

LENGTH_SUFFIXES = ["px", "em", "ex", "ch", "pt", "pc", "in", "cm", "mm", "vh", "vw", "vmin", "vmax", "%"]
NUMBER = re.compile(r"[+-]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?\Z")
INCHES = {"pt": F(1, 72), "pc": F(1, 6), "in": F(1), "cm": F(100, 254), "mm": F(10, 254)}


def parse(text):
    """(number, suffix) or None, from the grammar number suffix?"""
    for suffix in sorted(LENGTH_SUFFIXES, key=len, reverse=True):
        if text.endswith(suffix) and NUMBER.match(text[: -len(suffix)]):
            return _finite(text[: -len(suffix)], suffix)
    if NUMBER.match(text):
        return _finite(text, "px")
    return None


def _finite(number, suffix):
    n = float(number)
    return None if n in (float("inf"), float("-inf")) else (n, suffix)


def exact_px(n, suffix, width=None, height=None, dpi=None, size=None, font=None):
    n = F(n)
    if suffix == "px":
        return n
    if suffix in INCHES:
        return n * INCHES[suffix] * F(dpi)
    if suffix == "%":
        return n * F(size) / 100
    if suffix in ("em", "ex", "ch"):
        return n * F(font[suffix]) / 72 * F(dpi)
    side = {"vw": width, "vh": height}.get(suffix)
    if side is None:
        side = min(width, height) if suffix == "vmin" else max(width, height)
    return n * F(side) / 100


def lu(x):
    """Round pixels to the nearest layout unit, ties to even (callers avoid ties)."""
    return F(round(x * 64), 64)
