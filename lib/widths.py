"""Independent column-width oracle: Unicode data of Python, not the project's tables.
A code point is `certain` when Unicode 3.2 (the age of the convention) and the
current Unicode agree about it, so that a legitimate table update keeps it.
age5.txt lists those added between 3.2 and 5.0 (the version the project follows)
whose width hasn't changed since, from Perl's tables of Unicode."""
import os
import unicodedata as new
from unicodedata import ucd_3_2_0 as old

def width1(db, c):
    ch = chr(c)
    cat = db.category(ch)
    if c == 0:
        return None
    if cat == "Cc":
        return 255
    if c == 0xAD:
        return 1
    if 0x1160 <= c <= 0x11FF:
        return 0
    if cat in ("Mn", "Me", "Cf"):
        return 0
    if cat in ("Cn", "Cs"):
        return None
    if db.east_asian_width(ch) in "WF":
        return 2
    return 1

def table():
    w = bytearray(0x110000)
    sure = bytearray(0x110000)
    for c in range(0x110000):
        a = width1(new, c)
        b = width1(old, c)
        w[c] = a if a is not None else 1
        # U+180E was reclassified twice (Cf -> Zs -> Cf)
        sure[c] = a is not None and a == b and c != 0x180E
    for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "age5.txt")):
        a, b = [int(x, 16) for x in l.split()]
        for c in range(a, b + 1):
            sure[c] = 1
    return w, sure

def write(path):
    w, s = table()
    with open(path, "wb") as f:
        f.write(w)
        f.write(s)
    return w, s
