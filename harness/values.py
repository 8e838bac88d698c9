"""Projection of pandas cells onto the value domain of spec/FTValues.tla."""
from fractions import Fraction
import math
import zlib
import numpy as np
import pandas as pd

EPOCH = pd.Timestamp("2020-01-01")
NAN = [0, 0, 1]
ODD = ["02134", "1.0", "7", "True", "None", "NA", "nan", "null", "2020-01-01", "é", "line\nbreak", "tab\there", "semi;colon", "'single'", "#x", "-"]
# every string a scenario can contain, in string order: the code is the position
WORDS = sorted(
    ["%s%d" % (c, i) for c in "abcdefgh" for i in range(14)] +
    ["blue", "green", "red", "white", "black", "x", "y", "z", "zz", "", " lead", "two words", "a,b", 'q"uote', "na", "Nope"] + ODD)
CODE = {w: i for i, w in enumerate(WORDS)}
MAXDEN = 100000
MAXNUM = 2000000000


def ts(sec):
    return EPOCH + pd.Timedelta(seconds=int(sec))


def opaque(x):
    """a value outside the specification's domain: equal values stay equal"""
    return [9, zlib.crc32(repr(x).encode()) & 0x7fffffff, 2]


def enc_num(x, square=False):
    x = float(x)
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return [5, 1 if x > 0 else -1, 1]
    if square:
        x = x * x
    f = Fraction(x).limit_denominator(MAXDEN)
    if abs(float(f) - x) > 1e-9 * max(1.0, abs(x)) or abs(f.numerator) > MAXNUM:
        return [9, 0, 1]
    return [1, f.numerator, f.denominator]


def enc(x, square=False):
    """Encode one observed or generated cell."""
    if x is None or x is pd.NaT:
        return NAN
    if isinstance(x, (bool, np.bool_)):
        return [1, int(x), 1]
    if isinstance(x, (int, np.integer)):
        if abs(int(x)) > MAXNUM:
            return opaque(x)
        if square:
            return enc_num(x, True)
        return [1, int(x), 1]
    if isinstance(x, (float, np.floating)):
        return enc_num(x, square)
    if isinstance(x, str):
        return [2, CODE[x], 1] if x in CODE else [9, 2, 1]
    if isinstance(x, (pd.Timestamp, np.datetime64)) or hasattr(x, "year"):
        x = pd.Timestamp(x)
        if x is pd.NaT:
            return NAN
        d = x - EPOCH
        if abs(d) > pd.Timedelta(days=24000):
            return opaque(x)
        s = d.total_seconds()
        if s != int(s):
            return opaque(x)
        return [4, int(s), 1]
    if isinstance(x, (pd.Timedelta, np.timedelta64)):
        return [9, 4, 1]
    return [9, 5, 1]


def enc_col(series, square=False):
    return [enc(v, square) for v in series.tolist()] if hasattr(series, "tolist") else [enc(v, square) for v in series]
