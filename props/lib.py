"""Helpers shared by the harnesses; executed symbolically (instrumented) and natively (replay)."""
import os
from datetime import datetime, timezone
from pathlib import Path

UTC_EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)


# -- timestamps: an independent reading of YYYYMMDDTHHMMSSffffff+hhmm ----------
def is_digit(env, c):
    return env.all(c >= '0', c <= '9')


def ts_shape(env, s):
    """condition: s has the characters of a full basic timestamp (25 characters)"""
    conds = []
    for i in range(len(s)):
        c = s[i]
        if i == 8:
            conds.append(c == 'T')
        elif i == 21:
            conds.append(env.any(c == '+', c == '-'))
        else:
            conds.append(is_digit(env, c))
    return env.all(len(s) == 26, *conds)


def ts_fields(s):
    y, mo, d = int(s[0:4]), int(s[4:6]), int(s[6:8])
    h, mi, sec, us = int(s[9:11]), int(s[11:13]), int(s[13:15]), int(s[15:21])
    off = int(s[22:24]) * 60 + int(s[24:26])
    west = s[21] == '-'
    return y, mo, d, h, mi, sec, us, off, west


def leap(env, y):
    return env.all(y % 4 == 0, env.any(y % 100 != 0, y % 400 == 0))


def field_ok(env, f):
    """condition: the fields denote a real date and time with a usable zone"""
    y, mo, d, h, mi, sec, us, off, west = f
    thirty = env.any(mo == 4, mo == 6, mo == 9, mo == 11)
    last = env.any(
        d <= 28,
        env.all(d <= 29, env.any(mo != 2, leap(env, y))),
        env.all(d <= 30, mo != 2),
        env.all(d <= 31, mo != 2, env.neg(thirty)))
    return env.all(y >= 1, mo >= 1, mo <= 12, d >= 1, last, h <= 23, mi <= 59, sec <= 59, off < 1440)


CUM = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)


def days_before_month(mo):
    for k in range(1, 12):
        if mo == k:
            return CUM[k - 1]
    return CUM[11]


def instant_us(env, f):
    """microseconds since 1970 of valid fields"""
    y, mo, d, h, mi, sec, us, off, west = f
    p = y - 1
    days = p * 365 + p // 4 - p // 100 + p // 400 + days_before_month(mo) + d - 1
    if mo > 2:
        if leap(env, y):
            days = days + 1
    days = days - 719162
    sgn = -1 if west else 1
    return (((days * 24 + h) * 60 + mi - sgn * off) * 60 + sec) * 1000000 + us
