"""C15 user given times are read as documented or refused"""
from datetime import timedelta
from bead.tech.timestamp import time_from_user
from props.lib import UTC_EPOCH, field_ok, instant_us

NOW = 1600000000123456
DAY_US = 86400 * 1000000
UNIT = {'w': 7 * 86400, 'd': 86400, 'H': 3600, 'M': 60, 'S': 1}


def micros(dt):
    return (dt - UTC_EPOCH) // timedelta(microseconds=1)


def read(s):
    try:
        return time_from_user(s)
    except ValueError:
        return None


# the documented ISO forms: 0 stands for a digit, z for the sign of the zone
FORMS = ('0000', '000000', '0000-00', '00000000', '0000-00-00', '00000000T000000z0000', '00000000T000000000000z0000',
         '0000-00-00T00:00:00z0000', '0000-00-00T00:00:00.000000z0000')
# order of the digits is always YYYYMMDDhhmmssuuuuuu (missing ones have defaults)


def value_of(env, form, s):
    digits = ''
    west = False
    zone = ''
    for i in range(len(form)):
        if form[i] == 'z':
            west = s[i] == '-'
            zone = s[i + 1:]
            break
        if form[i] == '0':
            digits = digits + s[i]
    full = digits + '00000101000000000000'[len(digits):]
    off = int(zone[0:2]) * 60 + int(zone[2:4]) if len(zone) else 0
    f = (int(full[0:4]), int(full[4:6]), int(full[6:8]), int(full[8:10]), int(full[10:12]), int(full[12:14]), int(full[14:20]), off, west)
    return f


def iso(env, form, month=None):
    """every text of a documented form"""
    s = ''
    n = 0
    k = 0
    for c in form:
        if c == '0':
            if month is not None and k in (4, 5):
                s = s + month[k - 4]
            else:
                s = s + env.text(f'd{n}', ['09'], 1, 1)
            k += 1
        elif c == 'z':
            s = s + ('-' if env.flag('west') else '+')
        else:
            s = s + c
        n += 1
    env.set_now(NOW)
    dt = read(s)
    f = value_of(env, form, s)
    if dt is None:
        env.reach('iso refused')
        env.check(env.neg(field_ok(env, f)), 'refused although it is a supported form')
    else:
        env.reach('iso read')
        env.check(field_ok(env, f), 'accepted an impossible date or time')
        env.check(micros(dt) == instant_us(env, f), 'read as that instant')


def is_digit(env, c):
    return env.all(c >= '0', c <= '9')


def shape(env, form, s):
    conds = []
    for i in range(len(form)):
        if form[i] == '0':
            conds.append(is_digit(env, s[i]))
        elif form[i] == 'z':
            conds.append(env.any(s[i] == '+', s[i] == '-'))
        else:
            conds.append(s[i] == form[i])
    return env.all(*conds)


def deltas(env, s):
    """reference reading of signed amounts by a hand written scanner; seconds or None"""
    i = 0
    total = 0
    n = len(s)
    if n == 0:
        return None
    while i < n:
        sign = 1
        if s[i] == '-':
            sign = -1
            i += 1
        elif s[i] == '+':
            i += 1
        k = i
        num = 0
        while i < n and is_digit(env, s[i]):
            num = num * 10 + int(s[i])
            i += 1
        if i == k or i == n:
            return None
        u = None
        for name in UNIT:
            if s[i] == name:
                u = UNIT[name]
                break
        if u is None:
            return None
        total = total + sign * num * u
        i += 1
    return total


def anything(env, n, alphabet):
    """every text of n characters of an alphabet"""
    s = env.text('s', alphabet, n, n)
    env.set_now(NOW)
    dt = read(s)
    forms = [f for f in FORMS if len(f) == n]
    if dt is None:
        env.reach('refused')
        for f in forms:
            if shape(env, f, s):
                env.check(env.neg(field_ok(env, value_of(env, f, s))), 'refused although it is a supported form')
        t = deltas(env, s)
        if t is not None:
            env.check(env.neg(exists(env, NOW + t * 1000000)), 'refused although it is a sum of amounts')
        return
    for f in forms:
        if shape(env, f, s):
            env.reach('iso read')
            v = value_of(env, f, s)
            env.check(field_ok(env, v), 'accepted an impossible date or time')
            env.check(micros(dt) == instant_us(env, v), 'read as that instant')
            return
    env.reach('delta read')
    t = deltas(env, s)
    env.check(t is not None, 'accepted an unsupported text')
    env.check(micros(dt) == NOW + t * 1000000, 'now plus the amounts')


def exists(env, us):
    """the instant is in the range of representable times, whatever the zone"""
    return env.all(us >= -62135596800000000 + 86400000000, us < 253402300800000000 - 86400000000)


GOOD = {'0000': '2012', '000000': '201203', '0000-00': '2012-03', '00000000': '20120304', '0000-00-00': '2012-03-04', '00000000T000000z0000': '20120304T050607+0809',
        '00000000T000000000000z0000': '20120304T050607012345+0809', '0000-00-00T00:00:00z0000': '2012-03-04T05:06:07+0809', '0000-00-00T00:00:00.000000z0000': '2012-03-04T05:06:07.012345+0809'}


def edited(env, form, pos, kind):
    """one arbitrary character inserted, replaced or removed in a documented form"""
    good = GOOD[form]
    # (no decimal digits of other scripts: they are digits for Python)
    c = env.text('c', ['\0\u05ff', '\u2000\u9fff'], 1, 1)
    if kind == 'insert':
        s = good[:pos] + c + good[pos:]
    elif kind == 'replace':
        s = good[:pos] + c + good[pos + 1:]
    else:
        s = good[:pos] + good[pos + 1:]
    env.set_now(NOW)
    env.check(read(good) is not None, 'a supported form is read')
    dt = read(s)
    forms = [f for f in FORMS if len(f) == len(s)]
    if dt is None:
        env.reach('refused')
        for f in forms:
            if shape(env, f, s):
                env.check(env.neg(field_ok(env, value_of(env, f, s))), 'refused although it is a supported form')
        t = deltas(env, s)
        if t is not None:
            env.check(env.neg(exists(env, NOW + t * 1000000)), 'refused although it is a sum of amounts')
        return
    env.reach('accepted')
    ok = False
    for f in forms:
        if shape(env, f, s):
            ok = True
            v = value_of(env, f, s)
            env.check(field_ok(env, v), 'accepted an impossible date or time')
            env.check(micros(dt) == instant_us(env, v), 'read as that instant')
            break
    if not ok:
        t = deltas(env, s)
        env.check(t is not None, 'accepted an unsupported text')
        env.check(micros(dt) == NOW + t * 1000000, 'now plus the amounts')


def amounts(env, units, lens, zone=False):
    """signed amounts of one to three units at any time, also around a change of the UTC offset"""
    if zone:
        # near to a change of the offset
        env.set_zone(3600, 7200, [(1616893200, 7200, 1), (1635642000, 3600, 0)])
        now = env.int('now', (1635642000 - 7200) * 1000000, (1635642000 + 7200) * 1000000)
    else:
        now = env.pick('day', [18320, 18628]) * DAY_US + env.int('now', 0, DAY_US - 1)
    env.set_now(now)
    s = ''
    total = 0
    for k, u in enumerate(units):
        n = env.pick(f'len{k}', lens)
        a = env.text(f'a{k}', ['09'], n, n)
        sign = env.pick(f'sign{k}', ['', '+', '-'])
        s = s + sign + a + u
        n = int(a)
        total = total + (-n if sign == '-' else n) * UNIT[u]
    dt = read(s)
    expected = now + total * 1000000
    if dt is None:
        env.reach('amounts refused')
        env.check(env.neg(exists(env, expected)), 'refused although it denotes an existing time')
    else:
        env.reach('amounts read')
        env.check(micros(dt) == expected, 'now plus the amounts')
