"""C13 freeze timestamps parse strictly and denote exact instants"""
from datetime import datetime, timedelta, timezone
from bead.tech.timestamp import time_from_timestamp
from props.lib import ts_shape, ts_fields, field_ok, instant_us, UTC_EPOCH


def micros(dt):
    return (dt - UTC_EPOCH) // timedelta(microseconds=1)


def shape(env, n, lo, hi):
    """every text of n characters from a range of code points: accepted exactly when well formed"""
    s = env.text('s', [(lo, hi)], n, n)
    try:
        dt = time_from_timestamp(s)
    except ValueError:
        env.reach('refused')
        if n == 26:
            good = ts_shape(env, s)
            if good:
                env.check(env.neg(field_ok(env, ts_fields(s))), 'refused although well formed')
        return
    env.reach('accepted')
    env.check(n == 26, 'accepted with a wrong length')
    env.check(ts_shape(env, s), 'accepted with a wrong character')
    env.check(field_ok(env, ts_fields(s)), 'accepted an impossible date or time')


def fields(env, month, sign):
    """every well formed timestamp of a month (of any year) denotes its instant"""
    y = env.text('y', ['09'], 4, 4)
    d = env.text('d', ['09'], 2, 2)
    t = env.text('t', ['09'], 12, 12)
    z = env.text('z', ['09'], 4, 4)
    s = y + month + d + 'T' + t + sign + z
    f = ts_fields(s)
    try:
        dt = time_from_timestamp(s)
    except ValueError:
        env.reach('refused')
        env.check(env.neg(field_ok(env, f)), 'refused although well formed')
        return
    env.reach('accepted')
    env.check(field_ok(env, f), 'accepted an impossible date or time')
    env.check(micros(dt) == instant_us(env, f), 'denotes that instant')


def edited(env, kind, pos):
    """one arbitrary character inserted into, replaced in or removed from a well formed timestamp"""
    good = '20200229T235959' + '999999' + '+0130'
    c = env.text('c', ['\0\uffff'], 1, 1)
    if kind == 'insert':
        s = good[:pos] + c + good[pos:]
        ok = False
    elif kind == 'replace':
        s = good[:pos] + c + good[pos + 1:]
        ok = None
    else:
        s = good[:pos] + good[pos + 1:]
        ok = False
    try:
        dt = time_from_timestamp(s)
    except ValueError:
        env.reach('refused')
        if ok is None:
            if ts_shape(env, s):
                env.check(env.neg(field_ok(env, ts_fields(s))), 'refused although well formed')
        return
    env.reach('accepted')
    env.check(ok is not False, 'accepted a timestamp with a character too many or too few')
    env.check(ts_shape(env, s), 'accepted with a wrong character')
    f = ts_fields(s)
    env.check(field_ok(env, f), 'accepted an impossible date or time')
    env.check(micros(dt) == instant_us(env, f), 'denotes that instant')


def order(env, pa, pb):
    """comparing two parsed timestamps compares the instants, whatever the zones"""
    a = sym_ts(env, 'a', pa)
    b = sym_ts(env, 'b', pb)
    fa, fb = ts_fields(a), ts_fields(b)
    env.assume(env.all(field_ok(env, fa), field_ok(env, fb)))
    da, db = time_from_timestamp(a), time_from_timestamp(b)
    ia, ib = instant_us(env, fa), instant_us(env, fb)
    env.reach('compared')
    env.check(env.iff(da < db, ia < ib), 'less than compares instants')
    env.check(env.iff(da == db, ia == ib), 'equality compares instants')
    env.check(env.iff(da >= db, ia >= ib), 'greater or equal compares instants')
    env.check((db - da) // timedelta(microseconds=1) == ib - ia, 'the difference is the difference of the instants')


def sym_ts(env, label, prefix):
    d = prefix + env.text(label + '.date', ['09'], 8 - len(prefix), 8 - len(prefix))
    t = env.text(label + '.time', ['09'], 12, 12)
    sign = '-' if env.flag(label + '.west') else '+'
    z = env.text(label + '.zone', ['09'], 4, 4)
    return d + 'T' + t + sign + z
