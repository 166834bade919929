"""C14 a generated timestamp denotes the current instant"""
from datetime import timedelta
from bead.tech.timestamp import time_from_timestamp
import bead.tech.timestamp as ts_mod
from props.lib import UTC_EPOCH

DAY = 86400
# (label, standard offset, DST offset, [(utc second of a change, offset from then on, is dst)])
# changes of 2021: the middle of a long DST period, northern and southern, half hour and whole hour, at midnight
ZONES = {
    'none': (0, None, ()),
    'north1h': (3600, 7200, ((1616893200, 7200, 1), (1635642000, 3600, 0))),
    'south30m': (37800, 39600, ((1617462000, 37800, 0), (1633188600, 39600, 1))),
    'west1h': (-18000, -14400, ((1615705200, -14400, 1), (1636264800, -18000, 0))),
    'west330': (-12600, -9000, ((1615699800, -9000, 1), (1636259400, -12600, 0))),
}


def instant(s):
    return (time_from_timestamp(s) - UTC_EPOCH) // timedelta(microseconds=1)


def any_instant(env, first_day, last_day):
    """any microsecond of a range of days (counted from 1970)"""
    d = env.int('day', first_day, last_day)
    h, m, s = env.int('hour', 0, 23), env.int('minute', 0, 59), env.int('second', 0, 59)
    return (((d * 24 + h) * 60 + m) * 60 + s) * 1000000 + env.int('us', 0, 999999)


def fixed_zone(env, first, last, west):
    """zones without daylight saving time, any offset in minutes, any instant of a range of days"""
    off = env.int('offset.hours', 0, 14) * 60 + env.int('offset.minutes', 0, 59)
    if west:
        off = -off
    env.set_zone(off * 60)
    now = any_instant(env, first, last)
    env.set_now(now)
    s = ts_mod.timestamp()
    env.reach('generated')
    env.check(len(s) == 26, 'full length')
    env.check(instant(s) == now, 'parsed back it is the current instant')


def dst_zone(env, zone, lo, hi):
    """zones with daylight saving time, any instant of a period"""
    std, dst, trans = ZONES[zone]
    env.set_zone(std, dst, list(trans))
    now = any_instant(env, lo, hi) if hi < 100000 else env.int('now', lo * 1000000, hi * 1000000)
    env.set_now(now)
    s = ts_mod.timestamp()
    env.reach('generated')
    env.check(len(s) == 26, 'full length')
    env.check(instant(s) == now, 'parsed back it is the current instant')


def later(env, zone, at):
    """of two timestamps the later made one is the later, also when the clocks are set back in between"""
    std, dst, trans = ZONES[zone]
    env.set_zone(std, dst, list(trans))
    a = env.int('a', (at - 7300) * 1000000, (at + 7300) * 1000000)
    d = env.int('d', 0, 7300 * 1000000)
    env.set_now(a)
    sa = ts_mod.timestamp()
    env.set_now(a + d)
    sb = ts_mod.timestamp()
    env.reach('two')
    env.check(env.iff(time_from_timestamp(sa) < time_from_timestamp(sb), d > 0), 'later made is later')


def saved(env, zone, at):
    """a bead saved now is not from the future, and is newer than one saved before"""
    from bead.box import Box
    from bead.workspace import Workspace
    from bead.ziparchive import ZipArchive
    import os
    std, dst, trans = ZONES[zone]
    env.set_zone(std, dst, list(trans))
    os.mkdir(env.root + '/box')
    ws = Workspace(env.root + '/w')
    ws.create('kind')
    a = env.int('a', (at - 3700) * 1000000, (at + 3700) * 1000000)
    d = env.int('d', 1000000, 3600 * 1000000)
    env.set_now(a)
    box = Box('b', ws.directory.parent / 'box')
    pa = box.store(ws, ts_mod.timestamp())
    ZipArchive(pa, 'b').validate()
    env.set_now(a + d)
    pb = box.store(ws, ts_mod.timestamp())
    ZipArchive(pb, 'b').validate()
    env.reach('saved')
    newest = box.search().by_name('w').newest()
    env.check(newest.freeze_time_str == ZipArchive(pb, 'b').freeze_time_str, 'the later saved bead is the newest')
    env.check(env.neg(ZipArchive(pa, 'b').freeze_time >= ZipArchive(pb, 'b').freeze_time), 'the later saved bead is newer')
