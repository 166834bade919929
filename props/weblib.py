"""webs of beads for the harnesses of C21-C25 and C32"""
from bead.meta import InputSpec
from bead_cli.web.dummy import Dummy
from bead_cli.web.freshness import Freshness


def stamp(env, label, digits=1, zones=False, base='20200101T000000'):
    """a freeze time on the first of January 2020: only the last digits of the microseconds are arbitrary, and maybe the zone"""
    zone = '-0100' if zones and env.flag(label + ' is in the west') else '+0000'
    return base + '0' * (6 - digits) + env.text(label, ['09'], digits, digits) + zone


def instant(t):
    """the instant of a freeze time made by stamp"""
    return int(t[15:21]) + (3600000000 if t[21] == '-' else 0)


def dummy(name, content_id, freeze_time, inputs=(), kind='kind', box='box', freshness=None):
    d = dict(name=name, content_id=content_id, kind=kind, freeze_time_str=freeze_time, inputs=list(inputs), box_name=box)
    if freshness is not None:
        d['freshness'] = freshness
    return Dummy(**d)


def spec(name, content_id, freeze_time, kind='kind'):
    return InputSpec(name=name, kind=kind, content_id=content_id, freeze_time_str=freeze_time)


def same_ref(env, a, b):
    return env.all(a.name == b.name, a.content_id == b.content_id)


def find(env, beads, ref):
    """the beads having the name and content id of ref"""
    return [b for b in beads if same_ref(env, b, ref)]


def has_edge(env, edges, e):
    return env.any(False, *[env.all(same_ref(env, x.src, e.src), same_ref(env, x.dest, e.dest), x.label == e.label) for x in edges])


def is_phantom(b):
    return b.freshness == Freshness.PHANTOM
