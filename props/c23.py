"""C23 freshness colours tell exactly which heads are up to date"""
from bead_cli.web.freshness import Freshness
from bead_cli.web.sketch import Sketch
from props.weblib import dummy, spec, stamp, instant, same_ref, find, is_phantom


def beads_of(env, inputs, phantoms=0, zones=False, before=None):
    """beads in clusters of any arrangement and any order in time; inputs are any earlier bead or one of the missing ones"""
    missing = []
    for p in range(phantoms):
        m = spec(env.atom('missing%d' % p), 'm%d' % p, stamp(env, 'missing%d.t' % p))
        missing.append(m)
    beads = []
    for i in range(len(inputs)):
        specs = []
        for j in range(inputs[i]):
            k = env.num('target%d%d' % (i, j), 0, i - 1 + phantoms)
            if k < i:
                s = spec(beads[k].name, beads[k].content_id, beads[k].freeze_time_str)
            else:
                s = missing[k - i]
            for o in specs:
                env.assume(env.neg(same_ref(env, o, s)))
            specs.append(s)
        b = dummy(env.atom('name%d' % i), 'c%d' % i, stamp(env, 't%d' % i, zones=zones), specs, freshness=before)
        for o in beads + missing:
            env.assume(env.implies(o.name == b.name, env.neg(instant(o.freeze_time_str) == instant(b.freeze_time_str))))
        beads.append(b)
    if len(missing) == 2:
        a, b = missing
        env.assume(env.implies(a.name == b.name, env.neg(instant(a.freeze_time_str) == instant(b.freeze_time_str))))
    return beads


def is_newest(b, beads):
    for o in beads:
        if o.name == b.name and instant(o.freeze_time_str) > instant(b.freeze_time_str):
            return False
    return True


def up_to_date(env, b, beads):
    """by definition"""
    if is_phantom(b) or not is_newest(b, beads):
        return False
    for i in b.inputs:
        src = [x for x in beads if env.all(x.name == i.name, x.content_id == i.content_id)]
        if not up_to_date(env, src[0], beads):
            return False
    return True


def check_colours(env, before, after):
    """before: the web, after: its beads with colours"""
    env.check(len(after) == len(before), 'no bead is lost')
    for b in before:
        f = find(env, after, b)[0]
        if is_phantom(b):
            env.reach('phantom')
            env.check(is_phantom(f), 'phantoms stay phantoms')
        elif not is_newest(b, before):
            env.check(f.freshness == Freshness.SUPERSEDED, 'old versions are superseded')
        elif up_to_date(env, b, before):
            env.reach('fresh')
            env.check(f.freshness == Freshness.UP_TO_DATE, 'up to date')
        else:
            env.reach('old')
            env.check(f.freshness == Freshness.OUT_OF_DATE, 'out of date')


def arranged(env, beads):
    """the beads in another order"""
    n = len(beads)
    if n < 2:
        return beads
    if env.flag('reversed'):
        beads = beads[::-1]
    k = env.num('rotated', 0, n - 1) if n > 2 else 0
    return beads[k:] + beads[:k]


def colours(env, inputs, phantoms=0, order=False, before=None, zones=False):
    first = Freshness[before] if before else None
    beads = beads_of(env, inputs, phantoms, zones, first)
    if order:
        beads = arranged(env, beads)
        for b in beads:
            if len(b.inputs) > 1 and env.flag('inputs of ' + b.content_id):
                b.inputs = b.inputs[::-1]
    web = Sketch.from_beads(beads)
    web.color_beads()
    env.reach('coloured')
    check_colours(env, web.beads, web.beads)


def command(env, inputs, phantoms=0):
    beads = beads_of(env, inputs, phantoms)
    web = Sketch.from_beads(beads)
    r = env.root
    web.to_file(r + '/web')
    x = env.cli('web', 'load', 'web', 'color', 'save', 'coloured', cwd=r)
    env.check(x.code == 0, 'the command works')
    after = Sketch.from_file(r + '/coloured')
    env.reach('command')
    check_colours(env, web.beads, after.beads)
