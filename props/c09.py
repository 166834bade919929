"""C09 box searches return exactly the matching beads, indexed or not"""
from bead.box import search
from bead.tech.timestamp import time_from_timestamp
from props.boxlib import new_box, save, reopened, index, check_found
from props.weblib import stamp, instant

OPS = {
    'at_time': lambda a, b: a == b,
    'newer_than': lambda a, b: a > b,
    'older_than': lambda a, b: a < b,
    'at_or_newer': lambda a, b: a >= b,
    'at_or_older': lambda a, b: a <= b,
}


def beads(env, box, n, short_names, kinds=True, inputs=0, digits=1, base='20200101T000000'):
    out = []
    for i in range(n):
        name = env.text('name%d' % i, ['ab'], 1, 2 if not short_names else 1)
        kind = env.atom('kind%d' % i) if kinds else 'kind'
        specs = [('in%d' % j, env.atom('in%d%d.kind' % (i, j)), env.atom('in%d%d.cid' % (i, j)), stamp(env, 'in%d%d.t' % (i, j))) for j in range(inputs)]
        t = stamp(env, 't%d' % i, digits, zones=True, base=base)
        for o in out:
            env.assume(env.neg(env.all(o.name == name, o.freeze_time == t)))        # they would have the same file name
        out.append(save(env, box, name, t, kind, specs, data='content %d' % i))
    return out


def narrow(env, q, found, conds, as_datetime, digits=1, base='20200101T000000'):
    """add conditions to a search; the beads satisfying them by definition"""
    k = 0
    for c in conds:
        k += 1
        if c == 'name':
            v = env.text('q.name%d' % k, ['ab'], 1, 2)
            q = q.by_name(v)
            found = [s for s in found if s.name == v]
        elif c == 'kind':
            v = env.atom('q.kind%d' % k)
            q = q.by_kind(v)
            found = [s for s in found if s.kind == v]
        elif c == 'cid':
            i = env.num('q.cid%d' % k, 0, len(found))
            v = found[i].content_id if i < len(found) else env.atom('q.other')
            q = q.by_content_id(v)
            found = [s for s in found if s.content_id == v]
        else:
            t = stamp(env, 'q.t%d' % k, digits, zones=True, base=base)
            q = getattr(q, c)(time_from_timestamp(t) if as_datetime else t)
            found = [s for s in found if OPS[c](instant(s.freeze_time), instant(t))]
    return q, found


def one_box(env, n, conds, how, as_datetime=False, short_names=True, inputs=0, digits=1, base='20200101T000000'):
    """how: raw (no index), after (index created after the beads are saved), before (the box is indexed from the start)"""
    box = new_box(env)
    if how == 'before':
        index(box)
        box = reopened(box)
    stored = beads(env, box, n, short_names, kinds='kind' in conds or not conds, inputs=inputs, digits=digits, base=base)
    if how == 'after':
        index(box)
    if how != 'same':
        box = reopened(box)
    q, expected = narrow(env, box.search(), stored, conds, as_datetime, digits, base)
    env.reach(how)
    check_found(env, q.all(), expected, box_name='box')


def both_ways(env, n, conds):
    """a search gives the same with and without an index, and through a search of boxes"""
    box = new_box(env)
    stored = beads(env, box, n, True)
    q, expected = narrow(env, search([reopened(box)]), stored, conds, True)
    a = q.all()
    index(box)
    q.boxes = [reopened(box)]
    b = q.all()
    env.reach('both')
    check_found(env, a, expected)
    check_found(env, b, expected)


def renamed(env, how, n=2):
    """archives whose files got other names: the name of the bead is that of the file"""
    import os
    box = new_box(env)
    stored = []
    for i in range(n):
        s = save(env, box, 'x', '20200101T00000000000%d+0000' % i)
        s.name = env.text('name%d' % i, ['ab', '[', '*'], 1, 2)
        suffix = env.pick('suffix%d' % i, ['', '_20200101', '_20200101T', '_20200101T000000000000+0000', '_20200101t010203-0100'])
        path = str(box.directory) + '/' + s.name + suffix + '.zip'
        env.assume(env.neg(os.path.exists(path)))
        os.rename(s.path, path)
        stored.append(s)
    if how == 'after':
        index(box)
    q, expected = narrow(env, reopened(box).search(), stored, ['name'], True)
    env.reach('renamed')
    check_found(env, q.all(), expected, box_name='box')
