"""C24 saving and loading a web is lossless"""
from bead_cli.web.freshness import Freshness
from bead_cli.web.sketch import Sketch
from props.weblib import dummy, spec, stamp, same_ref

ANY = [('\0', '\ud7ff'), ('\ue000', '\uffff'), ('\U00010000', '\U0010ffff')]
FRESHNESS = ['PHANTOM', 'SUPERSEDED', 'UP_TO_DATE', 'OUT_OF_DATE']


def check_same(env, a, b):
    env.check(len(a.beads) == len(b.beads), 'the same number of beads')
    for x, y in zip(a.beads, b.beads):
        env.check(x.name == y.name, 'the same names in the same order')
        env.check(x.content_id == y.content_id, 'the same content ids')
        env.check(x.kind == y.kind, 'the same kinds')
        env.check(x.freeze_time_str == y.freeze_time_str, 'the same freeze times')
        env.check(x.freshness == y.freshness, 'the same freshness')
        env.check(x.box_name == y.box_name, 'the same box names')
        env.check(len(x.inputs) == len(y.inputs), 'the same number of inputs')
        for i, j in zip(x.inputs, y.inputs):
            env.check(env.all(i.name == j.name, i.kind == j.kind, i.content_id == j.content_id, i.freeze_time_str == j.freeze_time_str), 'the same inputs')
    env.check(len(a.edges) == len(b.edges), 'the same number of links')
    for e in a.edges:
        same = [f for f in b.edges if env.all(same_ref(env, e.src, f.src), same_ref(env, e.dest, f.dest), e.label == f.label)]
        env.check(len(same) == 1, 'the same links')


def characters(env, field, n):
    """any characters in a field"""
    t = env.text('text', ANY, n, n)
    v = dict(name='a', content_id='c', kind='k', box='b', input='i', input_kind='ik', input_cid='ic')
    v[field] = t
    if field in ('name', 'input'):
        env.assume(env.neg('/' in t))
        env.assume(env.neg('__' in t))
        env.assume(env.neg(env.any(t == '.', t == '..', t == '')))
    i = spec(v['input'], v['input_cid'], stamp(env, 't'), kind=v['input_kind'])
    web = Sketch.from_beads([dummy(v['name'], v['content_id'], stamp(env, 'u'), [i], kind=v['kind'], box=v['box'])])
    web.to_file(env.root + '/web')
    env.reach('characters')
    check_same(env, web, Sketch.from_file(env.root + '/web'))


def arrangement(env, inputs, command=False, freshness=True):
    """any beads, inputs, freshness, in any order; through the command line, too"""
    beads = []
    for i in range(len(inputs)):
        specs = []
        for j in range(inputs[i]):
            s = spec(env.atom('in%d%d.name' % (i, j)), env.atom('in%d%d.cid' % (i, j)), stamp(env, 'in%d%d.t' % (i, j), 6), kind=env.atom('in%d%d.kind' % (i, j)))
            for o in specs:
                env.assume(env.neg(o.name == s.name))
            specs.append(s)
        f = Freshness[env.pick('freshness%d' % i, FRESHNESS)] if freshness else None
        b = dummy(env.atom('b%d.name' % i), env.atom('b%d.cid' % i), stamp(env, 'b%d.t' % i, 6, zones=not i), specs, kind=env.atom('b%d.kind' % i), box=env.atom('b%d.box' % i), freshness=f)
        for o in beads:
            env.assume(env.neg(same_ref(env, o, b)))
        beads.append(b)
    web = Sketch.from_beads(beads)
    path = env.root + '/web'
    web.to_file(path)
    if command:
        x = env.cli('web', 'load', 'web', 'save', 'again', cwd=env.root)
        env.check(x.code == 0, 'the command works')
        path = env.root + '/again'
    env.reach('arrangement')
    check_same(env, web, Sketch.from_file(path))
