"""C39 the sub-commands of web work one after the other, each on the result of the one before"""
import os
from bead_cli.web import sketch as web_sketch
from bead_cli.web.io import read_beads
from bead_cli.web.sketch import Sketch
from props.boxlib import save
from props.c22 import some_web
from props.cmdlib import known_box, snapshot
from props.weblib import dummy, spec, same_ref, find

OPS = ('source', 'sink', 'through', 'heads', 'color', 'save', 'dot', 'png', 'svg', 'view', 'load')
T0 = '20200101T000000000001+0000'


def check_beads(env, got, wanted, what):
    env.check(len(got) == len(wanted), what + 'it has every bead once')
    for b in wanted:
        found = find(env, got, b)
        env.check(len(found) == 1, what + 'it has the beads')
        f = found[0]
        env.check(env.all(f.freshness == b.freshness, f.kind == b.kind, f.freeze_time_str == b.freeze_time_str), what + 'the beads are as they were')
        env.check(len(f.inputs) == len(b.inputs), what + 'the beads have their inputs')


def remember(sketch):
    """the beads as they are now (colouring changes them)"""
    return [dummy(b.name, b.content_id, b.freeze_time_str, b.inputs, b.kind, b.box_name, b.freshness) for b in sketch.beads]


def lines_of(text):
    return [l for l in text.split('\n') if l.strip()]


def check_dot(env, got, wanted, what):
    a, b = lines_of(got), lines_of(wanted)
    env.check(len(a) == len(b), what + 'it draws everything once')
    env.check(env.all(True, *[env.any(False, *[x == y for y in b]) for x in a]), what + 'it draws what is there')


def pipeline(env, inputs, first, second, third=None, ops=OPS):
    """a sequence of sub-commands on a web from a file"""
    r = env.root
    # names are chosen from a small set: filters can hit and miss
    web = some_web(env, inputs)
    web.to_file(r + '/web')
    other = Sketch.from_beads([dummy('other', 'o1', T0, [spec('missing', 'o0', T0)]), dummy('other', 'o2', T0)])
    other.to_file(r + '/other')
    sketch = Sketch.from_file(r + '/web')
    words = ['load', 'web']
    effects = []            # what has to be in the files in the end
    runs = []
    name = env.atom('filter') if inputs else 'x'
    for k, op in enumerate([first, second] + ([third] if third else [])):
        if op is None:
            op = env.pick('op%d' % k, list(ops))
        f = 'out%d' % k
        if op == 'source':
            words += ['/', name, '..', '/']
            sketch = web_sketch.set_sources(sketch, {name})
        elif op == 'sink':
            words += ['/', '..', name, '/']
            sketch = web_sketch.set_sinks(sketch, {name})
        elif op == 'through':
            words += ['/', name, '..', name, '/']
            sketch = web_sketch.set_sinks(web_sketch.set_sources(sketch, {name}), {name})
        elif op == 'heads':
            words += ['heads']
            sketch = web_sketch.heads_of(sketch).drop_deleted_inputs()
        elif op == 'color':
            words += ['color']
            sketch.color_beads()
        elif op == 'load':
            words += ['load', 'other']
            sketch = Sketch.from_file(r + '/other')
        elif op == 'save':
            words += ['save', f]
            effects.append(('save', f, remember(sketch)))
        elif op == 'dot':
            words += ['dot', f]
            effects.append(('dot', f, sketch.as_dot()))
        elif op in ('png', 'svg'):
            words += [op, f]
            runs.append((op, f, sketch.as_dot()))
        elif op == 'view':
            words += ['view', f]
            runs.append(('view', f, ''))
    words += ['save', 'final', 'dot', 'final.dot']
    effects.append(('save', 'final', remember(sketch)))
    effects.append(('dot', 'final.dot', sketch.as_dot()))
    before = snapshot(env, r, ['config'])
    n = len(env.subprocess_log())
    x = env.cli('web', *words, cwd=r)
    env.check(env.all(x.code == 0, not x.internal), 'the command works')
    env.reach('pipeline')
    after = snapshot(env, r, ['config'])
    env.check([e for e in after if e[0] not in [f for what, f, value in effects]] == before, 'nothing else is written')
    for what, f, value in effects:
        if what == 'save':
            check_beads(env, read_beads(r + '/' + f), value, f + ': ')
        else:
            with open(r + '/' + f, encoding='utf-8') as o:
                check_dot(env, o.read(), value, f + ': ')
    ran = list(env.subprocess_log())[n:]
    env.check(len(ran) == len(runs), 'pictures are made and shown as asked')
    for got, (what, f, value) in zip(ran, runs):
        if what == 'view':
            env.check(env.all(got[0] == 'view', got[1].endswith(f)), 'it is opened in the browser')
        else:
            args = [str(a) for a in got[0]]
            env.check(env.all(args[0] == 'dot', f in args, what in args), 'graphviz makes the picture')
            text = got[1]
            check_dot(env, text if isinstance(text, str) else text.decode('utf-8'), value, f + ': ')


BAD = {
    'unknown': lambda w: [w],
    'no file': lambda w: ['save'],
    'no file for load': lambda w: ['load'],
    'no delimiter': lambda w: ['/', w],
    'no end': lambda w: ['/', w, '..', w],
    'swapped': lambda w: ['/', w, '/', w, '..'],
    'end twice': lambda w: ['/', w, '..', '..', '/'],
    'after': lambda w: ['color', w],
    'first': lambda w: [w, 'color'],
}


def unparsable(env, how, n=1, start='load'):
    """a command line that can not be parsed does nothing at all"""
    r = env.root
    box = known_box(env, 'box')
    save(env, box, 'bead', T0)
    Sketch.from_beads([dummy('other', 'o1', T0)]).to_file(r + '/web')
    w = env.text('word', [('!', '~')], n, n)
    for known in ('load', 'save', 'dot', 'png', 'svg', '/', 'color', 'heads', 'view', '..'):
        env.assume(env.neg(w == known))
    env.assume(env.neg(w[:1] == '-'))
    words = (['load', 'web'] if start == 'load' else []) + ['save', 'kept', 'png', 'picture', 'view', 'page'] + BAD[how](w)
    before = snapshot(env, r, ['config'])
    ran = len(env.subprocess_log())
    x = env.cli('web', *words, cwd=r)
    env.reach('unparsable')
    env.check(env.all(x.code != 0, x.err != '', not x.internal), 'it is refused')
    env.check(snapshot(env, r, ['config']) == before, 'nothing is written')
    env.check(len(env.subprocess_log()) == ran, 'nothing is run')


def start(env, what, n=2, indexed=False):
    """the web that the first sub-command works on"""
    r = env.root
    one, two = known_box(env, 'one'), known_box(env, 'two')
    beads = []
    for k in range(n):
        box = one if env.flag('bead%d is in one' % k) else two
        s = save(env, box, 'v%d' % k, '20200101T00000000000%d+0000' % k, env.atom('kind%d' % k), [('in', 'ik', beads[-1].content_id, beads[-1].freeze_time)] if beads else [], data=env.atom('data%d' % k))
        s.box = box.name
        beads.append(s)
    Sketch.from_beads([dummy('other', 'o1', T0)]).to_file(r + '/web')
    words = {'boxes': ['save', 'final'], 'colour': ['color', 'save', 'final'], 'load': ['load', 'web', 'save', 'final'], 'load later': ['color', 'load', 'web', 'save', 'final'], 'other files': ['save', 'before', 'load', 'web', 'save', 'final']}[what]
    boxed = snapshot(env, str(one.directory)), snapshot(env, str(two.directory))
    x = env.cli('web', *words, cwd=r)
    env.reach('start')
    env.check(env.all(x.code == 0, not x.internal), 'the command works')
    env.check((snapshot(env, str(one.directory)), snapshot(env, str(two.directory))) == boxed, 'the boxes are unchanged')
    got = read_beads(r + '/final')
    if what == 'other files':
        env.check(env.all(len(got) == 1, got[0].name == 'other', got[0].content_id == 'o1'), 'the last is the web from the file')
        got = read_beads(r + '/before')
    if what.startswith('load'):
        env.check(env.all(len(got) == 1, got[0].name == 'other', got[0].content_id == 'o1'), 'it is the web from the file')
        return
    env.check(len([g for g in got if g.box_name in ('one', 'two')]) == n, 'it has every bead of the boxes')
    for s in beads:
        found = [g for g in got if env.all(g.name == s.name, g.content_id == s.content_id)]
        env.check(len(found) == 1, 'each bead is there once')
        g = found[0]
        env.check(env.all(g.kind == s.kind, g.freeze_time_str == s.freeze_time, g.box_name == s.box, len(g.inputs) == len(s.inputs)), 'as it is in its box')


def nothing(env):
    """without sub-commands usage is shown"""
    before = snapshot(env, env.root, ['config'])
    x = env.cli('web', cwd=env.root)
    env.reach('usage')
    env.check(env.all(x.code == 0, not x.internal, 'usage' in x.out), 'usage is shown')
    env.check(snapshot(env, env.root, ['config']) == before, 'nothing is written')
