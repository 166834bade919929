"""C40 box index and reindex act on exactly the boxes asked for"""
import os
import shutil
from pathlib import Path
from bead.box import Box
from props.boxlib import new_box, save, index, check_found
from props.cmdlib import known_box, snapshot

STATES = ('plain', 'indexed', 'grown', 'shrunk', 'swapped', 'empty', 'junk', 'missing', 'file')


def versions(env):
    other = new_box(env, 'elsewhere')
    return [save(env, other, 'v%d' % k, '20200101T00000000000%d+0000' % k, env.atom('kind%d' % k), data='data%d' % k) for k in range(2)]


def fill(env, d, state, vs):
    """what the box has (None: it is not a box)"""
    name = [v.path.name for v in vs]
    if state in ('empty',):
        return []
    if state == 'missing':
        os.rmdir(d)
        return None
    if state == 'file':
        os.rmdir(d)
        Path(d).write_text('x')
        return None
    shutil.copy(vs[0].path, d + '/' + name[0])
    if state == 'junk':
        env.junk_file(d + '/junk.zip')
        return vs[:1]
    if state == 'plain':
        shutil.copy(vs[1].path, d + '/' + name[1])
        return vs
    if state == 'shrunk':
        shutil.copy(vs[1].path, d + '/' + name[1])
    index(Box('x', Path(d)))
    if state == 'grown':
        shutil.copy(vs[1].path, d + '/' + name[1])
        return vs
    if state == 'swapped':
        os.unlink(d + '/' + name[0])
        shutil.copy(vs[1].path, d + '/v1.zip')
        return vs[1:]
    if state == 'shrunk':
        os.unlink(d + '/' + name[1])
        return vs[:1]
    return vs[:1]


def refs(d):
    return sorted((b.name, b.content_id) for b in Box('x', Path(d)).search().all()) if os.path.isdir(d) else None


def found(env, d, beads, what):
    check_found(env, Box('x', Path(d)).search().all(), beads, what, 'x')


def known(env, command, which, n=2, states=STATES, second=None):
    """some of the known boxes, or a directory, is indexed"""
    r = env.root
    vs = versions(env)
    boxes = []
    for k in range(n):
        box = known_box(env, 'box%d' % k)
        d = str(box.directory)
        state = second if k and second else env.pick('state%d' % k, list(states))
        actual = fill(env, d, state, vs)
        boxes.append((d, state, actual))
    os.mkdir(r + '/plain')
    shutil.copy(vs[0].path, r + '/plain/x_20200101.zip')
    target = None
    if which == 'all':
        args, target = ['--all'], list(range(n))
    elif which == 'none':
        args = []
        target = [0] if n == 1 else []
    elif which == 'unknown':
        args, target = ['--box', 'box'], []
    elif which == 'directory':
        k = env.num('which', 0, n - 1)
        args, target = ['--dir', os.path.basename(boxes[k][0])], [k]
    elif which == 'elsewhere':
        args, target = ['--dir', r + '/plain'], []
    elif which == 'no directory':
        args, target = ['--dir', 'nowhere'], []
    elif which == 'two':
        args, target = ['--box', 'box0', '--all'], []
    else:
        k = env.num('which', 0, n - 1)
        args, target = ['--box', 'box%d' % k], [k]
    before = [snapshot(env, b[0], ['.index.sqlite']) for b in boxes]
    seen_before = [refs(b[0]) for b in boxes]
    rest = snapshot(env, r, [os.path.basename(b[0]) for b in boxes] + ['config', 'plain'])
    # without any box the registry is yet to be created
    config = snapshot(env, r + '/config') if n else None
    x = env.cli('box', command, *args, cwd=r)
    env.reach(which)
    env.check(not x.internal, 'it does not crash')
    env.check(config is None or snapshot(env, r + '/config') == config, 'the registry is unchanged')
    env.check(snapshot(env, r, [os.path.basename(b[0]) for b in boxes] + ['config', 'plain']) == rest, 'nothing else is changed')
    for k in range(n):
        d, state, actual = boxes[k]
        env.check(snapshot(env, d, ['.index.sqlite']) == before[k], 'the archives are unchanged')
        if actual is None:
            env.check(not os.path.isdir(d), 'what is no box is left alone')
        elif k in target:
            env.check(os.path.isfile(d + '/.index.sqlite'), 'the box has an index')
            found(env, d, actual, 'indexed: ')
        else:
            env.check(os.path.lexists(d + '/.index.sqlite') == (state in ('indexed', 'grown', 'shrunk', 'swapped')), 'other boxes get no index')
            env.check(refs(d) == seen_before[k], 'other boxes answer as before')
    if which == 'elsewhere':
        env.check(os.path.isfile(r + '/plain/.index.sqlite'), 'the directory has an index')
        got = Box('x', Path(r + '/plain')).search().all()
        env.check(env.all(len(got) == 1, got[0].content_id == vs[0].content_id), 'the bead is found')
    else:
        env.check(not os.path.lexists(r + '/plain/.index.sqlite'), 'other directories get no index')
    if which in ('unknown', 'no directory', 'two') or (which == 'none' and n != 1):
        env.check('error' in (x.out + x.err).lower(), 'it is told that there is nothing to do')
    elif which == 'all':
        env.check(('✗' not in x.out) or env.any(*[b[2] is None for b in boxes]), 'nothing fails needlessly')


def repeated(env, first, second, states=('plain', 'grown', 'shrunk', 'swapped', 'junk')):
    """indexing again changes nothing"""
    r = env.root
    vs = versions(env)
    box = known_box(env, 'box')
    d = str(box.directory)
    actual = fill(env, d, env.pick('state', list(states)), vs)
    env.cli('box', first, cwd=r)
    found(env, d, actual, 'once: ')
    env.cli('box', second, '--dir', 'box', cwd=r)
    env.reach('repeated')
    found(env, d, actual, 'twice: ')
    shutil.copy(vs[1].path, d + '/copy_20200303.zip')
    x = env.cli('box', second, '--all', cwd=r)
    names = [b.content_id for b in Box('x', Path(d)).search().all()]
    env.check(env.any(*[c == vs[1].content_id for c in names]), 'what is added is found')


def nested(env, command, which):
    """a box in another one, and one beside it whose name starts with that of the other"""
    r = env.root
    vs = versions(env)
    places = ['outer', 'outer/inner', 'outer2']
    order = env.pick('order', [[0, 1, 2], [1, 0, 2], [2, 1, 0]])
    for k in range(3):
        os.mkdir(r + '/' + places[k])
        shutil.copy(vs[k % 2].path, r + '/' + places[k] + '/' + vs[k % 2].path.name)
    for k in order:
        env.cli('box', 'add', 'box%d' % k, places[k], cwd=r)
    stale = env.flag('stale')
    if stale:
        # all have an index, and another bead since then
        env.cli('box', 'index', '--all', cwd=r)
        for k in range(3):
            shutil.copy(vs[1 - k % 2].path, r + '/' + places[k] + '/' + vs[1 - k % 2].path.name)
    target = list(range(3))
    args = ['--all']
    if which != 'all':
        k = env.num('which', 0, 2)
        target = [k]
        args = ['--box', 'box%d' % k] if which == 'box' else ['--dir', places[k]]
    x = env.cli('box', command, *args, cwd=r)
    env.reach('nested')
    env.check(not x.internal, 'it does not crash')
    for k in range(3):
        d = r + '/' + places[k]
        here = [vs[k % 2]] + ([vs[1 - k % 2]] if stale else [])
        if k in target:
            env.check(os.path.isfile(d + '/.index.sqlite'), 'the box has an index')
            found(env, d, here, 'indexed: ')
        else:
            env.check(os.path.lexists(d + '/.index.sqlite') == stale, 'other boxes get no index')
            found(env, d, here[:1], 'as before: ')
