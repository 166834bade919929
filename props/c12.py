"""C12 the box index reflects the archives of the box"""
import os
import shutil
from pathlib import Path
from bead.box import Box
from bead.box_index import BoxIndex
from bead.workspace import Workspace
from props.boxlib import new_box, save, reopened, index, check_found, same_bead
from props.weblib import stamp

IT = '20200101T000000000005+0000'


def elsewhere(env, n, names, inputs):
    """beads in another directory, to be copied from there, and the workspaces they are made of"""
    other = new_box(env, 'elsewhere')
    out = []
    for i in range(n):
        specs = [('in%d' % j, 'ik%d' % j, env.atom('in%d%d.cid' % (i, j)), IT) for j in range(inputs[i])]
        out.append(save(env, other, names[i], '20200101T00000000000%d+0000' % i, env.atom('kind%d' % i), specs, data='data%d' % i))
    return out


def check_index(env, box, expected, exact, what):
    for b in (box, reopened(box)):
        got = b.search().all()
        if exact:
            check_found(env, got, expected, what, 'box')
        else:
            for s in expected:
                env.check(len([g for g in got if same_bead(env, g, s)]) == 1, what + 'every bead that was not touched is found once')
        for s in expected:
            env.check(b.resolve([g for g in got if same_bead(env, g, s)][0]).location == str(box.directory) + '/' + s.file, what + 'the archive is found')


def history(env, steps, first='index', names=('a', 'ab', 'a'), inputs=(1, 0, 2), how='index', keep=False):
    """saves, copies, removals and renames of archives around index updates"""
    box = new_box(env, 'the box')
    box = Box('box', box.location)
    d = str(box.directory)
    n = len(names)
    beads = elsewhere(env, n, names, inputs)
    if first == 'index':
        index(box)
    elif first == 'save':
        index(box)
        box = reopened(box)
    box = reopened(box)
    present = []                # beads whose archives are in the box
    touched = []                # beads whose archives came, went or moved since the last update
    indexed = first is not None
    seen = 0
    for k in range(steps):
        ops = []
        if len(present) < n:
            ops += ['save', 'copy']
        if present:
            ops += ['delete', 'rename']
        ops.append('update')
        op = env.pick('op%d' % k, ops)
        if op in ('save', 'copy'):
            absent = [s for s in beads if s not in present]
            s = absent[env.num('bead%d' % k, 0, len(absent) - 1)]
            s.file = s.path.name
            if op == 'save':
                env.reach('saved')
                # the workspace the bead is made of
                ws = Workspace(env.root + '/making%d/%s' % (beads.index(s), s.name))
                p = box.store(ws, s.freeze_time)
                env.check(str(p) == d + '/' + s.file, 'the archive is in the box')
                if s in touched:
                    touched.remove(s)
                if not indexed:
                    touched.append(s)
            else:
                env.reach('copied')
                shutil.copy(s.path, d)
                if s not in touched:
                    touched.append(s)
            present.append(s)
        elif op in ('delete', 'rename'):
            s = present[env.num('bead%d' % k, 0, len(present) - 1)]
            if op == 'delete':
                env.reach('deleted')
                os.unlink(d + '/' + s.file)
                present.remove(s)
            else:
                env.reach('renamed')
                new = '%s_2020010%d.zip' % (s.name, k + 1)
                os.rename(d + '/' + s.file, d + '/' + new)
                s.file = new
            if s not in touched:
                touched.append(s)
        else:
            update(env, box, how, k)
            touched = []
            indexed = True
            if keep:
                # seen by a program that has been running
                check_found(env, box.search().all(), present, 'still open: ', 'box')
            box = reopened(box)
        if indexed:
            check_index(env, box, [s for s in present if s not in touched], not touched, '')
    if touched or not indexed:
        update(env, box, how, 'end')
        box = reopened(box)
        check_index(env, box, present, True, 'finally: ')
    env.reach('history')


def update(env, box, how, k):
    if how == 'index':
        index(box)
    elif how == 'rebuild':
        BoxIndex(box.directory).rebuild()
    else:
        if env.flag('rebuild%s' % k):
            BoxIndex(box.directory).rebuild()
        else:
            index(box)


def any_place(env, n, alphabet, pre='', post='', rebuild=False, command=False):
    """the box may be anywhere: any characters in the name of its directory"""
    name = pre + env.text('dir', alphabet, n, n) + post
    env.assume(env.neg(env.any(name == '.', name == '..')))
    d = env.root + '/x/' + name
    os.makedirs(d)
    box = Box('box', Path(d))
    a = save(env, box, 'a', '20200101T000000000001+0000', 'k', [('in', 'ik', 'ic', IT)], data='a')
    a.file = a.path.name
    if command:
        env.assume(env.neg(name[0] == '-'))
        x = env.cli('box', 'add', 'box', name, cwd=env.root + '/x')
        env.check(x.code == 0, 'box add')
        x = env.cli('box', 'reindex' if rebuild else 'index', cwd=env.root + '/x')
        env.check(env.all(x.code == 0, env.neg('Failed' in x.out)), 'box index')
    elif rebuild:
        BoxIndex(box.directory).rebuild()
    else:
        index(box)
    env.reach('any place')
    env.check(os.path.exists(d + '/.index.sqlite'), 'the index is in the box')
    box = reopened(box)
    check_index(env, box, [a], True, 'created: ')
    b = save(env, box, 'b', '20200101T000000000002+0000', 'k', data='b')
    b.file = b.path.name
    check_index(env, box, [a, b], True, 'saved: ')
    os.unlink(a.path)
    if command:
        env.cli('box', 'index', '--dir', d, cwd=env.root)
    else:
        index(box)
    check_index(env, box, [b], True, 'updated: ')
    env.check(sorted(os.listdir(env.root + '/x')) == [name], 'nothing is written elsewhere')


def commands(env, arg):
    """indexes of several boxes from the command line"""
    r = env.root
    boxes = []
    stored = []
    for k in range(2):
        b = new_box(env, 'box%d' % k)
        stored.append(save(env, b, 'a', '20200101T000000000001+0000', env.atom('kind%d' % k), [('in', 'ik', 'ic', IT)], data='%d' % k))
        stored[k].file = stored[k].path.name
        env.cli('box', 'add', 'box%d' % k, 'box%d' % k, cwd=r)
        boxes.append(b)
    op = env.pick('op', ['index', 'reindex'])
    if env.flag('indexed before'):
        index(boxes[1])
    if env.flag('removed'):
        os.unlink(stored[1].path)
        stored.pop()
    for again in range(env.num('times', 1, 2)):
        x = env.cli('box', op, *(['--all'] if arg == 'all' else [arg, 'box1']), cwd=r)
        env.check(env.all(x.code == 0, env.neg('Failed' in x.out), env.neg('ERROR' in x.out)), 'it works')
    env.reach('command')
    b = reopened(boxes[1])
    check_found(env, b.search().all(), stored[1:])
    check_found(env, reopened(boxes[0]).search().all(), stored[:1])
    if arg == 'all' and op == 'index':
        env.check(os.path.exists(r + '/box0/.index.sqlite'), 'all are indexed')
    if len(stored) > 1 or op == 'index':
        env.check(os.path.exists(r + '/box1/.index.sqlite'), 'it is indexed')


def foreign(env):
    """files that are not valid beads are not in the index, whatever is done"""
    box = new_box(env)
    a = save(env, box, 'a', '20200101T000000000001+0000', 'k', [('in', 'ik', 'ic', IT)], data='a')
    b = save(env, box, 'b', '20200101T000000000002+0000', 'k', data='b')
    what = env.pick('what', ['data', 'junk', 'truncated', 'future'])
    p = str(box.directory) + '/c_20200101.zip'
    if env.flag('indexed before'):
        index(box)
    stored = [a, b]
    if what == 'junk':
        env.junk_file(p)
    elif what == 'truncated':
        shutil.copy(a.path, p)
        env.truncate_file(p)
    elif what == 'data':
        shutil.copy(a.path, p)
        env.damage_entry(p, 'data/data')
    else:
        c = save(env, box, 'c', '20990101T000000000002+0000', 'k', data='c')
    for k in range(2):
        op = env.pick('op%d' % k, ['index', 'rebuild'])
        if op == 'index':
            index(box)
        else:
            BoxIndex(box.directory).rebuild()
        env.reach('foreign')
        check_found(env, reopened(box).search().all(), stored)
