"""C44 indexing reports success only when the index is complete"""
import os
import shutil
from pathlib import Path
from bead.box import Box
from bead.box_index import BoxIndex
from bead.exceptions import BoxIndexError
from props.boxlib import new_box, save, index, check_found
from props.cmdlib import known_box

def fill(env, d, state, vs):
    shutil.copy(vs[0].path, d + '/' + vs[0].path.name)
    if state in ('shrunk', 'swapped'):
        shutil.copy(vs[1].path, d + '/' + vs[1].path.name)
    if state != 'plain':
        index(Box('x', Path(d)))
    if state == 'shrunk':
        os.unlink(d + '/' + vs[1].path.name)
        return vs[:1]
    if state == 'complete':
        return vs[:1]
    if state == 'swapped':
        os.unlink(d + '/' + vs[0].path.name)
        shutil.copy(vs[2].path, d + '/' + vs[2].path.name)
        env.junk_file(d + '/junk.zip')
        return vs[1:]
    shutil.copy(vs[1].path, d + '/' + vs[1].path.name)
    shutil.copy(vs[2].path, d + '/' + vs[2].path.name)
    return vs


def hinder(env, d, how):
    i = d + '/.index.sqlite'
    if how == 'read-only box':
        os.chmod(d, 0o555)
    elif how == 'read-only index':
        os.chmod(i, 0o444)
    elif how == 'unreadable index':
        os.chmod(i, 0)
    elif how in ('junk index', 'directory'):
        if os.path.exists(i):
            os.unlink(i)
        if how == 'junk index':
            env.junk_file(i)
        else:
            os.mkdir(i)
    elif how == 'read-only both':
        os.chmod(i, 0o444)
        os.chmod(d, 0o555)


def lift(d, how):
    i = d + '/.index.sqlite'
    os.chmod(d, 0o755)
    if os.path.isfile(i):
        os.chmod(i, 0o644)


def complete(env, d, beads, what):
    """what is claimed of an index"""
    i = d + '/.index.sqlite'
    env.check(os.path.isfile(i), what + ': there is an index')
    try:
        found = BoxIndex(d).get_beads([], 'x')
    except BoxIndexError:
        found = None
    env.check(found is not None, what + ': the index can be read')
    check_found(env, found, beads, what + ': ', 'x')
    for b in found:
        p = BoxIndex(d).get_file_path(b.name, b.content_id)
        env.check(p.exists(), what + ': the archives are found')


def hindered(env, command, which, state, how, last=0, n=2):
    """something keeps the command from writing the index"""
    r = env.root
    other = new_box(env, 'elsewhere')
    spec = [('in', 'ik', env.atom('in.cid'), '20200101T000000000005+0000'), ('in2', 'ik2', 'ic2', '20200101T000000000006+0000')]
    vs = [save(env, other, 'v%d' % k, '20200101T00000000000%d+0000' % k, env.atom('kind%d' % k), spec[k:], data='data%d' % k) for k in range(3)]
    boxes = []
    for k in range(n):
        box = known_box(env, 'box%d' % k)
        d = str(box.directory)
        boxes.append((d, fill(env, d, state if k == 0 else 'plain', vs)))
    d, beads = boxes[0]
    args = {'all': ['--all'], 'box': ['--box', 'box0'], 'dir': ['--dir', d], 'none': []}[which]
    at = None
    if how in ('full', 'locked'):
        at = env.num('statement', 0, last)
        env.sql_fault(at, 'database is locked' if how == 'locked' else 'database or disk is full', how == 'full')
    else:
        hinder(env, d, how)
    x = env.cli('box', command, *args, cwd=r)
    hit = env.sql_fault(None)
    if at is not None:
        env.assume(hit or at == last)
    lift(d, how)
    # one report for each box
    reports = [l for l in x.out.split('\n') if 'Done' in l or 'Failed' in l]
    targets = boxes if which == 'all' else boxes[:1]
    env.check(x.internal is False, 'no crash')
    env.check(len(reports) == len(targets), 'the outcome of each box is reported')
    done = 0
    for (d, beads), report in zip(targets, reports):
        if 'Done' in report:
            done += 1
            env.reach('done')
            complete(env, d, beads, 'reported as done')
        else:
            env.reach('failed')
            env.check(hit or d == boxes[0][0] and at is None, 'only what is hindered fails')
    if which == 'all':
        env.check(('%d/%d' % (done, n)) in x.out, 'the count is of the boxes done')
    # it is made up for
    if how == 'directory':
        d, beads = boxes[0]
        if os.path.isdir(d + '/.index.sqlite'):
            os.rmdir(d + '/.index.sqlite')
    x = env.cli('box', 'reindex' if how == 'junk index' else command, *args, cwd=r)
    env.check('Failed' not in x.out and 'Done' in x.out, 'it works afterwards')
    for d, beads in targets:
        complete(env, d, beads, 'afterwards')
