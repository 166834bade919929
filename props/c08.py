"""C08 a bead saved under an accepted name is found under exactly that name"""
import os
from pathlib import Path
from bead.box import Box
from bead.exceptions import BoxError
from bead.workspace import Workspace
from props.boxlib import new_box, reopened, index

ALL = [('\x01', '.'), ('0', '\ud7ff'), ('\ue000', '\uffff')]        # no slash, no surrogates
T = '20200101T000000000001+0000'


def the_name(env, label, n, alphabet, pre='', post=''):
    name = pre + env.text(label, alphabet, n, n) + post
    env.assume(env.neg(env.any(name == '.', name == '..')))
    return name


def attempt_save(env, box, name, t):
    """save a workspace of this name; the content id, or None if it is refused"""
    k = 0
    while os.path.exists(env.root + '/making%d' % k):
        k += 1
    parent = env.root + '/making%d' % k
    os.mkdir(parent)
    before = sorted(os.listdir(box.directory))
    try:
        ws = Workspace(parent + '/' + name)
        ws.create('kind')
        with open(str(ws.directory) + '/output/data', 'w') as f:
            f.write('data %d' % k)
        box.store(ws, t)
    except (BoxError, ValueError):
        env.reach('refused')
        env.check(sorted(os.listdir(box.directory)) == before, 'nothing is written when the name is refused')
        return None
    env.reach('accepted')
    return ws


def others(env, beads, name):
    return [b for b in beads if env.neg(b.name == name)]


def check_lookup(env, box, names, what=''):
    for b in (box, reopened(box)):
        for name in names:
            found = b.search().by_name(name).all()
            env.check(len(found) == 1, what + 'the bead is found by its name')
            env.check(found[0].name == name, what + 'the bead has its name')
            env.check(b.resolve(found[0]).name == name, what + 'the archive has its name')
        beads = b.search().all()
        env.check(len(beads) == len(names), what + 'all beads are there')


def check_not_under(env, box, q, what=''):
    for b in (box, reopened(box)):
        env.check(b.search().by_name(q).all() == [], what + 'it is not found by another name')


def one(env, n, alphabet=ALL, pre='', post='', how='raw', m=None):
    """a workspace with any name"""
    box = new_box(env)
    if how == 'before':
        index(box)
        box = reopened(box)
    name = the_name(env, 'name', n, alphabet, pre, post)
    if attempt_save(env, box, name, T) is None:
        return
    if how == 'after':
        index(box)
        box = reopened(box)
    check_lookup(env, box, [name])
    q = env.text('q', alphabet, 1, n) if m is None else pre + env.text('q', alphabet, m, m) + post
    env.assume(env.neg(q == name))
    check_not_under(env, box, q)


def pair(env, a, b, alphabet, tail='', how='raw'):
    """two beads whose names differ, maybe one begins with the other"""
    box = new_box(env)
    if how == 'before':
        index(box)
        box = reopened(box)
    x = the_name(env, 'x', a, alphabet)
    y = (x if tail else '') + the_name(env, 'y', b, alphabet, tail)
    env.assume(env.neg(x == y))
    names = [n for n, t in ((x, T), (y, T)) if attempt_save(env, box, n, t) is not None]
    if how == 'after':
        index(box)
        box = reopened(box)
    env.reach('pair')
    check_lookup(env, box, names)


def command(env, n, alphabet=ALL, pre='', post='', rename=False):
    """new and save from the command line"""
    name = the_name(env, 'name', n, alphabet, pre, post)
    env.assume(env.neg(name[0] == '-'))
    r = env.root
    os.mkdir(r + '/box')
    os.mkdir(r + '/work')
    env.cli('box', 'add', 'box', 'box', cwd=r)
    x = env.cli('new', 'ok' if rename else name, cwd=r + '/work')
    env.check(not x.internal, 'no internal error')
    if x.code != 0:
        env.reach('new refused')
        env.check(os.listdir(r + '/work') == [], 'nothing is created when the name is refused')
        return
    if rename:
        os.rename(r + '/work/ok', r + '/work/' + name)
    env.check(os.listdir(r + '/work') == [name], 'the workspace has the name')
    x = env.cli('save', cwd=r + '/work/' + name)
    env.check(not x.internal, 'no internal error')
    if x.code != 0:
        env.reach('save refused')
        env.check(rename, 'a name accepted by new can be saved')
        env.check(os.listdir(r + '/box') == [], 'nothing is written when the name is refused')
        return
    env.reach('saved')
    check_lookup(env, Box('box', Path(r + '/box')), [name])
    # it can be used from the command line by its name
    x = env.cli('edit', name, 'again', cwd=r)
    env.check(x.code == 0, 'it can be edited by its name')
    q = pre + env.text('q', alphabet, n, n) + post
    env.assume(env.neg(env.any(q == name, q == '.', q == '..')))
    check_not_under(env, Box('box', Path(r + '/box')), q)
