"""C19 the set of known boxes is remembered exactly"""
import os
from pathlib import Path
from bead_cli.environment import Environment
from props.cmdlib import snapshot

ANY = [('\x01', '\ud7ff')]


def known(env):
    """what the tool knows now, in a program run of its own"""
    e = Environment.from_dir(env.root + '/config')
    return [(b.name, str(b.directory)) for b in e.get_boxes()]


def check_known(env, model, what=''):
    got = known(env)
    env.check(len(got) == len(model), what + 'exactly the boxes added and not forgotten are known')
    for k in range(len(model)):
        env.check(env.all(got[k][0] == model[k][0], got[k][1] == model[k][1]), what + 'boxes are known in order, with their names and directories')
    x = env.cli('box', 'list', cwd=env.root)
    env.check(x.code == 0, what + 'listing works')
    if model:
        lines = ['Boxes:\n-------------\n']
        for n, d in model:
            lines += [n, ': ', d, '\n']
        env.check(x.out == ''.join(lines), what + 'all boxes are listed')
    else:
        env.check('no defined boxes' in x.out, what + 'there are no boxes')


def directory(env, label, kinds):
    """a directory as given, and what is to be known; None: can not be a box"""
    r = env.root
    kind = env.pick(label, list(kinds))
    if kind in ('missing', 'file', 'dangling'):
        return kind, None
    if kind in ('one', 'two', 'sub', 'sub/dir', 'sub/dir2'):
        return kind, r + '/' + kind
    if kind == 'here':
        return '.', r
    if kind == 'absolute one':
        return r + '/one', r + '/one'
    if kind == 'one again':
        return 'two/../one/', r + '/one'
    if kind == 'link to two':
        return 'link', r + '/two'
    return './sub/dir', r + '/sub/dir'


def world(env):
    r = env.root
    for d in ('one', 'two', 'sub', 'sub/dir', 'sub/dir2'):
        os.mkdir(r + '/' + d)
    os.symlink('two', r + '/link')
    os.symlink('nowhere', r + '/dangling')
    Path(r + '/file').write_text('x')


def name_of(env, label, alphabet, lo, hi):
    n = env.text(label, [tuple(a) if isinstance(a, list) else a for a in alphabet], lo, hi)
    env.assume(env.neg(n[:1] == '-'))
    return n


def sequence(env, ops, alphabet=('ab',), lo=1, hi=1, kinds=('one', 'two', 'dir', 'link to two', 'one again', 'missing', 'file')):
    """boxes are added (a) and forgotten (f)"""
    world(env)
    r = env.root
    model = []
    for k in range(len(ops)):
        n = name_of(env, 'name%d' % k, alphabet, lo, hi)
        before = known(env)
        if ops[k] == 'a':
            given, d = directory(env, 'directory%d' % k, kinds)
            x = env.cli('box', 'add', n, given, cwd=r)
            taken = False
            for m, e in model:
                if m == n or e == d:
                    taken = True
            if d is None or taken:
                env.reach('refused')
                env.check('ERROR' in x.out or x.code != 0, 'adding is refused')
            else:
                env.reach('added')
                env.check('ERROR' not in x.out and x.code == 0, 'adding works')
                model.append((n, d))
        else:
            x = env.cli('box', 'forget', n, cwd=r)
            env.reach('forgotten')
            left = []
            for m, e in model:
                if not m == n:
                    left.append((m, e))
            env.check(('WARNING' in x.out) == (len(left) == len(model)), 'forgetting an unknown box is reported')
            model = left
        check_known(env, model)


def odd_names(env, alphabet, lo, hi, dlo, dhi):
    """any name, any directory name"""
    r = env.root
    n = name_of(env, 'name', alphabet, lo, hi)
    d = env.text('directory', [('\x01', '.'), ('0', '\ud7ff')], dlo, dhi)
    env.assume(env.neg(env.any(d == '.', d == '..', d[:1] == '-', d == 'config', d == 'sub')))
    os.mkdir(r + '/' + d)
    os.mkdir(r + '/sub')
    x = env.cli('box', 'add', 'first', '../' + d, cwd=r + '/sub')
    check_known(env, [('first', r + '/' + d)])
    x = env.cli('box', 'forget', 'first', cwd=r)
    x = env.cli('box', 'add', n, d, cwd=r)
    env.reach('odd')
    check_known(env, [(n, r + '/' + d)])
    x = env.cli('box', 'add', 'x' + n, r + '/sub', cwd=r)
    check_known(env, [(n, r + '/' + d), ('x' + n, r + '/sub')])
    x = env.cli('box', 'forget', n, cwd=r)
    env.check('WARNING' not in x.out, 'the name is known')
    check_known(env, [('x' + n, r + '/sub')])


def used(env, way):
    """commands that use or index a box leave the registry as it is"""
    r = env.root
    world(env)
    env.cli('box', 'add', 'a', 'one', cwd=r)
    env.cli('box', 'add', 'b', 'two', cwd=r)
    env.cli('new', 'ws', cwd=r)
    n = env.pick('box', ['a', 'b', 'c'])
    if way == 'save':
        env.cli('save', n, cwd=r + '/ws')
    elif way == 'index':
        env.cli('box', 'index', '--box', n, cwd=r)
    elif way == 'reindex':
        env.cli('box', 'reindex', '--box', n, cwd=r)
    elif way == 'gone':
        os.rmdir(r + '/one')
        env.cli('status', cwd=r + '/ws')
    elif way == 'default':
        env.cli('box', 'forget', 'b', cwd=r)
        env.cli('save', cwd=r + '/ws')
        check_known(env, [('a', r + '/one')])
        return
    elif way == 'home':
        env.cli('box', 'forget', 'a', cwd=r)
        env.cli('box', 'forget', 'b', cwd=r)
        os.mkdir(r + '/home')
        env.setenv('HOME', r + '/home')
        x = env.cli('save', cwd=r + '/ws')
        env.check(x.code == 0, 'saving makes a box')
        check_known(env, [('home', r + '/home/BeadBox')])
        env.check(len(os.listdir(r + '/home/BeadBox')) == 1, 'the bead is there')
        return
    env.reach('used')
    check_known(env, [('a', r + '/one'), ('b', r + '/two')])
