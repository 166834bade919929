"""C41 saving stores the bead in exactly the box asked for"""
import os
from pathlib import Path
from bead.box import Box
from bead.workspace import Workspace
from bead.ziparchive import ZipArchive
from props.boxlib import new_box, save, index
from props.cmdlib import known_box, snapshot


def a_workspace(env, name='ws'):
    env.cli('new', name, cwd=env.root)
    with open(env.root + '/' + name + '/output/data', 'wb') as f:
        f.write(env.content('data'))
    return env.root + '/' + name


def zips_in(d):
    return sorted(f for f in os.listdir(d) if f.endswith('.zip')) if os.path.isdir(d) else []


def check_stored(env, d, before, ws):
    """one more archive, the bead of the workspace"""
    new = [f for f in zips_in(d) if f not in before]
    env.check(len(new) == 1, 'one archive is added')
    a = ZipArchive(d + '/' + new[0])
    a.validate()
    env.check(env.all(a.kind == Workspace(ws).kind, a.name == ws.split('/')[-1]), 'it is the bead of the workspace')
    beads = [b for b in Box('x', Path(d)).search().all() if b.content_id == a.content_id]
    env.check(len(beads) == 1, 'it is found in the box')
    return d + '/' + new[0]


def chosen(env, n, way='given', indexed=(), where='inside', lo=1, hi=1, forgotten=False, lost=None):
    """up to three boxes with any names are known"""
    r = env.root
    names, dirs = [], []
    for k in range(n):
        name = env.text('box%d' % k, [('!', '~')], lo, hi)
        env.assume(env.neg(name[:1] == '-'))
        for o in names:
            env.assume(env.neg(o == name))
        names.append(name)
        new_box(env, 'd%d' % k)
        dirs.append(r + '/d%d' % k)
        if k in indexed:
            index(Box('x', Path(dirs[k])))
        x = env.cli('box', 'add', name, 'd%d' % k, cwd=r)
    if forgotten:
        env.cli('box', 'forget', names[0], cwd=r)
    save(env, Box('x', Path(dirs[-1])), 'old', '20200101T000000000000+0000')
    if lost is not None:
        os.rename(dirs[lost], r + '/away')
    ws = a_workspace(env, env.text('workspace', [('a', 'z')], 1, 1))
    os.mkdir(r + '/home')
    env.setenv('HOME', r + '/home')
    live = list(range(1 if forgotten else 0, n))
    if way == 'given':
        asked = env.text('asked', [('!', '~')], lo, hi)
        env.assume(env.neg(asked[:1] == '-'))
        target = [k for k in live if names[k] == asked]
        args = ['save', asked]
    else:
        target = live if len(live) == 1 else []
        args = ['save']
    if lost in target:
        target = []
    if where == 'outside':
        args += ['-w', '../' + ws.split('/')[-1]]
        cwd = r + '/home'
    elif where == 'below':
        os.mkdir(ws + '/sub')
        cwd = ws + '/sub'
    else:
        cwd = ws
    before = [zips_in(d) for d in dirs]
    boxed = [snapshot(env, d, ['.index.sqlite']) if os.path.isdir(d) else None for d in dirs]
    made = snapshot(env, ws)
    config = snapshot(env, r + '/config')
    x = env.cli(*args, cwd=cwd)
    env.check(not x.internal, 'it does not crash')
    env.check(snapshot(env, ws) == made, 'the workspace is unchanged')
    env.check(env.all(snapshot(env, r + '/config') == config, os.listdir(r + '/home') == []), 'no box is made')
    for k in range(n):
        if k in target:
            env.reach('stored')
            env.check(x.code == 0, 'saving works')
            path = check_stored(env, dirs[k], before[k], ws)
            env.check(path in x.out, 'it is told where the bead is')
            kept = [e for e in snapshot(env, dirs[k], ['.index.sqlite']) if dirs[k] + '/' + e[0] != path]
            env.check(kept == boxed[k], 'what was in the box is kept')
        elif boxed[k] is None:
            env.check(not os.path.lexists(dirs[k]), 'a missing directory is not made')
        else:
            env.check(snapshot(env, dirs[k], ['.index.sqlite']) == boxed[k], 'other boxes are unchanged')
    if not target:
        env.reach('refused')
        env.check(env.all(x.code != 0, x.err != ''), 'it is refused')


HOME = ('nothing', 'directory', 'beads', 'file', 'link')


def first_box(env, what):
    """without boxes a new one is made"""
    r = env.root
    ws = a_workspace(env)
    home = r + '/home'
    os.mkdir(home)
    env.setenv('HOME', home)
    d = home + '/BeadBox'
    if what == 'directory':
        os.mkdir(d)
    elif what == 'beads':
        save(env, new_box(env, 'home', d), 'old', '20200101T000000000000+0000')
    elif what == 'file':
        Path(d).write_text('file')
    elif what == 'link':
        os.mkdir(r + '/elsewhere')
        os.symlink(r + '/elsewhere', d)
    before = zips_in(d)
    kept = snapshot(env, home)
    x = env.cli('save', cwd=ws)
    if what == 'file':
        env.reach('no place')
        env.check(x.code != 0, 'it is refused')
        env.check(snapshot(env, home) == kept, 'nothing is changed')
        y = env.cli('box', 'list', cwd=r)
        env.check('home' not in y.out.replace(home, ''), 'no box is remembered')
        return
    env.reach('first box')
    env.check(env.all(x.code == 0, not x.internal), 'saving works')
    path = check_stored(env, d, before, ws)
    y = env.cli('box', 'list', cwd=r)
    env.check(('home: ' + d) in y.out, 'the box is remembered')
    env.set_now(1600000060000000)
    before = zips_in(d)
    x = env.cli('save', cwd=ws)
    env.check(x.code == 0, 'saving works again')
    check_stored(env, d, before, ws)
    env.set_now(1600000120000000)
    before = zips_in(d)
    x = env.cli('save', 'home', cwd=ws)
    env.check(x.code == 0, 'the box can be named')
    check_stored(env, d, before, ws)


def no_workspace(env, what):
    """without workspace nothing is made"""
    r = env.root
    os.mkdir(r + '/home')
    env.setenv('HOME', r + '/home')
    os.mkdir(r + '/dir')
    if what == 'box':
        known_box(env, 'box')
    before = snapshot(env, r)
    x = env.cli('save', cwd=r + '/dir')
    env.reach('no workspace')
    env.check(env.all(x.code != 0, x.err != '', not x.internal), 'it is refused')
    env.check([e for e in snapshot(env, r) if not e[0].startswith('config')] == [e for e in before if not e[0].startswith('config')], 'nothing is made')
