"""C28 new and edit never overwrite an existing path"""
import os
from pathlib import Path
from bead.workspace import Workspace
from props.boxlib import save
from props.cmdlib import NAMES, known_box, snapshot, named_files, write_files

EXISTING = ('file', 'empty file', 'directory', 'empty directory', 'workspace', 'link to a file', 'link to a directory', 'link to a workspace', 'broken workspace', 'read only directory', 'link to itself')


def occupy(env, p, what):
    r = env.root
    if what == 'file':
        with open(p, 'wb') as f:
            f.write(env.content('content'))
    elif what == 'empty file':
        Path(p).write_text('')
    elif what in ('directory', 'read only directory'):
        os.mkdir(p)
        f = env.text('file', NAMES, 2, 2)
        env.assume(env.neg(f == '..'))
        with open(p + '/' + f, 'wb') as f:
            f.write(env.content('content'))
        if what != 'directory':
            os.chmod(p, 0o555)
    elif what == 'empty directory':
        os.mkdir(p)
    elif what in ('workspace', 'broken workspace'):
        Workspace(p).create('old')
        Path(p + '/file').write_text('old')
        if what != 'workspace':
            os.unlink(p + '/.bead-meta/bead')
    elif what == 'link to a file':
        Path(r + '/target').write_text('old')
        os.symlink(r + '/target', p)
    elif what == 'link to a directory':
        os.mkdir(r + '/target')
        os.symlink(r + '/target', p)
    elif what == 'link to a workspace':
        Workspace(r + '/target').create('old')
        os.symlink(r + '/target', p)
    elif what == 'link to itself':
        os.symlink(p.split('/')[-1], p)


def refused(env, x, before):
    env.check(x.code != 0, 'it fails')
    env.check(x.err != '', 'an error is reported')
    env.check([e for e in snapshot(env, env.root, ['config']) if not e[0].split('/')[-1].startswith('error_')] == before, 'everything is unchanged')


def existing(env, command, what, how):
    """the path is taken"""
    r = env.root
    box = known_box(env, 'box')
    s = save(env, box, 'name', '20200101T000000000000+0000', data='data', code='code')
    work = r + '/work'
    os.makedirs(work + '/sub')
    if command == 'new':
        args = ['new']
    elif command == 'review':
        args = ['edit', '--review', 'name']
    elif command == 'edit file':
        args = ['edit', str(s.path)]
    else:
        args = ['edit', 'name']
    if how == 'derived':
        p = work + '/name'
        if command == 'new':
            args.append('name')
    else:
        p = work + '/sub/dest'
        args.append({'relative': 'sub/dest', 'absolute': p, 'slash': 'sub/dest/', 'dots': 'sub/../sub/./dest'}[how])
    occupy(env, p, what)
    before = snapshot(env, r, ['config'])
    x = env.cli(*args, cwd=work)
    env.reach('existing')
    refused(env, x, before)


def names(env, alphabet, lo, hi, prefix='', after=''):
    """new with any name"""
    r = env.root
    os.mkdir(r + '/work')
    os.mkdir(r + '/work/sub')
    name = env.text('name', [tuple(a) if isinstance(a, list) else a for a in alphabet], lo, hi) + after
    env.assume(env.neg(name[:1] == '-'))
    env.assume(env.neg('/' in name))
    before = snapshot(env, r, ['config'])
    x = env.cli('new', prefix + name, cwd=r + '/work')
    bad = env.any('\\' in name, ':' in name, '__' in name, name == '', name == '.', name == '..')
    if x.code == 0:
        env.reach('created')
        env.check(env.neg(bad), 'names that are not portable are refused')
        d = r + '/work/' + prefix + name
        env.check(os.path.isdir(d) and Workspace(d).is_valid, 'the workspace is created')
        rel = ('work/' + ('' if '..' in prefix else prefix) + name)
        rest = [e for e in snapshot(env, r, ['config']) if not (e[0] == rel or e[0].startswith(rel + '/'))]
        env.check(rest == before, 'nothing else is created')
    else:
        env.reach('refused')
        refused(env, x, before)


def fresh(env, command, what):
    """a path that does not exist yet is fine"""
    r = env.root
    box = known_box(env, 'box')
    s = save(env, box, 'name', '20200101T000000000000+0000', data='data', code='code')
    work = r + '/work'
    os.mkdir(work)
    p = work + '/dest'
    occupy(env, work + '/destx', what)
    for beside in ('name', 'des'):
        Path(work + '/' + beside).write_text('x')
    before = snapshot(env, r, ['config'])
    args = ['new', 'dest'] if command == 'new' else ['edit', str(s.path), 'dest'] + (['--review'] if command == 'review' else [])
    x = env.cli(*args, cwd=work)
    env.reach('fresh')
    env.check(x.code == 0 and Workspace(p).is_valid, 'the workspace is created')
    env.check([e for e in snapshot(env, r, ['config']) if not (e[0] == 'work/dest' or e[0].startswith('work/dest/'))] == before, 'nothing else is changed')
