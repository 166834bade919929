"""C18 deleting never reaches outside the directory to be deleted"""
import os
from pathlib import Path
from bead.workspace import Workspace
from props.boxlib import save
from props.cmdlib import known_box, snapshot, files_of, owner_read_only

KINDS = ('file', 'read only file', 'link to a file', 'link to a directory', 'read only directory', 'directory of links', 'dangling link', 'link to itself', 'link to the workspace', 'link to the outside', 'hidden')


def outside(env):
    """files that must not change"""
    o = env.root + '/outside'
    os.makedirs(o + '/dir/sub')
    Path(o + '/file').write_text('precious')
    Path(o + '/read only').write_text('precious')
    Path(o + '/dir/file').write_text('precious')
    os.chmod(o + '/read only', 0o444)
    os.chmod(o + '/dir/sub', 0o555)
    os.chmod(o + '/dir', 0o555)
    return o


def entry(env, d, name, kind, ws):
    """put something into a directory"""
    o = env.root + '/outside'
    p = d + '/' + name
    if kind in ('file', 'read only file'):
        with open(p, 'wb') as f:
            f.write(env.content('content of ' + name))
        if kind != 'file':
            os.chmod(p, 0o444)
    elif kind == 'link to a file':
        os.symlink(o + '/read only', p)
    elif kind == 'link to a directory':
        os.symlink(o + '/dir', p)
    elif kind == 'read only directory':
        os.mkdir(p)
        Path(p + '/file').write_text('x')
        os.mkdir(p + '/sub')
        Path(p + '/sub/file').write_text('x')
        os.chmod(p + '/sub', 0o555)
        os.chmod(p, 0o555)
    elif kind == 'directory of links':
        os.mkdir(p)
        os.symlink(o + '/dir', p + '/d')
        os.symlink(o + '/file', p + '/f')
        os.chmod(p, 0o555)
    elif kind == 'dangling link':
        os.symlink('nothing', p)
    elif kind == 'link to itself':
        os.symlink(name, p)
    elif kind == 'link to the workspace':
        os.symlink(ws, p)
    elif kind == 'link to the outside':
        os.symlink('/'.join(['..'] * (len(d.split('/')) - len(env.root.split('/')))) + '/outside', p)
    else:
        Path(d + '/.' + name).write_text('hidden')


def fill(env, d, n, ws, kinds=KINDS, first=None):
    for k in range(n):
        kind = kinds[first] if k == 0 and first is not None else env.pick('kind of e%d' % k, list(kinds))
        entry(env, d, 'e%d' % k, kind, ws)


def the_rest(env, but):
    """everything outside of a path"""
    s = snapshot(env, env.root, ['config'])
    return [e for e in s if not (e[0] == but or e[0].startswith(but + '/'))]


def discard(env, n, how, first=None, place=''):
    """a workspace is discarded"""
    r = env.root
    outside(env)
    os.mkdir(r + '/work')
    rel = 'work/ws2/sub' if how == 'forced part' else 'work/ws'
    ws = r + '/' + rel
    env.cli('new', 'ws2', cwd=r + '/work')
    if how in ('forced directory', 'forced part'):
        os.mkdir(ws)
    else:
        env.cli('new', 'ws', cwd=r + '/work')
    Path(r + '/work/file').write_text('beside')
    d = ws + place
    if place == '/input':
        os.chmod(d, 0o755)
    fill(env, d, n, ws, first=first)
    if place == '/input':
        os.chmod(d, 0o555)
    before = the_rest(env, rel)
    if how == 'inside':
        x = env.cli('discard', cwd=ws)
    elif how == 'below':
        os.makedirs(ws + '/deep/deeper')
        x = env.cli('discard', cwd=ws + '/deep/deeper')
    elif how == 'given':
        x = env.cli('discard', 'ws', cwd=r + '/work')
    elif how == 'forced':
        x = env.cli('discard', '--force', 'work/ws', cwd=r)
    elif how == 'forced broken':
        os.unlink(ws + '/.bead-meta/bead')
        x = env.cli('discard', '-f', 'work/ws', cwd=r)
    elif how == 'nuke':
        x = env.cli('nuke', '../ws', cwd=r + '/work/ws2')
    elif how == 'forced directory':
        x = env.cli('discard', '--force', '../ws', cwd=r + '/work/ws2')
    elif how == 'forced part':
        x = env.cli('discard', '-f', 'sub', cwd=r + '/work/ws2')
    elif how == 'from another':
        x = env.cli('discard', '../ws', cwd=r + '/work/ws2')
    env.reach('discarded')
    env.check(x.code == 0, 'discarding works')
    env.check(not os.path.lexists(ws), 'the workspace is removed')
    env.check(the_rest(env, rel) == before, 'nothing else is removed or changed')


def refused(env, what, how='given', first=None):
    """what is not a valid workspace is not removed without force"""
    r = env.root
    outside(env)
    os.mkdir(r + '/work')
    ws = r + '/work/ws'
    if what not in ('nothing', 'file', 'directory', 'empty', 'dangling'):
        env.cli('new', 'ws', cwd=r + '/work')
    if what == 'file':
        Path(ws).write_text('file')
    elif what == 'dangling':
        os.symlink('nowhere', ws)
    elif what in ('directory', 'empty'):
        os.mkdir(ws)
        if what == 'directory':
            fill(env, ws, 1, ws, first=first)
    elif what == 'no metadata':
        os.unlink(ws + '/.bead-meta/bead')
    elif what == 'metadata is a directory':
        os.unlink(ws + '/.bead-meta/bead')
        os.mkdir(ws + '/.bead-meta/bead')
    elif what.startswith('no '):
        d = ws + '/' + what[3:]
        os.chmod(d, 0o755)
        os.rmdir(d)
    elif what.startswith('file '):
        d = ws + '/' + what[5:]
        os.rmdir(d)
        Path(d).write_text('')
    elif what == 'below metadata':
        ws = ws + '/.bead-meta'
    elif what == 'parent':
        ws = r + '/work'
    before = snapshot(env, r, ['config'])
    if how == 'given':
        x = env.cli('discard', ws, cwd=r)
    else:
        x = env.cli('discard', cwd=ws)
    env.reach('refused')
    env.check(x.code != 0, 'discarding is refused')
    env.check([e for e in snapshot(env, r, ['config']) if not e[0].startswith('error_')] == before, 'nothing is changed')


def data(env, n, command, first=None, top='directory', loaded=True, partial=False, other_kind='file'):
    """an input with any tree of files in place of its data is unloaded, deleted or replaced"""
    r = env.root
    outside(env)
    box = known_box(env, 'box')
    v1 = save(env, box, 'b', '20200101T000000000000+0000', data='one')
    v2 = save(env, box, 'b', '20200102T000000000000+0000', data='two')
    env.cli('new', 'ws', cwd=r)
    ws = r + '/ws'
    x = env.cli('input', 'add', 'in', str(v1.path), cwd=ws)
    x = env.cli('input', 'add', 'other', str(v1.path), cwd=ws)
    env.check(x.code == 0, 'add works')
    os.chmod(ws + '/input', 0o755)
    entry(env, ws, 'beside', other_kind, ws)
    os.chmod(ws + '/input/other', 0o755)
    entry(env, ws + '/input/other', 'e', other_kind, ws)
    if partial:
        os.rename(ws + '/input/in', ws + '/input/in__partial')
        d = ws + '/input/in__partial'
    else:
        d = ws + '/input/in'
    if top == 'directory':
        os.chmod(d, 0o755)
        fill(env, d, n, ws, first=first)
        if env.flag('read only top'):
            os.chmod(d, 0o555)
    else:
        os.chmod(d, 0o755)
        os.unlink(d + '/data')
        os.rmdir(d)
        if top == 'link':
            os.symlink('../../outside/dir', d)
        elif top == 'link to another input':
            os.symlink('other', d)
        elif top == 'link to output':
            os.symlink('../output', d)
    os.chmod(ws + '/input', 0o555)

    def rest():
        return [e for e in the_rest(env, 'ws/input/in') if e[0] not in ('ws/.bead-meta/bead', 'ws/input') and not e[0].startswith('ws/input/in__partial')]
    before = rest()
    if command == 'replace':
        args = ['add', 'in', str(v2.path)]
    elif command == 'unload all':
        args = ['unload']
    elif command == 'update all':
        args = ['update']
    else:
        args = [command, 'in']
    x = env.cli('input', *args, cwd=ws)
    env.reach('data')
    env.check(x.code == 0, command + ' works')
    if command in ('unload all', 'update all'):
        before = [e for e in before if not e[0].startswith('ws/input/other')]
        now = [e for e in rest() if not e[0].startswith('ws/input/other')]
    else:
        now = rest()
    env.check(now == before, 'nothing else is removed or changed')
    if command in ('unload', 'unload all', 'delete'):
        env.check(not os.path.lexists(ws + '/input/in'), 'the data is removed')
    else:
        env.check(files_of(env, ws + '/input/in') == [('data', b'two' if command != 'load' else b'one')], 'the data is replaced')
    env.check(owner_read_only(ws + '/input'), 'the input directory is read only')
    left = ['other'] if command in ('unload', 'delete') else [] if command == 'unload all' else ['in', 'other']
    if not (partial and command in ('unload', 'delete', 'unload all')):
        env.check(sorted(os.listdir(ws + '/input')) == left, 'nothing is left behind')


def crashed(env, command, first, hi=14, second=1):
    """the process dies or an operation fails while deleting: nothing else is touched either, and it works the next time"""
    r = env.root
    outside(env)
    box = known_box(env, 'box')
    v1 = save(env, box, 'b', '20200101T000000000000+0000', data='one')
    v2 = save(env, box, 'b', '20200102T000000000000+0000', data='two')
    env.cli('new', 'ws', cwd=r)
    ws = r + '/ws'
    env.cli('input', 'add', 'in', str(v1.path), cwd=ws)
    env.cli('input', 'add', 'other', str(v1.path), cwd=ws)
    d = ws + '/input/in'
    os.chmod(d, 0o755)
    entry(env, d, 'e', KINDS[first], ws)
    os.chmod(d, 0o555)
    inside = 'ws' if command == 'discard' else 'ws/input/in'

    def rest():
        return [e for e in the_rest(env, inside) if e[0] not in ('ws/.bead-meta/bead', 'ws/input') and not e[0].startswith('ws/input/in__partial') and not e[0].startswith('error_')]
    before = rest()
    args = ['discard', '-f', 'ws'] if command == 'discard' else ['input', 'add', 'in', str(v2.path), '-w', 'ws'] if command == 'replace' else ['input', command, 'in', '-w', 'ws']
    at = env.num('at', 0, hi)
    if env.flag('dies'):
        x = env.cli(*args, cwd=r, crash_at=at)
        env.assume(x.crashed)
    else:
        x = env.cli(*args, cwd=r, fault_at=at, errno=5)
        env.assume(at < env.events)
    env.reach('interrupted')
    now = [e for e in rest() if not e[0].startswith('ws/.bead-meta/')]
    env.check(now == [e for e in before if not e[0].startswith('ws/.bead-meta/')], 'nothing else is removed or changed')
