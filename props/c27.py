"""C27 commands act on the nearest enclosing workspace"""
import os
from pathlib import Path
from bead.workspace import Workspace
from props.boxlib import save, index
from props.cmdlib import known_box, snapshot, files_of

PARTS = ('', '/input', '/output', '/temp', '/.bead-meta')
BROKEN = ('no metadata', 'no input', 'no output', 'no temp', 'file for temp', 'directory for metadata', 'empty')


def make(env, path, state):
    """nothing, a valid workspace, or something that is almost one"""
    if state == 'nothing':
        os.makedirs(path)
        return
    ws = Workspace(path)
    ws.create('kind of ' + path.split('/')[-1])
    if state == 'no metadata':
        os.unlink(path + '/.bead-meta/bead')
    elif state == 'directory for metadata':
        os.unlink(path + '/.bead-meta/bead')
        os.mkdir(path + '/.bead-meta/bead')
    elif state == 'empty':
        Path(path + '/.bead-meta/bead').unlink()
        for d in ('input', 'output', 'temp', '.bead-meta'):
            os.rmdir(path + '/' + d)
    elif state == 'file for temp':
        os.rmdir(path + '/temp')
        Path(path + '/temp').write_text('')
    elif state.startswith('no '):
        os.rmdir(path + '/' + state[3:])


def nest(env, states, subs):
    """directories in each other"""
    r = env.root
    p = r
    dirs = []
    for k in range(len(states)):
        p = p + '/w%d' % k
        make(env, p, states[k])
        dirs.append(p)
        if states[k] == 'valid' or (states[k] in BROKEN and os.path.isdir(p + subs[k])):
            sub = p + subs[k]
            if subs[k] == '/input':
                os.chmod(sub, 0o755)
            p = sub
    os.makedirs(p + '/x/y')
    dirs.append(p + '/x/y')
    return dirs


def inside(path, top):
    return path == top or path.startswith(top + '/')


def unchanged(env, before, ws=None):
    """nothing is changed but in one workspace"""
    rel = None if ws is None else ws[len(env.root) + 1:]

    def rest(s):
        return [e for e in s if not (rel is not None and inside(e[0], rel)) and '/error_' not in '/' + e[0]]
    return rest(snapshot(env, env.root, ['config', 'box'])) == rest(before)


def nearest(env, states, command, depth, subs=(0, 0, 0), broken=('no metadata',)):
    """a command without explicit workspace"""
    r = env.root
    box = known_box(env, 'box')
    bead = save(env, box, 'b', '20200101T000000000000+0000', 'kb', data='old')
    if command == 'update':
        newer = save(env, box, 'b', '20200102T000000000000+0000', 'kb', data='new')
    actual = [env.pick('state%d' % k, ['nothing', 'valid'] + list(broken)) if s == '?' else s for k, s in enumerate(states)]
    dirs = nest(env, actual, [PARTS[s] for s in subs])
    cwd = dirs[depth]
    target = None
    for k in range(len(actual)):
        if actual[k] == 'valid' and inside(cwd, dirs[k]):
            target = dirs[k]
    for k in range(len(actual)):
        if actual[k] == 'valid' and command not in ('save', 'status', 'discard', 'nuke'):
            w = Workspace(dirs[k])
            if command in ('load', 'update', 'delete', 'unload'):
                w.add_input('in', 'kb', bead.content_id, bead.freeze_time)
            if command == 'unload':
                x = env.cli('input', 'load', '-w', dirs[k], cwd=r)
    before = snapshot(env, r, ['config', 'box'])
    boxed = sorted(os.listdir(r + '/box'))
    if command in ('save', 'status', 'discard', 'nuke'):
        x = env.cli(command, cwd=cwd)
    elif command == 'add':
        x = env.cli('input', 'add', 'in', 'b', cwd=cwd)
    else:
        x = env.cli('input', command, 'in', cwd=cwd)
    if target is None:
        env.reach('outside')
        env.check(x.code != 0 or (command == 'status' and 'WARNING' in x.err), 'it is refused outside of workspaces')
        env.check(unchanged(env, before), 'nothing is changed outside of workspaces')
        env.check(sorted(os.listdir(r + '/box')) == boxed, 'the box is unchanged')
        return
    env.reach('inside')
    env.check(x.code == 0, command + ' works')
    name = target.split('/')[-1]
    if command == 'status':
        env.check('Bead Name: ' + name + '\n' in x.out, 'it is about the innermost workspace')
        env.check(unchanged(env, before), 'nothing is changed')
    elif command == 'save':
        env.check(unchanged(env, before), 'nothing is changed')
        new = [f for f in os.listdir(r + '/box') if f not in boxed]
        env.check(len(new) == 1 and new[0].startswith(name + '_'), 'the innermost workspace is saved')
    elif command in ('discard', 'nuke'):
        env.check(not os.path.lexists(target), 'the innermost workspace is removed')
        env.check(unchanged(env, before, target), 'nothing else is changed')
    else:
        env.check(unchanged(env, before, target), 'nothing else is changed')
        w = Workspace(target)
        if command in ('add', 'load'):
            env.check(w.is_loaded('in') and w.get_input('in').content_id == bead.content_id, 'the input of the innermost workspace is loaded')
        elif command == 'update':
            env.check(w.get_input('in').content_id == newer.content_id, 'the input of the innermost workspace is updated')
        elif command == 'unload':
            env.check(not w.is_loaded('in') and w.has_input('in'), 'the input of the innermost workspace is unloaded')
        else:
            env.check(not w.has_input('in'), 'the input of the innermost workspace is deleted')


def explicit(env, command, broken=('no metadata', 'nothing', 'missing', 'no output')):
    """a command with an explicit workspace, in another one"""
    r = env.root
    box = known_box(env, 'box')
    bead = save(env, box, 'b', '20200101T000000000000+0000', 'kb', data='old')
    make(env, r + '/here', 'valid')
    make(env, r + '/here/sub', 'nothing')
    state = env.pick('state', ['valid'] + list(broken))
    there = r + '/here/sub/there' if env.flag('nested') else r + '/there'
    if state != 'missing':
        make(env, there, state)
    for d in (r + '/here', there):
        if d == r + '/here' or state == 'valid':
            if command in ('load', 'update', 'delete', 'unload'):
                Workspace(d).add_input('in', 'kb', bead.content_id, bead.freeze_time)
            if command == 'unload':
                env.cli('input', 'load', '-w', d, cwd=r)
    how = env.pick('how', ['absolute', 'relative'])
    given = there if how == 'absolute' else ('sub/there' if there.startswith(r + '/here') else '../there')
    before = snapshot(env, r, ['config', 'box'])
    boxed = sorted(os.listdir(r + '/box'))
    if command in ('discard', 'nuke'):
        x = env.cli(command, given, cwd=r + '/here')
    elif command in ('save', 'status'):
        x = env.cli(command, '-w', given, cwd=r + '/here')
    elif command == 'add':
        x = env.cli('input', 'add', 'in', 'b', '--workspace', given, cwd=r + '/here')
    else:
        x = env.cli('input', command, 'in', '-w', given, cwd=r + '/here')
    if state != 'valid':
        env.reach('refused')
        env.check(x.code != 0 or (command == 'status' and 'WARNING' in x.err), 'it is refused')
        env.check(unchanged(env, before), 'nothing is changed')
        env.check(sorted(os.listdir(r + '/box')) == boxed, 'the box is unchanged')
        return
    env.reach('explicit')
    env.check(x.code == 0, 'it works')
    env.check(unchanged(env, before, there), 'nothing but the given workspace is changed')
    w = Workspace(there)
    if command == 'status':
        env.check('Bead Name: there\n' in x.out, 'it is about the given workspace')
    elif command == 'save':
        env.check(len([f for f in os.listdir(r + '/box') if f.startswith('there_')]) == 1, 'the given workspace is saved')
    elif command in ('discard', 'nuke'):
        env.check(not os.path.lexists(there), 'the given workspace is removed')
    elif command == 'delete':
        env.check(not w.has_input('in'), 'the input of the given workspace is deleted')
    else:
        env.check(w.has_input('in') and w.is_loaded('in') == (command != 'unload'), 'the input of the given workspace is loaded or unloaded')
