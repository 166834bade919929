"""C16 input commands keep input definitions and input data consistent"""
import os
from pathlib import Path
from bead.workspace import Workspace
from props.boxlib import save, index
from props.cmdlib import known_box, snapshot, files_of, owner_read_only, write_files
from props.weblib import stamp


class Version:
    def __init__(self, stored, data):
        self.name = stored.name
        self.kind = stored.kind
        self.content_id = stored.content_id
        self.freeze_time = stored.freeze_time
        self.path = str(stored.path)
        self.data = data


def beads(env, indexed):
    """bead x in three versions and bead y in one, with any data, in two boxes"""
    one, two = known_box(env, 'one'), known_box(env, 'two')
    out = []
    for name, kind, box, day in (('x', 'kx', one, 1), ('x', 'kx', two, 2), ('x', 'kx', one, 3), ('y', 'ky', two, 4)):
        data = env.atom('data %s%d' % (name, day))
        t = '2020010%dT000000000000+0000' % day
        out.append(Version(save(env, box, name, t, kind, data=data), data))
    if indexed:
        index(one)
    return out


class Model:
    """inputs by name: [version, loaded]"""

    def __init__(self, versions):
        self.inputs = {}
        self.versions = versions

    def newest(self, kind):
        return [v for v in self.versions if v.kind == kind][-1]

    def near(self, version, step):
        same = [v for v in self.versions if v.kind == version.kind]
        k = same.index(version) + step
        return same[k] if 0 <= k < len(same) else None


def check_state(env, ws, model, before, what=''):
    w = Workspace(ws)
    env.check(sorted(i.name for i in w.inputs) == sorted(model.inputs), what + 'the inputs are those added and not deleted')
    for nick in model.inputs:
        v, loaded = model.inputs[nick]
        i = w.get_input(nick)
        env.check(env.all(i.kind == v.kind, i.content_id == v.content_id, i.freeze_time_str == v.freeze_time), what + 'each input refers to the bead it was last set to')
        env.check(w.is_loaded(nick) == loaded, what + 'an input is loaded exactly when its last command loaded it')
        if loaded:
            got = files_of(env, ws + '/input/' + nick)
            env.check(len(got) == 1 and got[0][0] == 'data', what + 'the data is that of the bead')
            env.check(got[0][1] == v.data.encode('utf-8'), what + 'the data has the content of that of the bead')
    env.check(sorted(os.listdir(ws + '/input')) == sorted(n for n in model.inputs if model.inputs[n][1]), what + 'nothing else is in the input directory')
    env.check(owner_read_only(ws + '/input'), what + 'the input directory is read only')
    env.check(others(snapshot(env, ws)) == before, what + 'nothing else is touched')


def others(s):
    return [e for e in s if e[0] != 'input' and not e[0].startswith('input/') and e[0] != '.bead-meta/bead']


def step(env, ws, model, command, cwd):
    """run one command; the model says what is expected"""
    a = command.split()
    verb, nick = a[0], a[1] if len(a) > 1 else None
    ref = a[2] if len(a) > 2 else None
    args = ['input'] + a
    fails = False
    m = model.inputs
    if verb in ('add', 'update') and ref is not None and ref.isdigit():
        args[-1] = model.versions[int(ref)].path
        target = model.versions[int(ref)]
    elif ref in ('x', 'y'):
        target = model.newest('k' + ref)
    elif verb == 'update' and nick in m:
        target = model.newest(m[nick][0].kind) if ref is None else model.near(m[nick][0], 1 if ref == '--next' else -1)
    else:
        target = None
    if verb == 'add':
        if target is None:
            fails = True
        else:
            m[nick] = [target, True]
    elif verb == 'update' and nick is None:
        for n in m:
            m[n] = [model.newest(m[n][0].kind), True]
    elif verb == 'update':
        if nick not in m or target is None:
            fails = True
        else:
            m[nick] = [target, True]
    elif verb == 'load' and nick is None:
        for n in m:
            m[n][1] = True
    elif verb == 'load':
        if nick in m:
            m[nick][1] = True
        else:
            fails = True
    elif verb == 'unload':
        for n in m:
            if nick is None or n == nick:
                m[n][1] = False
    elif verb == 'delete':
        if nick in m:
            del m[nick]
        else:
            fails = True
    x = env.cli(*args, '-w', ws, cwd=cwd)
    env.check((x.code != 0) == fails, command + ': fails exactly when it can not be done')


COMMANDS = ('add a 0', 'add a x', 'add b y', 'add b', 'load', 'load a', 'load b', 'unload', 'unload a', 'unload b', 'delete a', 'delete b', 'update', 'update a', 'update b', 'update a 1', 'update a y', 'update b x', 'update a --next', 'update a --prev', 'update b --prev')
START = {'nothing': (), 'loaded': ('add a 0',), 'not loaded': ('add a 1', 'unload a'), 'two': ('add a 1', 'add b y'), 'half': ('add a x', 'add b 0', 'unload b')}


def sequence(env, start, first, steps, indexed=False):
    """a sequence of commands"""
    r = env.root
    model = Model(beads(env, indexed))
    x = env.cli('new', 'ws', cwd=r)
    ws = r + '/ws'
    write_files(env, ws, [('f', env.content('f'))])
    write_files(env, ws + '/output', [('g', env.content('g'))])
    write_files(env, ws + '/temp', [('h', env.content('h'))])
    before = others(snapshot(env, ws))
    for c in START[start]:
        step(env, ws, model, c, r)
    check_state(env, ws, model, before, 'start: ')
    for k in range(steps):
        c = COMMANDS[first if k == 0 and first is not None else env.num('command%d' % k, 0, len(COMMANDS) - 1)]
        step(env, ws, model, c, r)
        check_state(env, ws, model, before)
    env.reach('done')


def names(env, spec, commands=('add', 'unload', 'load', 'update', 'delete')):
    """an input with any name"""
    r = env.root
    model = Model(beads(env, False))
    env.cli('new', 'ws', cwd=r)
    ws = r + '/ws'
    other = spec.get('other', 'other')
    step(env, ws, model, 'add %s y' % other, r)
    nick = env.text('nick', [tuple(x) for x in spec['alphabet']], spec['lo'], spec['hi'])
    for s in spec.get('not', ()):
        env.assume(env.neg(nick == s))
    env.assume(env.neg(nick[:1] == '-'))
    before = others(snapshot(env, ws))
    whole = snapshot(env, ws)
    x = env.cli('input', 'add', nick, model.versions[0].path, cwd=ws)
    if x.code != 0:
        env.reach('refused')
        env.check(snapshot(env, ws) == whole, 'a refused name changes nothing')
        return
    env.reach('accepted')
    w = Workspace(ws)
    for c in commands[1:]:
        x = env.cli('input', c, nick, cwd=ws)
        env.check(x.code == 0, c + ': works with every name add takes')
        w = Workspace(ws)
        if c == 'delete':
            env.check(snapshot(env, ws) == whole, 'deleting the input restores the workspace')
            break
        i = w.get_input(nick)
        env.check(i is not None, 'the input is defined')
        v = model.versions[2 if c == 'update' else 0]
        env.check(i.content_id == v.content_id, 'it refers to the bead')
        env.check(w.is_loaded(nick) == (c != 'unload'), 'it is loaded or not')
        if c != 'unload':
            env.check(files_of(env, ws + '/input/' + nick)[0][1] == v.data.encode('utf-8'), 'its data is that of the bead')
        env.check(len(os.listdir(ws + '/input')) == (1 if c == 'unload' else 2), 'nothing else is in the input directory')
        env.check(others(snapshot(env, ws)) == before, 'nothing else is touched')
