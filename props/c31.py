"""C31 a crash never loses the box registry or the workspace metadata"""
import os
from pathlib import Path
from bead.workspace import Workspace
from bead_cli.environment import Environment
from props.boxlib import save
from props.cmdlib import known_box

T1, T2 = '20200101T000000000000+0000', '20200102T000000000000+0000'


def known(env):
    e = Environment.from_dir(env.root + '/config')
    return [(b.name, str(b.directory)) for b in e.get_boxes()]


def run(env, args, cwd, lo, hi, kind, label='at'):
    at = env.num(label, lo, hi)
    if kind == 'crash':
        x = env.cli(*args, cwd=cwd, crash_at=at)
        env.assume(x.crashed)
    else:
        x = env.cli(*args, cwd=cwd, fault_at=at, errno={'space': 28, 'permission': 13, 'interrupt': None}[kind])
        env.assume(at < env.events)
    env.reach('interrupted')
    return x


def same_list(env, a, b):
    if len(a) != len(b):
        return False
    return env.all(True, *[env.all(x[0] == y[0], x[1] == y[1]) for x, y in zip(a, b)])


def registry(env, command, n, lo=0, hi=12, kind='crash', twice=False):
    """the process dies while a box is added or forgotten"""
    r = env.root
    model = []
    for k in range(n):
        name = env.text('name%d' % k, [('\x01', '\ud7ff')], 1, 2)
        env.assume(env.neg(name[:1] == '-'))
        for m, d in model:
            env.assume(env.neg(m == name))
        d = r + '/box%d' % k
        os.mkdir(d)
        x = env.cli('box', 'add', name, d, cwd=r)
        model.append((name, d))
    os.mkdir(r + '/new box')
    if command == 'add':
        name = env.text('new name', [('\x01', '\ud7ff')], 1, 2)
        env.assume(env.neg(name[:1] == '-'))
        for m, d in model:
            env.assume(env.neg(m == name))
        args = ['box', 'add', name, 'new box']
        after = model + [(name, r + '/new box')]
    elif command == 'forget':
        k = env.num('which', 0, n - 1)
        args = ['box', 'forget', model[k][0]]
        after = model[:k] + model[k + 1:]
    else:
        os.mkdir(r + '/home')
        env.setenv('HOME', r + '/home')
        env.cli('new', 'ws', cwd=r)
        args = ['save', '-w', 'ws']
        after = [('home', r + '/home/BeadBox')]
    x = run(env, args, r, lo, hi, kind)
    now = known(env)
    env.check(env.any(same_list(env, now, model), same_list(env, now, after)), 'the boxes are those before or after the change')
    if kind != 'crash' and x.code == 0 and command != 'save':
        env.check(same_list(env, now, after), 'a change that is reported is made')
    x = env.cli('box', 'list', cwd=r)
    env.check(x.code == 0, 'boxes can be listed')
    # it works the next time
    if command != 'save':
        x = env.cli(*args, cwd=r)
        env.check(same_list(env, known(env), after), 'the change can be made afterwards')
    else:
        env.set_now(1600000060000000)
        x = env.cli(*args, cwd=r)
        env.check(x.code == 0 and same_list(env, known(env), after), 'saving works afterwards')


def metadata(env, command, lo=0, hi=20, kind='crash', inputs=1):
    """the process dies while inputs are added, changed or deleted"""
    r = env.root
    box = known_box(env, 'box')
    data = env.atom('data')
    one = save(env, box, 'b', T1, 'k', data=data)
    two = save(env, box, 'b', T2, 'k', data='other')
    env.cli('new', 'ws', cwd=r)
    ws = r + '/ws'
    w = Workspace(ws)
    model = {}
    for k in range(inputs):
        nick = 'in%d' % k
        spec = (env.atom(nick + '.kind') if k else 'k', env.atom(nick + '.cid') if k else one.content_id, T1)
        w.add_input(nick, *spec)
        model[nick] = spec
    if command in ('update', 'replace', 'delete', 'unload', 'update all'):
        x = env.cli('input', 'load', 'in0', cwd=ws)
        env.check(x.code == 0, 'load works')
    wskind = w.kind
    after = dict(model)
    if command == 'add':
        args = ['input', 'add', 'new', str(two.path)]
        after['new'] = ('k', two.content_id, T2)
    elif command in ('update', 'update all', 'replace'):
        args = {'update': ['input', 'update', 'in0'], 'update all': ['input', 'update'], 'replace': ['input', 'add', 'in0', str(two.path)]}[command]
        if command == 'update all':
            for nick in list(model)[1:]:
                env.assume(env.neg(model[nick][0] == 'k'))
        after['in0'] = ('k', two.content_id, T2)
    elif command == 'delete':
        args = ['input', 'delete', 'in0']
        del after['in0']
    else:
        args = ['input', command, 'in0']
    x = run(env, args, ws, lo, hi, kind)
    w = Workspace(ws)
    env.check(w.is_valid, 'the workspace is valid')
    env.check(w.kind == wskind, 'the kind is kept')
    got = dict([(str(i.name), (i.kind, i.content_id, i.freeze_time_str)) for i in w.inputs])

    def same(m):
        if sorted(m) != sorted(got):
            return False
        return env.all(True, *[env.all(*[a == b for a, b in zip(m[n], got[n])]) for n in m])
    env.check(env.any(same(model), same(after)), 'the inputs are those before or after the change')
    if kind != 'crash' and x.code == 0:
        env.check(same(after), 'a change that is reported is made')
    x = env.cli('status', cwd=ws)
    env.check(x.code == 0, 'status works')
    x = env.cli(*args, cwd=ws)
    got = dict([(str(i.name), (i.kind, i.content_id, i.freeze_time_str)) for i in Workspace(ws).inputs])
    env.check(same(after), 'the change can be made afterwards')
