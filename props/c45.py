"""C45 a command that reports success has done all it was asked to do"""
import os
from pathlib import Path
from bead.workspace import Workspace
from bead.ziparchive import ZipArchive
from props.boxlib import save
from props.cmdlib import NAMES, known_box, named_files, write_files, snapshot, files_of, same_files, members_of
from props.c30 import bead, T1, T2

T0 = '20200101T000000000001+0000'
OWN = ('input', 'output', 'temp', '.bead-meta')
ERRNO = {'space': 28, 'permission': 13, 'io': 5, 'interrupt': None}


def told(x):
    """the command has reported some failure"""
    return x.code != 0 or 'WARNING' in x.err or 'ERROR' in x.err or 'ERROR' in x.out


def run(env, args, cwd, lo, hi, kind, read=None):
    at = env.num('at', lo, hi)
    if kind in ('unreadable', 'reading interrupted'):
        # the file can not be read from some moment on
        env.read_fault(read, 5 if kind == 'unreadable' else -1, at)
        x = env.cli(*args, cwd=cwd)
        env.assume(env.read_fault(read, None))
        env.reach('failed')
        return not told(x)
    x = env.cli(*args, cwd=cwd, fault_at=at, errno=ERRNO[kind])
    env.assume(at < env.events)
    env.reach('failed')
    if told(x):
        env.check('Successfully stored' not in x.out, 'what has failed is not said to be successful')
        return False
    env.reach('success')
    return True


def definitions(ws):
    return {i.name: (i.kind, i.content_id, i.freeze_time_str) for i in Workspace(ws).inputs}


def loaded(env, ws, nick, b):
    w = Workspace(ws)
    i = w.get_input(nick)
    env.check(i is not None, 'the input is defined')
    env.check(env.all(i.content_id == b.content_id, i.freeze_time_str == b.t), 'the input is the bead asked for')
    env.check(w.is_loaded(nick), 'the input is loaded')
    env.check(same_files(env, files_of(env, ws + '/input/' + nick), b.files), 'the data is complete')


def about_inputs(env, command, files, lo, hi, kind='space', n=1):
    r = env.root
    box = known_box(env, 'box')
    one = bead(env, box, T1, files, 'one', n)
    two = bead(env, box, T2, files[:1], 'two')
    env.assume(env.neg(one.content_id == two.content_id))
    env.cli('new', 'ws', cwd=r)
    ws = r + '/ws'
    w = Workspace(ws)
    if command in ('load', 'load all'):
        w.add_input('in', 'k', one.content_id, T1)
        w.add_input('other', 'k', two.content_id, T2)
    elif command != 'add':
        x = env.cli('input', 'add', 'in', one.path, cwd=ws)
        env.check(x.code == 0, 'add works')
        x = env.cli('input', 'add', 'other', two.path if command != 'update all' else one.path, cwd=ws)
        env.check(x.code == 0, 'add works')
    before = definitions(ws)
    args = {'add': ['add', 'in', one.path], 'replace': ['update', 'in', two.path], 'load': ['load', 'in'], 'load all': ['load'], 'update': ['update', 'in'], 'update all': ['update'],
            'next': ['update', 'in', '--next'], 'unload': ['unload', 'in'], 'unload all': ['unload'], 'delete': ['delete', 'in']}[command]
    if not run(env, ['input'] + args, ws, lo, hi, kind, two.path if command in ('replace', 'update', 'update all', 'next') else one.path):
        return
    if command in ('add', 'load'):
        loaded(env, ws, 'in', one)
    elif command == 'load all':
        loaded(env, ws, 'in', one)
        loaded(env, ws, 'other', two)
    elif command in ('replace', 'update', 'next'):
        loaded(env, ws, 'in', two)
    elif command == 'update all':
        loaded(env, ws, 'in', two)
        loaded(env, ws, 'other', two)
    elif command in ('unload', 'unload all'):
        env.check(not os.path.lexists(ws + '/input/in'), 'the data is removed')
        env.check(command == 'unload' or not os.path.lexists(ws + '/input/other'), 'the data of all inputs is removed')
        env.check(definitions(ws) == before, 'the definitions are kept')
    elif command == 'delete':
        env.check(not os.path.lexists(ws + '/input/in'), 'the data is removed')
        env.check(sorted(definitions(ws)) == ['other'], 'the definition is removed')


def about_workspaces(env, command, code, data, lo, hi, kind='space', inputs=1, n=1, indexed=False):
    r = env.root
    box = known_box(env, 'box')
    if indexed:
        x = env.cli('box', 'index', cwd=r)
        env.check(x.code == 0, 'index works')
        from props.boxlib import reopened
        box = reopened(box)
    codes = named_files(env, code, 'code.', NAMES, n)
    for path, c in codes:
        env.assume(env.neg(env.any(*[path.split('/')[0] == o for o in OWN])))
    datas = named_files(env, data, 'data.', NAMES, n)
    made = [('in%d' % k, env.atom('kind%d' % k), env.atom('cid%d' % k), '20200101T00000000000%d+0000' % k) for k in range(inputs)]
    bead_kind = env.atom('kind')
    os.mkdir(r + '/work')
    ws = r + '/work/bead'
    unreadable = None
    if command != 'new':
        os.mkdir(r + '/source')
        top = r + '/source/bead' if command in ('edit', 'review') else ws
        source = Workspace(top)
        source.create(bead_kind)
        for i in made:
            source.add_input(*i)
        write_files(env, top, codes)
        write_files(env, top + '/output', datas)
        unreadable = top + '/output/' + datas[0][0] if datas else None
        if command in ('edit', 'review'):
            unreadable = str(box.store(source, T0))
    args, cwd = {
        'new': (['new', 'bead'], r + '/work'), 'edit': (['edit', 'bead'], r + '/work'), 'review': (['edit', 'bead', '--review'], r + '/work'),
        'save': (['save'], ws), 'save to': (['save', 'box'], ws), 'discard': (['discard', 'bead'], r + '/work'), 'discard force': (['discard', '--force', 'bead'], r + '/work'), 'nuke': (['nuke'], ws)}[command]
    known = os.listdir(r + '/box')
    if not run(env, args, cwd, lo, hi, kind, unreadable):
        return
    os.chdir(r)
    if command == 'new':
        w = Workspace(ws)
        env.check(w.is_valid, 'the workspace is made')
        env.check(env.all(w.kind != '', w.inputs == ()), 'the workspace is complete')
        env.check(sorted(e[0] for e in snapshot(env, ws)) == ['', '.bead-meta', '.bead-meta/bead', 'input', 'output', 'temp'], 'the workspace is complete')
    elif command in ('edit', 'review'):
        w = Workspace(ws)
        env.check(w.is_valid, 'the workspace is made')
        env.check(env.all(w.kind == bead_kind, len(w.inputs) == inputs), 'the metadata is that of the bead')
        for i in made:
            env.check(env.any(False, *[env.all(i[0] == g.name, i[1] == g.kind, i[2] == g.content_id, i[3] == g.freeze_time_str) for g in w.inputs]), 'the inputs are those of the bead')
        env.check(same_files(env, [(p, c) for p, c in files_of(env, ws) if p.split('/')[0] not in OWN], codes), 'the code is complete')
        env.check(same_files(env, files_of(env, ws + '/output'), datas if command == 'review' else []), 'the data is complete')
    elif command in ('save', 'save to'):
        new = [f for f in os.listdir(r + '/box') if f not in known and f.endswith('.zip')]
        env.check(len(new) == 1, 'an archive is made')
        archive = ZipArchive(r + '/box/' + new[0])
        archive.validate()
        members = members_of(r + '/box/' + new[0])
        env.check(same_files(env, [(p, c) for p, c in members if not p.startswith('meta/')], [('code/' + p, c) for p, c in codes] + [('data/' + p, c) for p, c in datas]), 'the archive is complete')
        env.check(env.all(archive.kind == bead_kind, len(archive.inputs) == inputs), 'the metadata is complete')
    else:
        env.check(not os.path.lexists(ws), 'the workspace is removed')


def about_boxes(env, command, lo, hi, kind='space', n=1):
    """defining and forgetting boxes"""
    r = env.root
    known_box(env, 'one')
    os.mkdir(r + '/two')
    name = env.text('name', [('a', 'z')], n, n)
    env.assume(env.neg(name == 'one'))
    if command == 'forget':
        x = env.cli('box', 'add', name, r + '/two', cwd=r)
        env.check(x.code == 0, 'box add works')
    if not run(env, ['box', 'add', name, r + '/two'] if command == 'add' else ['box', 'forget', name], r, lo, hi, kind):
        return
    x = env.cli('box', 'list', cwd=r)
    env.check(x.code == 0, 'box list works')
    env.check('one: ' + r + '/one' in x.out.split('\n'), 'other boxes are still known')
    env.check((name + ': ' + r + '/two' in x.out.split('\n')) == (command == 'add'), 'the box is remembered or forgotten')


def about_web(env, command, lo, hi, kind='space'):
    """writing a web"""
    r = env.root
    box = known_box(env, 'box')
    one = save(env, box, 'one', T1, env.atom('kind1'))
    save(env, box, 'two', T2, env.atom('kind2'), [('one', one.kind, one.content_id, one.freeze_time)])
    if not run(env, ['web', command, r + '/out'], r, lo, hi, kind):
        return
    x = env.cli('web', command, r + '/good', cwd=r)
    env.check(x.code == 0, 'web works')
    env.check(Path(r + '/out').read_bytes() == Path(r + '/good').read_bytes(), 'the file is complete')
