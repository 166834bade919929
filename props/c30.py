"""C30 an interrupted load is never mistaken for a loaded input"""
import os
from pathlib import Path
from bead.workspace import Workspace
from props.boxlib import save, new_box
from props.cmdlib import known_box, snapshot, files_of, named_files, write_files, same_files, members_of, owner_read_only, NAMES

T1, T2 = '20200101T000000000000+0000', '20200102T000000000000+0000'


class Bead:
    pass


def bead(env, box, t, files, label, n=1):
    """a bead with any files"""
    tmp = env.root + '/making' + label
    os.mkdir(tmp)
    ws = Workspace(tmp + '/b')
    ws.create('k')
    b = Bead()
    b.files = named_files(env, files, label, NAMES, n)
    write_files(env, tmp + '/b/output', b.files)
    b.path = str(box.store(ws, t))
    b.t = t
    from bead.ziparchive import ZipArchive
    b.content_id = ZipArchive(b.path).content_id
    return b


def consistent(env, ws, nick, beads, what):
    """the input is not loaded or has the complete data of its bead; which bead it refers to, and is it loaded"""
    w = Workspace(ws)
    env.check(w.is_valid, what + 'the workspace is valid')
    i = w.get_input(nick)
    if i is None:
        env.check(not w.is_loaded(nick), what + 'what is not defined is not loaded')
        return None, False
    hits = [b for b in beads if b.content_id == i.content_id]
    env.check(len(hits) == 1, what + 'the input refers to one of the beads')
    b = hits[0]
    env.check(i.freeze_time_str == b.t, what + 'the definition is consistent')
    if w.is_loaded(nick):
        env.check(same_files(env, files_of(env, ws + '/input/' + nick), b.files), what + 'the data is complete')
        return b, True
    return b, False


def others(env, ws):
    return [e for e in snapshot(env, ws) if e[0] not in ('input', '.bead-meta/bead') and not e[0].startswith('input/in') and not e[0].startswith('.bead-meta/') and not e[0].startswith('error_')]


def flow(env, command, files, lo, hi, kind='crash', second=False, n=1):
    """a command dies or fails somewhere"""
    r = env.root
    box = known_box(env, 'box')
    one = bead(env, box, T1, files, 'one')
    two = bead(env, box, T2, files[:1], 'two')
    env.assume(env.neg(one.content_id == two.content_id))
    beads = [one, two]
    env.cli('new', 'ws', cwd=r)
    ws = r + '/ws'
    Path(ws + '/x').write_text('x')
    x = env.cli('input', 'add', 'other', one.path, cwd=ws)
    env.check(x.code == 0, 'add works')
    w = Workspace(ws)
    if command in ('load', 'load all'):
        w.add_input('in', 'k', one.content_id, T1)
    elif command in ('update', 'replace', 'prev', 'unload', 'delete', 'update all'):
        b = two if command == 'prev' else one
        x = env.cli('input', 'add', 'in', b.path, cwd=ws)
        env.check(x.code == 0, 'add works')
    before = others(env, ws)
    args = {'add': ['add', 'in', one.path], 'replace': ['add', 'in', two.path], 'load': ['load', 'in'], 'load all': ['load'], 'update': ['update', 'in'], 'update all': ['update'], 'prev': ['update', 'in', '--prev'], 'unload': ['unload', 'in'], 'delete': ['delete', 'in']}[command]
    interrupt(env, args, ws, lo, hi, kind, 'at')
    if second:
        interrupt(env, args if command not in ('add', 'replace') else ['load', 'in'], ws, lo, hi, kind, 'second')
    env.reach('interrupted')
    if command == 'update all':
        consistent(env, ws, 'other', beads, 'other: ')
        before = [e for e in before if not e[0].startswith('input/other')]
    b, was = consistent(env, ws, 'in', beads, '')
    now = [e for e in others(env, ws) if not (command == 'update all' and e[0].startswith('input/other'))]
    env.check(now == before, 'nothing else is changed')
    # running the load again completes it
    if b is not None:
        x = env.cli('input', 'load', 'in', cwd=ws)
        env.check(x.code == 0, 'load works afterwards')
        c, loaded = consistent(env, ws, 'in', beads, 'after load: ')
        env.check(loaded and c is b, 'load completes it')
        env.check(was or owner_read_only(ws + '/input'), 'the input directory is read only')
        env.check(was or sorted(f for f in os.listdir(ws + '/input') if f != 'other') == ['in'], 'nothing is left behind')
    else:
        x = env.cli('input', 'add', 'in', one.path, cwd=ws)
        env.check(x.code == 0, 'add works afterwards')
        c, loaded = consistent(env, ws, 'in', beads, 'after add: ')
        env.check(loaded and c is one, 'the input is loaded')
    x = env.cli('input', 'unload', 'in', cwd=ws)
    env.check(x.code == 0 and not Workspace(ws).is_loaded('in'), 'unload works afterwards')


def interrupt(env, args, ws, lo, hi, kind, label):
    at = env.num(label, lo, hi)
    if kind == 'crash':
        x = env.cli('input', *args, cwd=ws, crash_at=at)
        env.assume(x.crashed)
    else:
        x = env.cli('input', *args, cwd=ws, fault_at=at, errno={'space': 28, 'permission': 13, 'interrupt': None}[kind])
        env.assume(at < env.events)


def read_failure(env, command, files, kind):
    """the archive can not be read"""
    r = env.root
    box = known_box(env, 'box')
    one = bead(env, box, T1, files, 'one')
    two = bead(env, box, T2, files[:1], 'two')
    env.assume(env.neg(one.content_id == two.content_id))
    beads = [one, two]
    env.cli('new', 'ws', cwd=r)
    ws = r + '/ws'
    w = Workspace(ws)
    if command == 'load':
        w.add_input('in', 'k', two.content_id, T2)
    else:
        env.cli('input', 'add', 'in', one.path, cwd=ws)
    env.read_fault(two.path, -1 if kind == 'interrupt' else 5, env.num('after', 0, 8))
    x = env.cli('input', *(['load', 'in'] if command == 'load' else ['update', 'in'] if command == 'update' else ['add', 'in', two.path]), cwd=ws)
    env.read_fault(two.path, None)
    env.reach('read failure')
    consistent(env, ws, 'in', beads, '')
    x = env.cli('input', 'load', 'in', cwd=ws)
    b, loaded = consistent(env, ws, 'in', beads, 'after load: ')
    env.check(x.code == 0 and loaded, 'load completes it')
