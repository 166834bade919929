"""C06 a failed save leaves no trace and never replaces an archive"""
import os
from pathlib import Path
from bead.box import Box
from bead.exceptions import BoxError
from bead.workspace import Workspace
from bead.ziparchive import ZipArchive
from props.boxlib import new_box, save, index, reopened
from props.cmdlib import NAMES, known_box, named_files, write_files, snapshot

OLD, COPIED = '20200101T000000000001+0000', '20200102T000000000001+0000'
LATER = 1600000060000000
OTHER = ('input', 'output', 'temp', '.bead-meta')


def prepared(env, code, data, indexed, n=1):
    """a box with a bead and a workspace with any files, one input loaded"""
    r = env.root
    box = known_box(env, 'box')
    if indexed == 'early':
        index(box)
        c = save(env, new_box(env, 'elsewhere'), 'ws', OLD, data='old')
        os.rename(c.path, r + '/box/ws_old.zip')
    else:
        save(env, box, 'ws', OLD, data='old')
        if indexed:
            index(box)
        c = save(env, new_box(env, 'elsewhere'), 'copied', COPIED, data='copied')
        os.rename(c.path, r + '/box/copied.zip')
    # files that are none of the beads of the box
    env.junk_file(r + '/box/junk.zip')
    Path(r + '/box/notes.txt').write_text('notes')
    Path(r + '/box/ws_20190101T000000000000+0000.zip').write_text('')
    ws = Workspace(r + '/ws')
    ws.create('kind')
    ws.add_input('in', 'kind', 'cid', OLD)
    Path(r + '/ws/temp/x').write_text('temporary')
    names = {}
    codes = named_files(env, code, 'code.', NAMES, n, names)
    for path, c in codes:
        env.assume(env.neg(env.any(*[path.split('/')[0] == o for o in OTHER])))
    datas = named_files(env, data, 'data.', NAMES, n, names)
    write_files(env, r + '/ws', codes)
    write_files(env, r + '/ws/output', datas)
    os.mkdir(r + '/cwd')
    return box, [r + '/ws/' + p for p, c in codes] + [r + '/ws/output/' + p for p, c in datas]


def watched(env):
    return snapshot(env, env.root + '/box', ['.index.sqlite']), snapshot(env, env.root + '/ws'), snapshot(env, env.root + '/making0')


def check_failed(env, x, before, after):
    env.check(x.out == '' or 'Successfully' not in x.out, 'no success is reported')
    env.check(x.err != '', 'an error is reported')
    env.check(after[0] == before[0], 'nothing remains in the box')
    env.check(after[1:] == before[1:], 'the workspace is unchanged')


def check_saved(env, x, before, after, box, found):
    env.check(after[1:] == before[1:], 'the workspace is unchanged by saving')
    new = [f for f in after[0] if f not in before[0]]
    env.check(len(new) == 1, 'one archive is made')
    env.check([f for f in after[0] if f != new[0]] == before[0], 'everything in the box is kept')
    a = ZipArchive(str(box.directory) + '/' + new[0][0])
    a.validate()
    env.check(len(reopened(box).search().by_name('ws').all()) == found + 1, 'the saved bead is found')


def faults(env, code, data, lo, hi, errno=28, indexed=False, way='cli'):
    """an operation that changes something fails or is interrupted"""
    box, files = prepared(env, code, data, indexed)
    before = watched(env)
    found = len(reopened(box).search().by_name('ws').all())
    at = env.num('fault', lo, hi)
    if way == 'cli':
        x = env.cli('save', 'box', '-w', '../ws', cwd=env.root + '/cwd', fault_at=at, errno=errno)
        env.assume(at < env.events)
        after = watched(env)
        if x.code != 0:
            env.reach('failed')
            check_failed(env, x, before, after)
        else:
            env.reach('saved')
            check_saved(env, x, before, after, box, found)
    else:
        st, v = env.guarded(lambda: str(reopened(box).store(Workspace(env.root + '/ws'), '20200202T000000000000+0000')), fault_at=at, errno=errno)
        env.assume(at < env.events)
        after = watched(env)
        if st == 'error':
            env.reach('store failed')
            env.check(after == before, 'nothing is changed')
        else:
            env.reach('stored')
            env.check(len(after[0]) == len(before[0]) + 1, 'the archive is there')
    # it works the next time
    if way == 'cli':
        env.set_now(LATER)
        x = env.cli('save', 'box', '-w', '../ws', cwd=env.root + '/cwd')
        env.check(x.code == 0, 'saving works after the failure')


def bad_file(env, code, data, how, indexed=False):
    """one of the files can not be saved"""
    r = env.root
    box, files = prepared(env, code, data, indexed)
    k = env.num('which', 0, len(files) - 1)
    f = files[k]
    before = snapshot(env, r + '/ws')
    if how == 'no permission':
        before = watched(env)
        os.chmod(f, 0)
    elif how in ('open', 'second open', 'vanish', 'interrupt', 'second interrupt'):
        env.read_fault(f, 2 if how == 'vanish' else -1 if 'interrupt' in how else 5, 1 if 'second' in how else 0)
    else:
        os.unlink(f)
        if how == 'fifo':
            env.fifo(f)
        elif how == 'dangling':
            os.symlink('nothing there', f)
        elif how == 'loop':
            os.symlink('../' + f.split('/')[-2] + '/' + f.split('/')[-1], f)
        elif how == 'directory':
            os.mkdir(f)
            before = snapshot(env, r + '/ws')
            os.chmod(f, 0)
    if how in ('fifo', 'dangling', 'loop'):
        before = snapshot(env, r + '/ws')
    boxed = snapshot(env, r + '/box', ['.index.sqlite'])
    found = len(reopened(box).search().all())
    x = env.cli('save', 'box', '-w', '../ws', cwd=r + '/cwd')
    bad = True
    if how in ('open', 'second open', 'vanish', 'interrupt', 'second interrupt'):
        bad = env.read_fault(f, None)
    env.reach('bad file' if bad else 'not read again')
    if not bad:
        env.check(x.code == 0, 'saved: the file could be read whenever it was')
        return
    env.check(x.code != 0, 'it is refused')
    env.check('Successfully' not in x.out and x.err != '', 'an error is reported')
    env.check(snapshot(env, r + '/box', ['.index.sqlite']) == boxed, 'nothing remains in the box')
    if how == 'no permission':
        os.chmod(f, 0o644)
    elif how == 'directory':
        os.chmod(f, 0o755)
    after = snapshot(env, r + '/ws')
    env.check(after == before if how != 'no permission' else after == before[1], 'the workspace is unchanged')
    env.check(len(reopened(box).search().all()) == found, 'the box has the beads it had')


def taken(env, what, code, way='cli', indexed=False):
    """the name of the archive is in use"""
    r = env.root
    box, files = prepared(env, code, [], indexed)
    if way == 'cli':
        x = env.cli('save', 'box', '-w', '../ws', cwd=r + '/cwd')
        env.check(x.code == 0, 'saved')
        target = [f for f in os.listdir(r + '/box') if f.endswith('.zip') and '20200101T000000000001' not in f][0]
        Path(r + '/ws/changed').write_text('changed')
    else:
        target = 'ws_20200303T000000000000+0000.zip'
        Path(r + '/box/' + target).write_text('old')
    t = r + '/box/' + target
    if what != 'bead':
        os.unlink(t)
        if what == 'junk':
            env.junk_file(t)
        elif what == 'empty':
            Path(t).write_text('')
        elif what == 'directory':
            os.mkdir(t)
        elif what == 'link':
            Path(r + '/precious').write_text('precious')
            os.symlink('../precious', t)
        elif what == 'read only':
            Path(t).write_text('read only')
            os.chmod(t, 0o444)
    before = watched(env)
    if way == 'cli':
        x = env.cli('save', 'box', '-w', '../ws', cwd=r + '/cwd')
        env.reach('taken')
        env.check(x.code != 0, 'it is refused')
        check_failed(env, x, before, watched(env))
    else:
        st, v = env.guarded(lambda: str(reopened(box).store(Workspace(r + '/ws'), '20200303T000000000000+0000')))
        env.reach('taken')
        env.check(st == 'error', 'it is refused')
        env.check(watched(env) == before, 'nothing is changed')
    if what == 'link':
        env.check(Path(r + '/precious').read_text() == 'precious', 'the target of the link is unchanged')


def bad_box(env, how, code):
    """the box can not take the bead"""
    r = env.root
    box, files = prepared(env, code, [], False)
    d = r + '/box'
    if how == 'read only':
        os.chmod(d, 0o555)
    elif how == 'missing':
        os.rename(d, r + '/away')
    elif how == 'file':
        os.rename(d, r + '/away')
        Path(d).write_text('x')
    before = snapshot(env, r, ['config'])
    args = ['save', 'box', '-w', '../ws'] if how != 'unknown' else ['save', 'other', '-w', '../ws']
    if how == 'not a workspace':
        args = ['save', 'box', '-w', '../box']
    elif how == 'two boxes':
        known_box(env, 'box2')
        before = snapshot(env, r, ['config'])
        args = ['save', '-w', '../ws']
    x = env.cli(*args, cwd=r + '/cwd')
    env.reach('bad box')
    env.check(x.code != 0 and x.err != '' and 'Successfully' not in x.out, 'an error is reported')
    after = [f for f in snapshot(env, r, ['config']) if not f[0].startswith('cwd/error_')]
    env.check(after == before, 'nothing is changed')


def crashed(env, code, data, lo, hi, indexed=False, n=1):
    """the process dies while saving"""
    box, files = prepared(env, code, data, indexed, n)
    before = watched(env)
    found = len(reopened(box).search().by_name('ws').all())
    at = env.num('crash', lo, hi)
    x = env.cli('save', 'box', '-w', '../ws', cwd=env.root + '/cwd', crash_at=at)
    env.assume(x.crashed)
    env.reach('crashed')
    after = watched(env)
    env.check(after[1:] == before[1:], 'the workspace is unchanged')
    for f in before[0]:
        env.check(f in after[0], 'everything in the box is kept')
    new = [f for f in after[0] if f not in before[0]]
    env.check(len(new) <= 1, 'at most the archive is added')
    b = reopened(box)
    for bead in b.search().all():
        a = b.resolve(bead)
        a.validate()
        env.check(env.any((bead.name, bead.freeze_time_str) == ('ws', OLD), (bead.name, bead.freeze_time_str) == ('copied', COPIED), env.all(bead.name == 'ws', bead.kind == 'kind', not bead.freeze_time_str.startswith('202001'))), 'a bead that is found was there or is the one that was being saved')
    old = [x for x in b.search().all() if x.freeze_time_str == OLD]
    env.check(len(old) == found, 'the beads of the box are found')
    # saving again works
    env.set_now(LATER)
    x = env.cli('save', 'box', '-w', '../ws', cwd=env.root + '/cwd')
    env.check(x.code == 0, 'saving works after the crash')
    again = [x for x in reopened(box).search().all() if x.freeze_time_str == '20200913T122740000000+0000']
    env.check(len(again) == 1, 'the bead saved afterwards is found')
