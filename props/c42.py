"""C42 a bead reference denotes the file at that path, or the newest bead of that name not after the given time"""
import os
import shutil
from pathlib import Path
from bead.workspace import Workspace
from props.boxlib import new_box, save, index
from props.cmdlib import known_box, snapshot, files_of
from props.weblib import stamp, instant

COMMANDS = ('edit', 'review', 'add', 'update')


def world(env, n, names, places, zones, indexed):
    boxes = {'one': known_box(env, 'one'), 'two': known_box(env, 'two')}
    vs = []
    for k in range(n):
        t = stamp(env, 't%d' % k, zones=zones and k == 0)
        at = instant(t)
        for o in vs:
            if o.name == names[k]:
                env.assume(env.neg(o.at == at))
        s = save(env, boxes[places[k]], names[k], t, 'kind%d' % k, data='data%d' % k, code='code%d' % k)
        s.at = at
        vs.append(s)
    for b in indexed:
        index(boxes[b])
    return vs


def run(env, command, ref, time):
    """the command, and what it made available: the text of the code or data file; None if it was refused"""
    r = env.root
    ws = r + '/work/ws'
    limit = ['--time', time] if time is not None else []
    if command in ('edit', 'review'):
        x = env.cli('edit', ref, 'ws', *limit, *(['--review'] if command == 'review' else []), cwd=r + '/work')
        got = ws + '/code'
    else:
        got = ws + '/input/in/data'
        if command == 'add':
            x = env.cli('input', 'add', 'in', ref, *limit, '-w', 'ws', cwd=r + '/work')
        elif command == 'add same':
            x = env.cli('input', 'add', ref, *limit, '-w', 'ws', cwd=r + '/work')
            got = ws + '/input/' + ref + '/data'
        else:
            x = env.cli('input', 'update', 'in', ref, *limit, '-w', 'ws', cwd=r + '/work')
    return x, got


def prepare(env, command):
    r = env.root
    if not os.path.isdir(r + '/work'):
        os.mkdir(r + '/work')
    if command not in ('edit', 'review'):
        env.cli('new', 'ws', cwd=r + '/work')
    if command == 'update':
        Workspace(r + '/work/ws').add_input('in', 'old kind', 'old', '20200101T000000000000+0000')


def check_got(env, command, x, got, s):
    env.check(env.all(x.code == 0, not x.internal), 'the command works')
    env.check(os.path.isfile(got), 'the files of the bead are there')
    with open(got, 'rb') as f:
        text = f.read()
    k = s.kind[4:]
    env.check(text == (('code' if got.endswith('code') else 'data') + k).encode('utf-8'), 'it is the bead referred to')
    ws = Workspace(env.root + '/work/ws')
    if command in ('edit', 'review'):
        env.check(ws.kind == s.kind, 'it has the kind of the bead')
    else:
        i = [i for i in ws.inputs][0]
        env.check(env.all(i.content_id == s.content_id, i.kind == s.kind, i.freeze_time_str == s.freeze_time), 'the input refers to the bead')


def by_name(env, command, n, names, places, zones=False, indexed=(), time=True, decoy=None, asked=('a', 'b', 'c')):
    """the reference is a name"""
    r = env.root
    vs = world(env, n, names, places, zones, indexed)
    prepare(env, command)
    ref = env.pick('reference', list(asked))
    if decoy == 'directory':
        os.mkdir(r + '/work/' + ref)
    elif decoy == 'dangling':
        os.symlink('nothing', r + '/work/' + ref)
    elif decoy == 'other directory':
        shutil.copy(vs[0].path, r + '/' + ref)
    limit, at = None, None
    if time:
        limit = stamp(env, 'limit', zones=zones)
        at = instant(limit)
    before = snapshot(env, r, ['config'])
    x, got = run(env, command, ref, limit)
    best = None
    for s in vs:
        if s.name == ref and (at is None or s.at <= at) and (best is None or best.at < s.at):
            best = s
    if best is None:
        env.reach('refused')
        env.check(env.all(x.code != 0, x.err != '', not x.internal), 'it is refused')
        env.check(snapshot(env, r, ['config']) == before, 'nothing is changed')
    else:
        env.reach('by name')
        check_got(env, command, x, got, best)


def by_path(env, command, how, indexed=(), time=False):
    """the reference is a path"""
    r = env.root
    vs = world(env, 2, ['a', 'a'], ['one', 'two'], False, indexed)
    prepare(env, command)
    k = env.num('which', 0, 1)
    s = vs[k]
    p = str(s.path)
    if how == 'absolute':
        ref = p
    elif how == 'relative':
        ref = '../' + p[len(r) + 1:]
    elif how == 'dots':
        ref = './../work/.././' + p[len(r) + 1:]
    elif how == 'renamed':
        ref = 'any name.zip'
        shutil.copy(p, r + '/work/' + ref)
    elif how == 'named like a bead':
        ref = 'a'
        shutil.copy(p, r + '/work/a')
    elif how == 'named like a box':
        ref = env.pick('box', ['one', 'two'])
        shutil.copy(p, r + '/work/' + ref)
    elif how == 'any name':
        ref = env.text('file name', [('\x01', '.'), ('0', '\ud7ff')], 1, 2)
        env.assume(env.neg(env.any(ref == '.', ref == '..', ref == 'ws', ref[:1] == '-', ref[:1] == '.', '__' in ref)))
        shutil.copy(p, r + '/work/' + ref)
    elif how == 'link':
        ref = 'a'
        os.symlink(p, r + '/work/a')
    else:
        ref = 'a_20200303T000000000000+0000.zip'
        shutil.copy(p, r + '/work/' + ref)
    before = snapshot(env, r + '/one', []), snapshot(env, r + '/two', [])
    x, got = run(env, command, ref, '20190101' if time else None)
    env.reach('by path')
    check_got(env, command, x, got, s)
    env.check((snapshot(env, r + '/one', []), snapshot(env, r + '/two', [])) == before, 'the boxes are unchanged')


def not_a_bead(env, command, what):
    """the file is no bead"""
    r = env.root
    vs = world(env, 1, ['a'], ['one'], False, ())
    prepare(env, command)
    if what == 'text':
        Path(r + '/work/a').write_text('text')
    elif what == 'junk':
        env.junk_file(r + '/work/a')
    elif what == 'empty':
        Path(r + '/work/a').write_text('')
    before = snapshot(env, r, ['config'])
    x, got = run(env, command, 'a', None)
    env.reach('not a bead')
    env.check(snapshot(env, r, ['config']) == before, 'nothing is changed')
    env.check(not x.internal, 'it does not crash')
