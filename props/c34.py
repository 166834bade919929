"""C34 commands running at the same time keep the index consistent"""
import os
from pathlib import Path
from bead.box import Box
from bead.box_index import BoxIndex
from bead.workspace import Workspace
from bead.ziparchive import ZipArchive
from props.boxlib import save, reopened, index, same_bead, same_inputs, workspace, Stored
from props.cmdlib import known_box, workspace_dir, files_of, same_files

IT = '20200101T000000000005+0000'


class Found:
    """a bead as reported by a search in another process"""

    def __init__(self, v):
        self.name, self.content_id, self.kind, self.freeze_time_str, inputs = v
        self.inputs = [FoundInput(i) for i in inputs]


class FoundInput:
    def __init__(self, v):
        self.name, self.kind, self.content_id, self.freeze_time_str = v


def act(env, what, box, ws, now):
    """one whole command of one process"""
    env.set_now(now)
    if what == 'save':
        return env.cli('save', 'box', cwd=ws).code
    if what == 'index':
        return env.cli('box', 'index', '--dir', str(box.directory), cwd=env.root).code
    if what == 'reindex':
        return env.cli('box', 'reindex', '--dir', str(box.directory), cwd=env.root).code
    if what == 'remove':
        # the archive of the first bead is removed by hand, then the index is updated
        os.unlink(env.first)
        return env.cli('box', 'index', '--dir', str(box.directory), cwd=env.root).code

    def search():
        return [[b.name, b.content_id, b.kind, b.freeze_time_str, [[i.name, i.kind, i.content_id, i.freeze_time_str] for i in b.inputs]] for b in reopened(box).search().all()]
    st, v = env.guarded(search)
    return [st, v]


def count(env, found, stored):
    return len([f for f in found if same_bead(env, f, stored)])


def check_search(env, v, stored, certain, what):
    st, found = v
    if st == 'error':
        # the index disappeared under the search: an error is not a wrong answer
        env.check(certain is None, what + 'a search works')
        return
    found = [Found(f) for f in found]
    for f in found:
        hits = [s for s in stored if same_bead(env, f, s)]
        env.check(len(hits) == 1, what + 'only beads of the box are found')
        s = hits[0]
        env.check(env.all(f.kind == s.kind, f.freeze_time_str == s.freeze_time, same_inputs(env, f, s)), what + 'a found bead has all of its metadata')
        env.check(count(env, found, s) == 1, what + 'a bead is found once')
    for s in certain or ():
        env.check(count(env, found, s) == 1, what + 'a bead that was there all the time is found')


def saved(env, box, ws, kind, before, inputs=()):
    """what a save of the workspace added"""
    name = os.path.basename(ws)
    new = [f for f in sorted(os.listdir(box.directory)) if f.endswith('.zip') and f not in before]
    return [Stored(box.directory / f, name, kind, f[len(name) + 1:-4], inputs) for f in new if f.startswith(name + '_')]


def pair(env, first, second, indexed, last, same=False):
    """another command runs as a whole at any access of the first one to the box"""
    r = env.root
    box = known_box(env, 'box')
    spec = [('in', 'ik', env.atom('in.cid'), IT), ('in2', 'ik', 'ic', IT)]
    a = save(env, box, 'a', '20200101T000000000001+0000', env.atom('kind'), spec, data='a')
    b = save(env, box, 'b', '20200101T000000000002+0000', 'k', data='b')
    env.first = str(a.path)
    wss = []
    for k in range(2):
        os.makedirs(r + '/dir%d' % k)
        name = 'new' if same or k == 0 else 'other'
        wss.append(r + '/dir%d/%s' % (k, name))
        workspace(wss[k], 'kind%d' % k, spec[:1], [('code', 'code%d' % k)], [('data', 'data%d' % k)])
    if indexed:
        index(box)
    before = sorted(os.listdir(box.directory))
    t = 1_600_000_000_000_000
    at = env.num('access', 0, last)
    t2 = t if same == 'time' else t + 5

    def other():
        v = act(env, second, box, wss[1], t2)
        env.set_now(t2 if same == 'time' else t2 + 5)
        return v
    env.meanwhile(other, at, under=str(box.directory))
    x = act(env, first, box, wss[0], t)
    ran, y = env.meanwhile_ran(last)
    if not ran:
        y = other()
    env.set_now(t + 1000000)
    env.reach('meanwhile' if ran else 'one after the other')
    stored = [a, b]
    saves = [(first, x, 0), (second, y, 1)]
    new = [f for f in sorted(os.listdir(box.directory)) if f.endswith('.zip') and f not in before]
    expected = 0
    for what, v, k in saves:
        if what == 'save':
            if same != 'time':
                env.check(v == 0, 'saving works')
            expected = expected + (1 if v == 0 else 0)
    env.check(len(new) == expected, 'every save that succeeded left its archive')
    added = []
    for f in new:
        p = box.directory / f
        name = f[:f.index('_')]
        z = ZipArchive(p, 'x')
        z.validate()
        k = 0 if z.kind == 'kind0' else 1
        env.check(saves[k][0] == 'save' and saves[k][1] == 0, 'the archive is of a save that succeeded')
        added.append(Stored(p, name, 'kind%d' % k, f[len(name) + 1:-4], spec[:1]))
    everything = [a, b] + added
    gone = 'remove' in (first, second)
    finally_ = ([b] if gone else [a, b]) + added
    for what, v, k in saves:
        if what == 'search':
            other = saves[1 - k][0]
            # until the index is complete searches may give less
            certain = None if other == 'reindex' or (other in ('index', 'remove') and not indexed) else [b] if gone else [a, b]
            check_search(env, v, everything, certain, 'meanwhile: ')
        elif what != 'save':
            env.check(v == 0, 'indexing works')
    # everybody is finished
    if gone and ('reindex' in (first, second) or 'index' in (first, second)):
        # an archive removed while it was being indexed: the index knows when it is updated next time
        index(box)
    got = reopened(box).search().all()
    for s in finally_:
        hits = [g for g in got if same_bead(env, g, s)]
        env.check(len(hits) == 1, 'finally every bead is found once')
        env.check(env.all(hits[0].kind == s.kind, hits[0].freeze_time_str == s.freeze_time, same_inputs(env, hits[0], s)), 'finally every bead has all of its metadata')
        env.check(reopened(box).resolve(hits[0]).location == str(s.path), 'finally the archives are found')
    env.check(len(got) == len(finally_), 'finally nothing else is found')
    left = [f for f in os.listdir(box.directory) if not f.endswith('.zip') and not f.startswith('.index.sqlite')]
    env.check(left == [], 'nothing else is left in the box')


def fetch(env, command, second, indexed, last):
    """a command that needs a bead while another command changes the box"""
    r = env.root
    box = known_box(env, 'box')
    versions = []
    for k in range(2):
        s = save(env, box, 'a', '20200101T00000000000%d+0000' % k, 'k', [('in', 'ik', 'ic', IT)] if k else [], data='data%d' % k, code='code%d' % k)
        s.files = [('data', b'data%d' % k)]
        s.code = [('code', b'code%d' % k)]
        versions.append(s)
    old, new = versions
    env.first = str(new.path)
    os.makedirs(r + '/dir')
    w3 = r + '/dir/a'
    workspace(w3, 'k', [], [('code', 'code2')], [('data', 'data2')])
    w = workspace_dir(env, 'w')
    if command == 'update':
        x = env.cli('input', 'add', 'a', '-t', old.freeze_time, cwd=w)
        env.check(x.code == 0, 'input add works')
    if indexed:
        index(box)
    t = 1_600_000_000_000_000
    before = sorted(os.listdir(box.directory))
    at = env.num('access', 0, last)

    def other():
        v = act(env, second, box, w3, t + 5)
        env.set_now(t + 10)
        return v
    env.meanwhile(other, at, under=str(box.directory))
    env.set_now(t)
    argv = dict(add=['input', 'add', 'a'], update=['input', 'update'], edit=['edit', 'a'], load=['input', 'load'])[command]
    x = env.cli(*argv, cwd=w if command != 'edit' else r)
    ran, y = env.meanwhile_ran(last)
    if not ran:
        y = other()
    env.check(y == 0, 'the other command works')
    env.reach('fetched' if x.code == 0 else 'refused')
    env.check(env.neg(x.internal), 'no internal error')
    added = [f for f in sorted(os.listdir(box.directory)) if f.endswith('.zip') and f not in before]
    for f in added:
        s = Stored(box.directory / f, 'a', 'k', f[2:-4], [])
        s.files = [('data', b'data2')]
        s.code = [('code', b'code2')]
        versions.append(s)
    if second == 'save':
        env.check(x.code == 0, 'a save does not make beads unavailable')
    if command == 'edit':
        if x.code == 0:
            got = files_of(env, r + '/a')
            hits = [s for s in versions if same_files(env, [f for f in got if not f[0].startswith('.bead-meta')], s.code)]
            env.check(len(hits) == 1, 'the source is that of a version')
            env.check(second == 'remove' or hits[0] is not old, 'the source is not that of an old version')
            inputs = [[i.name, i.kind, i.content_id, i.freeze_time_str] for i in Workspace(r + '/a').inputs]
            env.check(inputs == [list(i) for i in hits[0].inputs], 'the inputs are those of that version')
        else:
            env.check(env.neg(os.path.lexists(r + '/a')), 'nothing is left of a failed edit')
        return
    inputs = list(Workspace(w).inputs)
    got = files_of(env, w + '/input')
    if x.code == 0 and inputs:
        env.check(len(inputs) == 1, 'one input')
        hits = [s for s in versions if inputs[0].content_id == s.content_id]
        env.check(len(hits) == 1, 'the input is a version of the bead')
        s = hits[0]
        env.check(env.all(inputs[0].kind == s.kind, inputs[0].freeze_time_str == s.freeze_time), 'the definition is that of the version')
        env.check(same_files(env, got, [('a/' + p, c) for p, c in s.files]), 'the data is that of the version')
        env.check(s is not old or second == 'remove' or (command == 'update' and second in ('index', 'reindex')), 'not an old version')
    elif command == 'update':
        env.check(env.all(len(inputs) == 1, inputs[0].content_id == old.content_id), 'a failed update keeps the definition')
        env.check(same_files(env, got, [('a/' + p, c) for p, c in old.files]), 'a failed update keeps the data')
    else:
        env.check(inputs == [] and got == [], 'a failed add defines nothing')
