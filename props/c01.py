"""C01 saving a workspace captures exactly its code, output and metadata"""
import json
import os
from pathlib import Path
from bead.box import Box
from bead.workspace import Workspace
from bead.ziparchive import ZipArchive
from props.boxlib import new_box, reopened, index, save
from props.cmdlib import NAMES, known_box, named_files, write_files, members_of, same_files, snapshot, workspace_dir, check_data
from props.weblib import stamp

OTHER = ('input', 'output', 'temp', '.bead-meta')


def check_archive(env, path, code, data, kind, name, inputs, freeze_time, instants=None):
    members = members_of(path)
    env.check(same_files(env, [(n, c) for n, c in members if n.startswith('code/')], [('code/' + n, c) for n, c in code]), 'the code part has exactly the code files')
    env.check(same_files(env, [(n, c) for n, c in members if n.startswith('data/')], [('data/' + n, c) for n, c in data]), 'the data part has exactly the output files')
    rest = [n for n, c in members if not n.startswith('code/') and not n.startswith('data/')]
    env.check(sorted(rest) == ['meta/bead', 'meta/manifest'], 'nothing else is there')
    meta = json.loads([c for n, c in members if n == 'meta/bead'][0].decode('utf-8'))
    env.check(meta['kind'] == kind, 'the kind is recorded')
    env.check(meta['freeze_name'] == name, 'the name is recorded')
    if freeze_time is not None:
        env.check(meta['freeze_time'] == freeze_time, 'the freeze time is recorded')
    got = meta['inputs']
    env.check(len(got) == len(inputs), 'only the declared inputs are recorded')
    for n, k, c, t in inputs:
        env.check(n in got, 'declared inputs are recorded')
        env.check(env.all(got[n]['kind'] == k, got[n]['content_id'] == c, got[n]['freeze_time'] == t), 'inputs are recorded as declared')
    archive = ZipArchive(path)
    archive.validate()
    env.check(env.all(archive.name == name, archive.kind == kind), 'the bead has its name and kind')
    return meta


def the_inputs(env, n):
    specs = []
    for i in range(n):
        specs.append((env.text('in%d.name' % i, ['az'], 1, 1) if i == 0 else 'in%d' % i, env.atom('in%d.kind' % i), env.atom('in%d.cid' % i), stamp(env, 'in%d.t' % i)))
    return specs


def capture(env, code=(), data=(), other=(), n=1, inputs=0, alphabet=NAMES, empty=False):
    """any files, in the code, under output, and where they are not part of the bead"""
    r = env.root
    kind = env.atom('kind')
    specs = the_inputs(env, inputs)
    t = stamp(env, 't')
    ws = Workspace(r + '/name')
    ws.create(kind)
    for s in specs:
        ws.add_input(*s)
    os.chmod(r + '/name/input', 0o755)
    names = {}
    codes = named_files(env, code, 'code.', alphabet, n, names)
    for path, c in codes:
        top = path.split('/')[0]
        env.assume(env.neg(env.any(*[top == o for o in OTHER])))
    datas = named_files(env, data, 'data.', alphabet, n, names)
    others = named_files(env, other, 'other.', alphabet, n, names)
    write_files(env, r + '/name', codes)
    write_files(env, r + '/name/output', datas)
    write_files(env, r + '/name', others)
    if empty:
        os.mkdir(r + '/name/empty')
        os.mkdir(r + '/name/output/empty')
    env.listing_reversed(env.flag('reversed'))
    box = new_box(env)
    if env.flag('indexed'):
        index(box)
        box = reopened(box)
    before = snapshot(env, r + '/name')
    path = box.store(ws, t)
    env.reach('saved')
    env.check(snapshot(env, r + '/name') == before, 'the workspace is unchanged')
    check_archive(env, path, codes, datas, kind, 'name', specs, t)


def dated(env, lo=0, hi=5000000000, indexed=False):
    """files of any age are saved"""
    r = env.root
    kind = env.atom('kind')
    t = stamp(env, 't')
    ws = Workspace(r + '/name')
    ws.create(kind)
    code, data = env.content('code', 1), env.content('data', 1)
    write_files(env, r + '/name', [('run', code), ('output/out', data)])
    for path, label in (('run', 'code.changed'), ('output/out', 'data.changed')):
        when = env.int(label, lo, hi)
        os.utime(r + '/name/' + path, (when, when))
        if env.all(when >= 315532800, when < 4354819200):
            env.reach('ordinary date')
        else:
            env.reach('odd date')
    box = new_box(env)
    if indexed:
        index(box)
        box = reopened(box)
    path = box.store(ws, t)
    env.reach('saved')
    check_archive(env, path, [('run', code)], [('out', data)], kind, 'name', [], t)


def special_names(env, where, depth):
    """files that are called as the directories of the workspace, elsewhere"""
    r = env.root
    ws = Workspace(r + '/name')
    ws.create('kind')
    a = env.pick('a', list(OTHER) + ['inputs', 'outpu', 'meta', 'code', 'data', 'Input', '.git', 'error', 'temp ', 'bead'])
    b = env.pick('b', list(OTHER) + ['manifest', 'bead', 'x'])
    path = a if depth == 1 else a + '/' + b if depth == 2 else 'sub/' + a + '/' + b
    c = env.content('content')
    top = path.split('/')[0]
    codes = []
    datas = []
    if where == 'code':
        env.assume(env.neg(depth == 1 and top in OTHER))
        if top not in OTHER:
            codes = [(path, c)]
            env.reach('code')
        elif top == 'output':
            datas = [(path[7:], c)]
            env.reach('data')
        else:
            env.reach('neither')
        os.chmod(r + '/name/input', 0o755)
        env.assume(env.neg(path == '.bead-meta/bead'))
        write_files(env, r + '/name', [(path, c)])
    else:
        datas = [(path, c)]
        write_files(env, r + '/name/output', datas)
    box = new_box(env)
    p = box.store(ws, '20200101T000000000001+0000')
    check_archive(env, p, codes, datas, 'kind', 'name', [], '20200101T000000000001+0000')


def command(env, compression=None, loaded=False):
    """the save command, from any directory of the workspace; inputs may be loaded"""
    r = env.root
    if compression is not None:
        env.setenv('BEAD_ZIP_COMPRESSION', compression)
    known_box(env, 'box')
    ws = workspace_dir(env, 'name')
    kind = Workspace(ws).kind
    inputs = []
    if loaded:
        s = save(env, Box('box', Path(r + '/box')), 'src', '20200101T000000000001+0000', env.atom('src.kind'), data=env.atom('src.data'))
        env.check(env.cli('input', 'add', 'in', 'src', cwd=ws).code == 0, 'input add works')
        inputs.append(('in', s.kind, s.content_id, s.freeze_time))
    codes = [('a', env.content('a')), ('d/b', env.content('b'))]
    datas = [('c', env.content('c'))]
    write_files(env, ws, codes)
    write_files(env, ws + '/output', datas)
    write_files(env, ws + '/temp', [('x', env.content('x'))])
    env.set_now(env.int('now', 1600000000 * 10 ** 6, 1600000001 * 10 ** 6))
    before = snapshot(env, ws)
    old = os.listdir(r + '/box')
    where = env.pick('where', ['', '/d', '/output', '/input', '/temp'])
    x = env.cli('save', *(['box'] if env.flag('named') else []), cwd=ws + where)
    env.check(x.code == 0, 'save works')
    env.reach('command')
    env.check(snapshot(env, ws) == before, 'the workspace is unchanged')
    new = [f for f in os.listdir(r + '/box') if f not in old]
    env.check(len(new) == 1, 'there is one new archive in the box')
    check_archive(env, r + '/box/' + new[0], codes, datas, kind, 'name', inputs, None)
    b = Box('box', Path(r + '/box')).search().by_name('name').newest()
    from props.weblib import instant
    from props.lib import ts_fields, instant_us
    env.check(instant_us(env, ts_fields(b.freeze_time_str)) == env.now(), 'the freeze time is that of saving')
