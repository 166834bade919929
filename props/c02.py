"""C02 editing a saved bead restores its source and its input definitions"""
import os
from pathlib import Path
from bead.box import Box
from bead.workspace import Workspace
from bead.ziparchive import ZipArchive
from props.boxlib import new_box, reopened, index
from props.cmdlib import NAMES, known_box, named_files, write_files, same_files, snapshot, files_of, check_data, owner_read_only
from props.weblib import stamp

T = '20200101T000000000001+0000'
OTHER = ('input', 'output', 'temp', '.bead-meta')


def saved(env, box, code, data, n, inputs, alphabet=NAMES, name='name'):
    """a bead with any files and inputs"""
    kind = env.atom('kind')
    specs = []
    for i in range(inputs):
        specs.append((env.text('in%d.name' % i, ['az'], 1, 1) if i == 0 else 'in%d' % i, env.atom('in%d.kind' % i), env.atom('in%d.cid' % i), stamp(env, 'in%d.t' % i)))
    os.mkdir(env.root + '/making')
    ws = Workspace(env.root + '/making/' + name)
    ws.create(kind)
    for s in specs:
        ws.add_input(*s)
    names = {}
    codes = named_files(env, code, 'code.', alphabet, n, names)
    for path, c in codes:
        env.assume(env.neg(env.any(*[path.split('/')[0] == o for o in OTHER])))
    datas = named_files(env, data, 'data.', alphabet, n, names)
    write_files(env, str(ws.directory), codes)
    write_files(env, str(ws.directory) + '/output', datas)
    path = box.store(ws, T)
    return path, kind, specs, codes, datas


def check_workspace(env, d, kind, specs, codes, datas):
    ws = Workspace(d)
    env.check(ws.is_valid, 'the workspace is valid')
    env.check(ws.kind == kind, 'it has the kind of the bead')
    env.check(len(ws.inputs) == len(specs), 'it has the inputs of the bead')
    for n, k, c, t in specs:
        i = ws.get_input(n)
        env.check(i is not None, 'it has each input')
        env.check(env.all(i.kind == k, i.content_id == c, i.freeze_time_str == t), 'inputs are those of the bead')
        env.check(not ws.is_loaded(n), 'inputs are not loaded')
    got = files_of(env, d)
    code = [(p, c) for p, c in got if p.split('/')[0] not in OTHER]
    env.check(same_files(env, code, codes), 'it has exactly the code files')
    env.check(os.listdir(d + '/input') == [], 'there are no inputs')
    env.check(os.listdir(d + '/temp') == [], 'there are no temporary files')
    env.check(same_files(env, files_of(env, d + '/output'), datas), 'the output directory has exactly the reviewed data files')
    if not datas:
        env.check(os.listdir(d + '/output') == [], 'the output directory is empty')
    env.check(os.listdir(d + '/.bead-meta') == ['bead'], 'there is nothing else in the metadata')


def edit(env, code=(), data=(), n=1, inputs=0, review=False, how='name', indexed=False):
    """a bead edited by name, by file, to a given or derived place"""
    r = env.root
    box = known_box(env, 'box')
    path, kind, specs, codes, datas = saved(env, box, code, data, n, inputs)
    if indexed:
        index(box)
    env.listing_reversed(env.flag('reversed'))
    work = r + '/work'
    os.mkdir(work)
    before = snapshot(env, r + '/box'), snapshot(env, r + '/making')
    args = ['edit']
    if review:
        args.append('--review')
    if how == 'name':
        args.append('name')
        dest = work + '/name'
    elif how == 'file':
        args += ['../box/' + path.name, 'dest']
        dest = work + '/dest'
    else:
        args += ['name', 'sub/dest']
        dest = work + '/sub/dest'
    x = env.cli(*args, cwd=work)
    env.check(x.code == 0, 'edit works')
    env.reach('edited')
    check_workspace(env, dest, kind, specs, codes, datas if review else [])
    env.check(len(os.listdir(work)) == 1, 'nothing else is created')
    env.check((snapshot(env, r + '/box'), snapshot(env, r + '/making')) == before, 'the box is unchanged')


def again(env, code, data, n=1, inputs=1):
    """an edited bead, with its data, saved again at the same time is the same bead"""
    r = env.root
    box = new_box(env)
    path, kind, specs, codes, datas = saved(env, box, code, data, n, inputs)
    archive = ZipArchive(path)
    ws = Workspace(r + '/work/name')
    archive.unpack_to(ws)
    archive.unpack_data_to(Path(r + '/work/name/output'))
    other = new_box(env, 'other')
    p = other.store(ws, T)
    env.reach('again')
    env.check(ZipArchive(p).content_id == archive.content_id, 'it has the same content')


def load(env, data, n=1, code=(), nick='in', how='add', indexed=False):
    """data of a bead is available under the input directory"""
    r = env.root
    box = known_box(env, 'box')
    path, kind, specs, codes, datas = saved(env, box, code, data, n, 0)
    if indexed:
        index(box)
    bead = Box('box', Path(r + '/box')).search().all()[0]
    x = env.cli('new', 'ws', cwd=r)
    ws = r + '/ws'
    write_files(env, ws, [('x', env.content('x'))])
    write_files(env, ws + '/output', [('y', env.content('y'))])
    if how == 'load':
        Workspace(ws).add_input(nick, bead.kind, bead.content_id, bead.freeze_time_str)
    elif how == 'update':
        Workspace(ws).add_input(nick, bead.kind, 'other', '20190101T000000000000+0000')
    before = snapshot(env, ws)
    if how == 'add':
        x = env.cli('input', 'add', nick, 'name', cwd=ws)
    elif how == 'file':
        x = env.cli('input', 'add', nick, str(path), cwd=ws)
    elif how == 'load':
        x = env.cli('input', 'load', nick, cwd=ws)
    else:
        x = env.cli('input', 'update', cwd=ws)
    env.check(x.code == 0, 'it works')
    env.reach('loaded')
    check_data(env, ws, nick, datas)
    env.check(os.listdir(ws + '/input') == [nick], 'nothing else is loaded')
    i = Workspace(ws).get_input(nick)
    env.check(env.all(i.kind == kind, i.content_id == bead.content_id, i.freeze_time_str == T), 'the input is defined as the bead')

    def rest(s):
        return [x for x in s if x[0] != 'input' and not x[0].startswith('input/') and x[0] != '.bead-meta/bead']
    env.check(rest(snapshot(env, ws)) == rest(before), 'nothing else is changed in the workspace')
    env.check(owner_read_only(ws + '/input'), 'the input directory is read only')
    for rel, what, mode, c in snapshot(env, ws + '/input/' + nick):
        env.check(mode & 0o200 == 0, 'the data is read only')
