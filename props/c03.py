"""C03 validation exposes every tampering with a saved bead"""
import os
import zipfile
from bead import zipopener
from bead.exceptions import InvalidArchive
from bead.workspace import Workspace
from bead.ziparchive import ZipArchive
from props.boxlib import new_box
from props.cmdlib import NAMES, named_files, write_files, members_of
from props.weblib import stamp

# the ways a member can be unreadable: the data, its compression or the method of it, encryption
WAYS = ('data', 'deflate', 'compression', 'encryption')
OTHER = ('input', 'output', 'temp', '.bead-meta')


def saved(env, code, data, n=1, inputs=1, plain=False):
    r = env.root
    os.mkdir(r + '/making')
    ws = Workspace(r + '/making/name')
    ws.create(env.atom('kind'))
    for i in range(inputs):
        ws.add_input('in%d' % i, env.atom('in%d.kind' % i), env.atom('in%d.cid' % i), stamp(env, 'in%d.t' % i))
    names = {}
    codes = named_files(env, code, 'code.', NAMES, n, names)
    for path, c in codes:
        env.assume(env.neg(env.any(*[path.split('/')[0] == o for o in OTHER])))
    datas = named_files(env, data, 'data.', NAMES, n, names)
    write_files(env, str(ws.directory), codes)
    write_files(env, str(ws.directory) + '/output', datas)
    path = new_box(env).store(ws, stamp(env, 't'))
    cid = ZipArchive(path).content_id
    return path, cid


def write_archive(path, members):
    with zipfile.ZipFile(path, 'w') as z:
        for name, content in members:
            z.writestr(name, content)


def is_valid(path):
    try:
        ZipArchive(path).validate()
        return True
    except InvalidArchive:
        return False


def pick_member(env, members, label='member', meta=False):
    k = env.num(label, 0, len(members) - 1)
    if members[k][0] == 'meta/manifest':
        env.assume(False)
    if meta:
        env.assume(members[k][0] == 'meta/bead')
    return k


def untampered(env, code, data, n=1, inputs=1):
    path, cid = saved(env, code, data, n, inputs)
    env.check(is_valid(path), 'a saved bead is valid')
    env.reach('valid')
    # moved or copied
    members = members_of(path)
    if env.flag('other order'):
        members.reverse()
    new = env.root + '/' + env.pick('file name', ['name.zip', 'other_20200101.zip'])
    write_archive(new, members)
    a = ZipArchive(new)
    a.validate()
    env.check(a.content_id == cid, 'the content id is in the archive')


def tampered(env, code, data, how, n=1, inputs=1):
    """one member is added, removed, renamed or changed"""
    path, cid = saved(env, code, data, n, inputs)
    members = members_of(path)
    if how == 'add':
        name = env.pick('part', ['code/', 'data/']) + env.text('new', NAMES + [('/', '/')], 1, n + 1)
        for m, c in members:
            env.assume(env.neg(m == name))
        members.insert(env.num('place', 0, len(members)), (name, env.content('added') if env.flag('has content') else b''))
    elif how == 'remove':
        k = pick_member(env, members)
        del members[k]
    elif how == 'rename':
        k = pick_member(env, members)
        name = env.pick('part', ['code/', 'data/', '', 'code/sub/', 'meta/']) + env.text('new', NAMES, 1, n)
        for m, c in members:
            env.assume(env.neg(m == name))
        members[k] = (name, members[k][1])
    elif how == 'change':
        k = pick_member(env, members)
        new = env.content('changed') if env.flag('has content') else b''
        env.assume(env.neg(new == members[k][1]))
        members[k] = (members[k][0], new)
    elif how == 'append':
        k = pick_member(env, members)
        new = members[k][1] + b'x' if env.flag('at the end') else b'x' + members[k][1]
        members[k] = (members[k][0], new)
    elif how == 'swap':
        k = pick_member(env, members)
        j = pick_member(env, members, 'with')
        env.assume(env.neg(members[k][1] == members[j][1]))
        a, b = members[k], members[j]
        members[k] = (a[0], b[1])
        members[j] = (b[0], a[1])
    elif how == 'form':
        k = pick_member(env, members)
        name = members[k][0]
        part, rest = name.split('/', 1)
        other = env.pick('form', [name + '/', part + '//' + rest, part + '/./' + rest, part + '\\' + rest, part + '/' + rest + ' ', part.upper() + '/' + rest, name[:-1]])
        for m, c in members:
            env.assume(env.neg(m == other))
        members[k] = (other, members[k][1])
    new = env.root + '/name.zip'
    write_archive(new, members)
    env.reach('tampered')
    env.check(env.neg(is_valid(new)), 'tampering is detected')


def damaged(env, code, data):
    """a member can not be read any more"""
    path, cid = saved(env, code, data)
    members = members_of(path)
    k = pick_member(env, members)
    zipopener.close_all()
    way = env.pick('way', WAYS)
    if way == 'deflate':
        env.assume(env.neg(members[k][1] == b''))
    env.damage_entry(path, members[k][0], way)
    env.reach('damaged')
    env.check(env.neg(is_valid(path)), 'damage is detected')


def meta_changed(env, key, keep_form=True):
    """one value of the metadata is changed"""
    import json
    path, cid = saved(env, ['A'], ['B'])
    members = members_of(path)
    k = [i for i in range(len(members)) if members[i][0] == 'meta/bead'][0]
    meta = json.loads(members[k][1].decode('utf-8'))
    new = env.atom('new') if 'time' not in key else stamp(env, 'new')
    d = meta
    parts = key.split('.')
    for p in parts[:-1]:
        d = d[p]
    old = d.get(parts[-1])
    if parts[-1] == 'new input':
        d['new input'] = dict(kind='k', content_id='c', freeze_time='20200101T000000000001+0000')
    elif parts[-1] == 'no':
        del d['in0']
    elif parts[-1] == 'renamed':
        d['in1'] = d['in0']
        del d['in0']
    else:
        env.assume(env.neg(new == old))
        d[parts[-1]] = new
    members[k] = (members[k][0], json.dumps(meta, indent=4, sort_keys=True).encode('utf-8'))
    p = env.root + '/name.zip'
    write_archive(p, members)
    env.reach('metadata')
    env.check(env.neg(is_valid(p)), 'tampering with the metadata is detected')


def with_manifest(env, code, data, how):
    """the manifest is changed, too: it is another bead"""
    import json
    path, cid = saved(env, code, data)
    members = members_of(path)
    m = [i for i in range(len(members)) if members[i][0] == 'meta/manifest'][0]
    manifest = json.loads(members[m][1].decode('utf-8'))
    names = [n for n, c in members if n != 'meta/manifest']
    if how == 'remove':
        k = names[env.num('which', 0, len(names) - 1)]
        del manifest[k]
    elif how == 'add':
        k = env.pick('part', ['code/', 'data/', '']) + env.text('new', NAMES, 1, 1)
        for x in names:
            env.assume(env.neg(x == k))
        manifest[k] = env.atom('hash')
    elif how == 'hash':
        k = names[env.num('which', 0, len(names) - 1)]
        new = env.atom('hash')
        env.assume(env.neg(manifest[k] == new))
        manifest[k] = new
    elif how == 'form':
        pass
    text = json.dumps(manifest, indent=4 if how != 'form' else 2, sort_keys=True)
    members[m] = (members[m][0], text.encode('utf-8'))
    p = env.root + '/name.zip'
    write_archive(p, members)
    env.reach('manifest')
    env.check(env.neg(ZipArchive(p).content_id == cid), 'the content id is another one')
