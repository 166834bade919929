"""C05 the content id depends on the content and on nothing else"""
import os
import zipfile
from pathlib import Path
from bead.box import Box
from bead.workspace import Workspace
from bead.ziparchive import ZipArchive
from props.boxlib import new_box, reopened, index
from props.cmdlib import NAMES, named_files, write_files
from props.weblib import stamp

OTHER = ('input', 'output', 'temp', '.bead-meta')


def make(env, d, kind, inputs, codes, datas):
    ws = Workspace(d)
    ws.create(kind)
    for s in inputs:
        ws.add_input(*s)
    write_files(env, d, codes)
    write_files(env, d + '/output', datas)
    return ws


def code_names_ok(env, codes):
    for path, c in codes:
        env.assume(env.neg(env.any(*[path.split('/')[0] == o for o in OTHER])))


def same(env, code, data, n=1, inputs=0, what='place'):
    """the same bead saved in another way"""
    r = env.root
    kind = env.atom('kind')
    t = stamp(env, 't')
    names = {}
    codes = named_files(env, code, 'code.', NAMES, n, names)
    code_names_ok(env, codes)
    datas = named_files(env, data, 'data.', NAMES, n, names)
    specs = [('in%d' % i, env.atom('in%d.kind' % i), env.atom('in%d.cid' % i), stamp(env, 'in%d.t' % i)) for i in range(inputs)]
    os.makedirs(r + '/one/dir')
    os.makedirs(r + '/two')
    a = make(env, r + '/one/dir/name', kind, specs, codes, datas)
    first = new_box(env, 'first')
    cid = ZipArchive(first.store(a, t)).content_id
    second = new_box(env, 'the second')
    if what == 'order':
        env.listing_reversed(True)
        codes.reverse()
        datas.reverse()
        specs.reverse()
    elif what == 'zone':
        env.set_zone(env.pick('zone', [-18000, 19800, 0]))
        env.set_now(env.now() + env.int('later', 0, 10 ** 12))
    elif what == 'compression':
        env.setenv('BEAD_ZIP_COMPRESSION', env.pick('compression', ['off', 'stored', 'deflated', 'unknown', '']))
    elif what == 'index':
        index(second)
        second = reopened(second)
    b = make(env, r + '/two/name', kind, specs, codes, datas)
    if what == 'temporary':
        write_files(env, r + '/two/name', [('temp/x', env.content('x'))])
        os.chmod(r + '/two/name/input', 0o755)
        write_files(env, r + '/two/name', [('input/x/y', env.content('y'))])
        write_files(env, r + '/two/name', [('.bead-meta/other', env.content('z'))])
        os.mkdir(r + '/two/name/empty')
        os.mkdir(r + '/two/name/output/empty')
    if what == 'modes':
        for path, c in codes:
            os.chmod(r + '/two/name/' + path, env.pick('mode', [0o400, 0o755, 0o777]) if path == codes[0][0] else 0o600)
    if what == 'dates':
        for k, (path, c) in enumerate(codes):
            date = env.int('date%d' % k, 0, 5000000000)
            os.utime(r + '/two/name/' + path, (date, date))
    if what == 'comment':
        p = r + '/name_20200101.zip'
        b.pack(p, freeze_time=t, comment=env.pick('comment', ['', 'other comment']))
    else:
        p = second.store(b, t)
    if what == 'file name':
        os.rename(p, r + '/other.zip')
        p = r + '/other.zip'
    env.reach('same')
    env.check(ZipArchive(p).content_id == cid, 'the content id is the same')


def different(env, code, data, n=1, inputs=0, names=None):
    """two beads have the same content id exactly when they are the same"""
    r = env.root
    cids = []
    parts = []
    for k in ('1', '2'):
        os.mkdir(r + '/' + k)
        kind = env.atom('kind' + k)
        t = stamp(env, 't' + k, zones=True)
        name = env.pick('name' + k, names) if names else 'name'
        codes = named_files(env, code, 'code%s.' % k, NAMES, n)
        code_names_ok(env, codes)
        datas = named_files(env, data, 'data%s.' % k, NAMES, n)
        specs = []
        for i in range(inputs):
            specs.append((env.pick('in%s%d.name' % (k, i), ['a', 'b']) if i == 0 else 'c', env.atom('in%s%d.kind' % (k, i)), env.atom('in%s%d.cid' % (k, i)), stamp(env, 'in%s%d.t' % (k, i))))
        ws = make(env, r + '/' + k + '/' + name, kind, specs, codes, datas)
        cids.append(ZipArchive(new_box(env, 'box' + k).store(ws, t)).content_id)
        parts.append((kind, t, name, codes, datas, specs))

    def same_list(a, b):
        return env.all(len(a) == len(b), *[env.any(False, *[env.all(*[x[i] == y[i] for i in range(len(x))]) for y in b]) for x in a])
    a, b = parts
    equal = env.all(a[0] == b[0], a[1] == b[1], a[2] == b[2], same_list(a[3], b[3]), same_list(a[4], b[4]), same_list(a[5], b[5]))
    env.reach('two')
    env.check(env.iff(cids[0] == cids[1], equal), 'content ids are the same exactly when the contents are')


def moved(env, how):
    """the same file in another place is another bead"""
    r = env.root
    c = env.content('c')
    cids = []
    places = {
        'code or data': [(['x'], []), ([], ['x'])],
        'split': [(['a/b'], []), (['ab'], [])],
        'both': [(['x'], ['x']), (['x'], [])],
        'nothing': [([], []), (['x'], [])],
        'empty': [(['x'], []), (['x', 'y'], [])],
    }[how]
    for k in range(2):
        os.mkdir(r + '/%d' % k)
        codes, datas = places[k]
        ws = make(env, r + '/%d/name' % k, 'kind', [], [(p, b'' if p == 'y' else c) for p in codes], [(p, c) for p in datas])
        cids.append(ZipArchive(new_box(env, 'box%d' % k).store(ws, '20200101T000000000001+0000')).content_id)
    env.reach('moved')
    env.check(env.neg(cids[0] == cids[1]), 'beads having different files are different')


def contents(env, n):
    """short contents of two files: the same characters cut elsewhere are other contents"""
    r = env.root
    cids = []
    texts = []
    for k in ('1', '2'):
        os.mkdir(r + '/' + k)
        x = env.text('x' + k, [('a', 'b')], 0, n)
        y = env.text('y' + k, [('a', 'b')], 0, n)
        ws = make(env, r + '/' + k + '/name', 'kind', [], [('x', x.encode('utf-8'))], [('y', y.encode('utf-8'))])
        cids.append(ZipArchive(new_box(env, 'box' + k).store(ws, '20200101T000000000001+0000')).content_id)
        texts.append((x, y))
    env.reach('contents')
    env.check(env.iff(cids[0] == cids[1], env.all(texts[0][0] == texts[1][0], texts[0][1] == texts[1][1])), 'content ids are the same exactly when the contents are')
