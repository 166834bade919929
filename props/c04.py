"""C04 unpacking a bead never writes outside the target directory"""
import json
import os
import zipfile
from pathlib import Path
from bead.exceptions import InvalidArchive
from bead.tech import securehash
from bead.workspace import Workspace
from bead.ziparchive import ZipArchive
from props.cmdlib import snapshot

T = '20200101T000000000001+0000'
WORK = '/w1/w2/w3/w4/work'


def hostile(env, path, names, inputs=None):
    """a valid bead with members of any name"""
    files = [(n, b'content of %d' % k) for k, n in enumerate(names)]
    meta = dict(meta_version='aaa947a6-1f7a-11e6-ba3a-0021cc73492e', kind='kind', freeze_time=T, freeze_name='bead', inputs=inputs or {})
    files.append(('meta/bead', json.dumps(meta).encode('utf-8')))
    manifest = {}
    for n, c in files:
        manifest[n] = securehash.bytes(c)
    with zipfile.ZipFile(path, 'w') as z:
        for n, c in files:
            z.writestr(n, c)
        z.writestr('meta/manifest', json.dumps(manifest).encode('utf-8'))


def member(env, label, part, prefix, alphabet, lo, hi, suffix=''):
    start = {'root': env.root + WORK + '/', 'slash root': '/' + env.root + '/w1/w2/w3/w4/', 'up root': '../..' + env.root + WORK + '/'}.get(prefix, prefix)
    t = env.text(label, list(alphabet), lo, hi)
    if start == '':
        env.assume(env.neg(t[:1] == '/'))       # absolute names only below the scratch directory
    return part + '/' + start + t + suffix


def outside(s, prefix):
    """the part of a snapshot that is not in a directory"""
    return [x for x in s if x[0] != prefix and not x[0].startswith(prefix + '/')]


def world(env, depth=True):
    """directories around with files that must not change"""
    r = env.root
    env.setenv('A', '../a')
    os.makedirs(r + WORK)
    os.mkdir(r + WORK + '/destx')
    d = r
    for part in WORK.split('/')[1:]:
        Path(d + '/a').write_text('precious')
        d = d + '/' + part
    Path(d + '/a').write_text('precious')
    Path(d + '/destx/a').write_text('precious')


def edit(env, part, prefix, alphabet, lo, hi, suffix='', also=(), review=False):
    """the bead is edited"""
    r = env.root
    world(env)
    work = r + WORK
    name = member(env, 'name', part, prefix, alphabet, lo, hi, suffix)
    names = list(also)
    for a in also:
        env.assume(env.neg(a == name))
    hostile(env, r + '/bead.zip', names + [name] if env.flag('last') else [name] + names)
    before = snapshot(env, r, skip=['config'])
    x = env.cli('edit', *(['--review'] if review else []), r + '/bead.zip', 'dest', cwd=work)
    env.reach('edited' if x.code == 0 else 'refused')
    after = snapshot(env, r, skip=['config'])
    after = [f for f in after if not ('/error_' in f[0] and f[0].startswith(WORK[1:] + '/error_'))]
    env.check(outside(after, WORK[1:] + '/dest') == before, 'nothing is changed outside of the new workspace')


def load(env, prefix, alphabet, lo, hi, suffix='', also=(), how='add'):
    """the data is loaded as an input"""
    r = env.root
    world(env)
    work = r + WORK
    name = member(env, 'name', 'data', prefix, alphabet, lo, hi, suffix)
    names = list(also)
    for a in also:
        env.assume(env.neg(a == name))
    hostile(env, r + '/bead.zip', names + [name] if env.flag('last') else [name] + names)
    ws = Workspace(work + '/ws')
    ws.create('kind')
    Path(work + '/ws/a').write_text('precious')
    Path(work + '/ws/output/a').write_text('precious')
    if how == 'update':
        ws.add_input('in', 'kind', 'other', T)
    before = snapshot(env, r, skip=['config'])
    x = env.cli('input', how, 'in', r + '/bead.zip', '-w', 'ws', cwd=work)
    env.reach('loaded' if x.code == 0 else 'not loaded')
    after = snapshot(env, r, skip=['config'])
    after = [f for f in after if not f[0].startswith(WORK[1:] + '/error_')]

    def rest(s):
        return [f for f in outside(s, WORK[1:] + '/ws/input/in') if f[0] != WORK[1:] + '/ws/.bead-meta/bead' and f[0] != WORK[1:] + '/ws/input']
    env.check(rest(after) == rest(before), 'nothing is changed outside of the directory of the input')
    if x.code != 0:
        env.check(not os.path.exists(work + '/ws/input/in'), 'a refused bead is not loaded')


def direct(env, part, prefix, alphabet, lo, hi, suffix=''):
    """a part is unpacked into a directory"""
    r = env.root
    world(env)
    work = r + WORK
    name = member(env, 'name', part, prefix, alphabet, lo, hi, suffix)
    hostile(env, r + '/bead.zip', [name])
    a = ZipArchive(r + '/bead.zip')
    os.mkdir(work + '/dest')
    before = snapshot(env, r)
    try:
        if part == 'code':
            a.unpack_code_to(Path(work + '/dest'))
        else:
            a.unpack_data_to(Path(work + '/dest'))
        env.reach('extracted')
    except (InvalidArchive, OSError):
        env.reach('not extracted')
    env.check(outside(snapshot(env, r), WORK[1:] + '/dest') == outside(before, WORK[1:] + '/dest'), 'nothing is changed outside of the directory')
