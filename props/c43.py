"""C43 files that change while they are being saved never make a saved bead invalid"""
import os
import shutil
from pathlib import Path
from bead.ziparchive import ZipArchive
from bead.workspace import Workspace
from props.boxlib import workspace, reopened, index
from props.cmdlib import known_box, content_of, members_of, snapshot

IT = '20200101T000000000005+0000'


def change(env, what, target, new):
    if what in ('rewrite', 'grow', 'shrink'):
        with open(target, 'wb') as f:
            f.write(new)
    elif what == 'append':
        with open(target, 'ab') as f:
            f.write(new)
    elif what == 'remove':
        os.unlink(target)
    elif what == 'replace':
        with open(target + '.tmp', 'wb') as f:
            f.write(new)
        os.rename(target + '.tmp', target)
    elif what == 'directory':
        os.unlink(target)
        os.mkdir(target)
    elif what == 'dangling':
        os.unlink(target)
        os.symlink('nowhere', target)
    elif what == 'new file':
        with open(target + '2', 'wb') as f:
            f.write(new)
    elif what == 'rename':
        os.rename(target, target + '2')
    elif what == 'input':
        Workspace(target).add_input('in2', 'ik2', 'ic2', IT)


def meanwhile(env, what, file, last, size=None, indexed=False, other=True):
    """one change at any access of the save to the workspace"""
    r = env.root
    box = known_box(env, 'box')
    if indexed:
        index(box)
    ws = r + '/ws'
    cid = env.atom('in.cid')
    workspace(ws, 'k', [('in', 'ik', cid, IT)])
    contents = dict(data=env.content('data', size), code=env.content('code', size))
    files = {'output/data': contents['data'], 'code': contents['code']}
    if other:
        os.mkdir(ws + '/output/sub')
        files['output/sub/other'] = b'other'
        files['zcode'] = b'zcode'
    for p, c in files.items():
        with open(ws + '/' + p, 'wb') as f:
            f.write(c)
    if what == 'shrink':
        new = b''
    elif what == 'grow':
        new = env.content('new', (size or 10) + 7)
    else:
        new = env.content('new', size)
    target = ws if what == 'input' else ws + '/' + file
    at = env.num('access', 0, last)

    def doit():
        change(env, what, target, new)
        return True
    env.meanwhile(doit, at, under=ws)
    x = env.cli('save', 'box', cwd=ws)
    ran, _ = env.meanwhile_ran(last)
    archives = [f for f in os.listdir(box.directory) if f.endswith('.zip')]
    if x.code != 0:
        env.reach('refused')
        env.check(ran, 'saving works')
        env.check(archives == [], 'a failed save leaves no archive')
        return
    env.reach('saved meanwhile' if ran else 'saved')
    env.check(len(archives) == 1, 'one archive is saved')
    p = box.directory / archives[0]
    z = ZipArchive(p, 'box')
    try:
        z.validate()
        ok = True
    except Exception as e:
        ok = False
    env.check(ok, 'the saved bead is valid')
    found = reopened(box).search().all()
    env.check(len(found) == 1, 'the saved bead is found')
    env.check(env.all(found[0].content_id == z.content_id, reopened(box).resolve(found[0]).location == str(p)), 'it is that archive')
    # every member has a content the file had
    legal = {}
    for f, c in files.items():
        legal[f] = [c]
    if ran:
        if what in ('rewrite', 'grow', 'shrink', 'replace'):
            legal[file] = [files[file], new]
        elif what == 'append':
            legal[file] = [files[file], files[file] + new]
        elif what == 'new file':
            legal[file + '2'] = [None, new]
        elif what in ('remove', 'directory', 'dangling'):
            legal[file] = [None, files[file]]
        elif what == 'rename':
            legal[file] = [None, files[file]]
            legal[file + '2'] = [None, files[file]]
        if what == 'replace':
            legal[file + '.tmp'] = [None, new]
    names = []
    for name, c in members_of(p):
        if name.startswith('meta/'):
            continue
        if name.startswith('data/'):
            f = 'output/' + name[len('data/'):]
        else:
            f = name[len('code/'):]
        env.check(f in legal, 'only files of the workspace are saved')
        env.check(env.any(False, *[c == l for l in legal[f] if l is not None]), 'the content saved is one that the file had')
        names.append(f)
    for f in legal:
        if None not in legal[f]:
            env.check(f in names, 'every file is saved')
    env.check(len(names) == len(set(names)), 'every file is saved once')
    inputs = [[i.name, i.kind, i.content_id, i.freeze_time_str] for i in z.inputs]
    one = [['in', 'ik', cid, IT]]
    if len(inputs) == 2:
        env.check(env.all(ran, what == 'input', inputs[1] == ['in2', 'ik2', 'ic2', IT]), 'the inputs are those of the workspace')
        inputs = inputs[:1]
    env.check(inputs == one, 'the inputs are saved')
